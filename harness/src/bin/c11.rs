//! C11: a European option is worth the Black formula on the market's own forward.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::instruments::*;
use quantmath::instruments::options::*;
use quantmath::risk::marketdata::MarketData;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    opt: Opt,
    at: Vec<Moment>,
    other: f64,
}

fn price(i: &RcInstrument, md: &MarketData, at: Moment) -> Result<f64, quantmath::core::qm::Error> {
    i.as_priceable().expect("options are priceable").price(md, moment(at))
}

/// The library's own forward, surface and curve with an independent Black formula.
/// `None` where the surface gives no usable variance.
fn from_parts(c: &Case, md: &MarketData, at: Moment, curve: usize) -> Result<Option<(f64, f64)>, Fail> {
    let o = &c.opt;
    if at > o.expiry {
        return Ok(Some((0.0, 0.0)));
    }
    let e = c.market.equity(o.under);
    // the market's own forwards, as quoted by the equity itself
    let quote = |n: &[Moment]| -> Result<Vec<f64>, Fail> {
        let at: Vec<_> = n.iter().map(|x| moment(*x)).collect();
        let mut out = vec![f64::NAN; n.len()];
        e.as_priceable().unwrap().prices(md, &at, &mut out)?;
        Ok(out)
    };
    let vol = md.vol_surface(&*e, d(o.expiry.0), &|| md.forward_curve(&*e, d(o.expiry.0)))?;
    let mut from = (at.0, fraction(at.1));
    let (k, f) = match o.terms {
        Terms::Strike(k) => (k, quote(&[o.expiry])?[0]),
        Terms::Start { fraction: x, date } => {
            let s = (date.0, fraction(date.1));
            if s > from {
                from = s;
            }
            let q = quote(&[date, o.expiry])?;
            (x * q[0], q[1])
        }
    };
    let yc = md.yield_curve(&credit_id(curve), d(o.pay()))?;
    let df = (yc.rt(d(o.settle.apply(at.0)))? - yc.rt(d(o.pay()))?).exp();
    let disp = vol.displacement(d(o.expiry.0))?;
    let v = match vol.forward_variance(Vol::ddf(from), Vol::ddf(o.expiry_time()), k) {
        Ok(v) if v >= 0.0 => v,
        Ok(v) if v.is_nan() => return Ok(None),
        _ => return Ok(None),
    };
    let (f, k) = (f - disp, k - disp);
    if f < 0.0 {
        return Ok(None);
    }
    let b = if k >= 0.0 {
        black(o.call, f, k, v.sqrt())
    } else if o.call {
        f - k
    } else {
        0.0
    };
    Ok(Some((df * b, 2e-9 * df * (1.0 + f + k.abs()))))
}

fn formula(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let i = c.opt.build(&c.market)?;
    let credit = c.market.names[c.opt.under].credit;
    obs.tag(match c.opt.terms {
        Terms::Strike(k) if k == 0.0 => "zero strike",
        Terms::Strike(_) => "spot-starting",
        _ => "forward-starting",
    });
    obs.tag_if(c.opt.expiry.0 == c.market.date, "expires today");
    obs.tag_if(c.market.names[c.opt.under].vol.displacement(c.opt.expiry.0) != 0.0, "displaced");
    obs.tag_if(credit != c.opt.credit, "own credit");
    obs.tag_if(c.at.iter().any(|a| *a > c.opt.expiry), "valued after expiry");
    let mut at = c.at.clone();
    at.push((c.market.date, Tod::Open));
    at.push(c.opt.expiry);
    let moments: Vec<_> = at.iter().map(|a| moment(*a)).collect();
    let mut batch = vec![f64::NAN; at.len()];
    let batched = i.as_priceable().unwrap().prices(&md, &moments, &mut batch);
    let mut all = true;
    for (j, a) in at.iter().enumerate() {
        let want = from_parts(c, &md, *a, c.opt.credit)?;
        let got = price(&i, &md, *a);
        let (want, tol) = match want {
            // so far outside a smile that no number can hold the variance
            Some(w) if !w.0.is_finite() => {
                all = false;
                obs.tag("variance beyond numbers");
                continue;
            }
            None => {
                all = false;
                obs.tag("no variance");
                if let Ok(p) = got {
                    bail!("priced-without-variance", "priced at {} where the surface gives no variance", p);
                }
                continue;
            }
            Some(w) => w,
        };
        // a forward from which more has been displaced than it is worth has no price
        let got = got?;
        obs.nontrivial_if(want > 0.01);
        if !((got - want).abs() <= tol) {
            let as_is = from_parts(c, &md, *a, credit)?.map(|x| x.0).unwrap_or(f64::NAN);
            if credit != c.opt.credit && (got - as_is).abs() <= tol {
                obs.finding("option-discounted-on-underlying-curve", format!("worth {} at {}: discounted on the curve of the underlying's credit, not {} on that of the option's", got, d(a.0), want))?;
            } else {
                bail!("formula", "worth {} on {} {:?}, the Black formula gives {}", got, d(a.0), a.1, want);
            }
        }
        if batched.is_ok() {
            ensure!(batch[j] == got, "batch", "worth {} on {} in a batch, {} alone", batch[j], d(a.0), got);
        }
    }
    if all {
        batched?;
    }
    Ok(())
}

fn reference(c: &Case, obs: &mut Obs) -> R {
    let mut c = c.clone();
    c.opt.credit = c.market.names[c.opt.under].credit;
    let md = c.market.build()?;
    let i = c.opt.build(&c.market)?;
    for a in c.at.iter().cloned().chain(Some((c.market.date, Tod::Open))) {
        if let Some((want, tol)) = c.opt.value(&c.market, a, c.opt.credit) {
            let got = price(&i, &md, a)?;
            obs.nontrivial_if(want > 0.01);
            ensure!((got - want).abs() <= tol, "reference", "worth {} on {} {:?}, the reference gives {} within {}", got, d(a.0), a.1, want, tol);
        }
    }
    Ok(())
}

fn relations(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let o = &c.opt;
    let n = &c.market.names[o.under];
    let a = (c.market.date, Tod::Open);
    let e = c.market.equity(o.under);
    let fwd = md.forward_curve(&*e, d(o.expiry.0))?;
    let f = match o.terms {
        Terms::Strike(_) => price(&e, &md, o.expiry)?,
        _ => fwd.forward(d(o.expiry.0))?,
    };
    let with = |call: bool, terms: &Terms| -> Result<f64, quantmath::core::qm::Error> { price(&Opt { call, terms: terms.clone(), ..o.clone() }.build(&c.market)?, &md, a) };
    let strike = |t: &Terms| -> Result<f64, quantmath::core::qm::Error> {
        Ok(match t {
            Terms::Strike(k) => *k,
            Terms::Start { fraction, date } => fraction * fwd.forward(d(date.0))?,
        })
    };
    // the discount factor, whichever curve it is taken from
    let df = |i: usize| -> f64 {
        let y = &c.market.curves[i];
        (y.acc(o.settle.apply(a.0)) - y.acc(o.pay())).exp()
    };
    let (own, under) = (df(o.credit), df(n.credit));
    let (call, put) = match (with(true, &o.terms), with(false, &o.terms)) {
        (Ok(x), Ok(y)) if !x.is_nan() && !y.is_nan() => (x, y),
        (Err(_), Err(_)) => return Ok(()),
        (Ok(x), Ok(y)) if x.is_nan() && y.is_nan() => return Ok(()),
        (x, y) => bail!("one-sided", "call gives {:?} and put {:?}", x, y),
    };
    let k = strike(&o.terms)?;
    let tol = 1e-8 * (1.0 + f + k);
    obs.nontrivial_if(call > 0.01 && put > 0.01);
    let parity = |df: f64| (call - put - df * (f - k)).abs() <= tol;
    if !parity(own) {
        if o.credit != n.credit && parity(under) {
            obs.finding("option-discounted-on-underlying-curve", format!("call less put is {}, that is {} discounted on the curve of the underlying's credit", call - put, f - k))?;
        } else {
            bail!("parity", "call {} less put {} is not the discounted value of {} less {}", call, put, f, k);
        }
    }
    let df = if parity(own) { own } else { under };
    // a displaced process is bounded by the displacement too
    let disp = n.vol.displacement(o.expiry.0);
    ensure!(call >= df * (f - k).max(0.0) - tol && call <= df * f - df * disp.min(0.0) + tol, "call-bounds", "call {} outside its bounds, forward {} strike {} discount {}", call, f, k, df);
    ensure!(put >= df * (k - f).max(0.0) - tol && put <= df * k + tol, "put-bounds", "put {} outside its bounds, forward {} strike {} discount {}", put, f, k, df);
    // in strike, where there is no smile
    if let Vol::Flat { .. } = n.vol {
        let higher = match o.terms {
            Terms::Strike(k) => Terms::Strike(k + c.other * 10.0),
            Terms::Start { fraction, date } => Terms::Start { fraction: fraction + c.other, date },
        };
        ensure!(with(true, &higher)? <= call + tol, "call-in-strike", "a call struck higher is worth {}, more than {}", with(true, &higher)?, call);
        ensure!(with(false, &higher)? >= put - tol, "put-in-strike", "a put struck higher is worth {}, less than {}", with(false, &higher)?, put);
        obs.tag("monotone in strike");
        // in volatility
        if let Vol::Flat { vol, cal, base } = &n.vol {
            let mut m = c.market.clone();
            m.names[o.under].vol = Vol::Flat { vol: vol + c.other * 0.2, cal: cal.clone(), base: *base };
            let md = m.build()?;
            for x in [true, false] {
                let more = price(&Opt { call: x, ..o.clone() }.build(&m)?, &md, a)?;
                let was = if x { call } else { put };
                ensure!(more >= was - tol, "in-volatility", "with volatility up by {} the option is worth {}, less than {}", c.other * 0.2, more, was);
            }
        }
    }
    Ok(())
}

/// Terms that make no sense are refused.
fn refused(c: &Case, obs: &mut Obs) -> R {
    let o = &c.opt;
    let e = || c.market.equity(o.under);
    obs.nontrivial();
    ensure!(SpotStartingEuropean::new("X", "USD", e(), o.settle.build(), moment(o.expiry), -c.other - 0.01, PutOrCall::Call, OptionSettlement::Cash).is_err(), "negative-strike", "a negative strike is accepted");
    for x in [0.0, -c.other - 0.01] {
        ensure!(ForwardStartingEuropean::new("X", "USD", e(), o.settle.build(), moment(o.expiry), x, moment(o.expiry), PutOrCall::Call, OptionSettlement::Cash).is_err(), "strike-fraction", "a strike fraction of {} is accepted", x);
    }
    // underlyings that have no volatility
    let cash: RcInstrument = Instr::Currency.build(&c.market)?;
    ensure!(SpotStartingEuropean::new("X", "USD", cash, o.settle.build(), moment(o.expiry), 1.0, PutOrCall::Call, OptionSettlement::Cash).is_err(), "underlying", "an option on cash is accepted");
    // a strike date in the past
    let md = c.market.build()?;
    let started = Opt { terms: Terms::Start { fraction: 1.0, date: (c.market.date - 1 - (c.other * 10.0) as i32, Tod::Close) }, ..o.clone() };
    let r = price(&started.build(&c.market)?, &md, (c.market.date, Tod::Open));
    ensure!(r.is_err(), "started", "an unfixed strike in the past is priced at {:?}", r);
    // market data that is not there
    let absent = Market { names: vec![], ..c.market.clone() };
    let r = price(&o.build(&c.market)?, &absent.build()?, (c.market.date, Tod::Open));
    ensure!(r.is_err(), "absent", "priced at {:?} without market data", r);
    Ok(())
}

/// With money counted in other units everything is worth as many times more. (Powers of two
/// leave every digit as it was.)
fn units(c: &(Case, i32), obs: &mut Obs) -> R {
    let (c, power) = c;
    let unit = 2f64.powi(*power);
    let md = c.market.build()?;
    let i = c.opt.build(&c.market)?;
    let other = c.market.in_units(unit);
    let terms = match &c.opt.terms {
        Terms::Strike(k) => Terms::Strike(k * unit),
        t => t.clone(),
    };
    let j = Opt { terms, ..c.opt.clone() }.build(&other)?;
    let om = other.build()?;
    let spot = c.market.names[c.opt.under].spot;
    obs.tag(if *power < 0 { "smaller" } else { "larger" });
    obs.tag_if(spot * unit < 1.0, "spot below one");
    for a in c.at.iter().chain(Some(&(c.market.date, Tod::Open))) {
        match (price(&i, &md, *a), price(&j, &om, *a)) {
            (Ok(p), Ok(q)) => {
                obs.nontrivial_if(p > 0.01 && *power != 0);
                ensure!(p.is_nan() && q.is_nan() || close(p * unit, q, 0.0) || (p * unit - q).abs() <= 1e-9 * unit * (spot + p.abs()), "units", "worth {} on {} {:?}, and {} with money counted in units of 1/{}", p, d(a.0), a.1, q, unit);
            }
            (Err(_), Err(_)) => obs.tag("not priced"),
            (p, q) => bail!("units-error", "price {:?}, and {:?} with money counted in units of 1/{}", p, q, unit),
        }
    }
    Ok(())
}

fn cases(w: Wild) -> BoxedStrategy<Case> {
    market(w)
        .prop_flat_map(|m| {
            let n = m.date;
            let o = option(&m, true);
            (Just(m), o, vec((prop_oneof![n..n + 10, n..n + 800], tod()), 0..4), dec(0.0, 1.0, 3)).prop_map(|(market, opt, mut at, other)| {
                at.sort();
                Case { market, opt, at, other }
            })
        })
        .boxed()
}

fn main() {
    Check::new("C11")
        .assume("names are priced from complete market data; valuation is on or after the spot date, and expiry too; the surface was made on or before the spot date")
        .sub("formula", 100000, 2000000, "worth more than 0.01", || cases(WILD), formula)
        .sub("reference", 160000, 3300000, "worth more than 0.01", || cases(TAME), reference)
        .sub("relations", 100000, 2000000, "both call and put are worth more than 0.01", || cases(WILD), relations)
        .sub("units", 60000, 1200000, "worth more than 0.01 and the unit is not one", || (cases(WILD), -12i32..12), units)
        .sub("refused", 170000, 3400000, "always", || cases(TAME), refused)
        .main()
}
