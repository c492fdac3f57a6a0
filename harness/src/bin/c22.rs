//! C22: implied volatility inverts the price or fails with an error.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpvol::BumpVol;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::Pricer;
use quantmath::solvers::impliedvol::ImpliedVol;
use quantmath::solvers::OneDimensionalSolver;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    min: f64,
    vol: f64,
    max: f64,
    tol: f64,
    off: f64,
}

fn pricer(c: &Case) -> Result<Box<dyn Pricer>, Fail> {
    let md = RcMarketData::new(Arc::new(c.market.build()?));
    Ok(SelfPricerFactory::new().new(c.instr.build(&c.market)?, FixTable::none(c.market.date).rc()?, md)?)
}

fn with_vol(c: &Case, vol: f64) -> Result<f64, Fail> {
    let mut m = c.market.clone();
    for i in c.instr.names() {
        Bp::SetVol(i, vol).apply(&mut m);
    }
    Ok(pricer(&Case { market: m, ..c.clone() })?.price()?)
}

fn others(p: &dyn Pricer, c: &Case) -> Vec<(String, f64)> {
    let n = c.market.date;
    let names: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    let far = c.instr.options().iter().map(|o| o.expiry.0).max().unwrap_or(n);
    probe(p.as_bumpable().context(), &c.market, &names, &[n, (n + far) / 2, far]).into_iter().filter(|x| !x.0.starts_with("vol")).collect()
}

fn inverts(c: &Case, obs: &mut Obs) -> R {
    let mut p = pricer(c)?;
    let before = others(&*p, c);
    let target = with_vol(c, c.vol)?;
    let scale: f64 = c.market.names.iter().map(|n| n.spot).sum::<f64>() * 10.0;
    let (lo, hi) = (with_vol(c, c.min)?, with_vol(c, c.max)?);
    let solver = ImpliedVol::new(c.tol, 200);
    let r = solver.solve(&mut *p, target, c.min, c.max);
    // rounding may leave no bracket where volatility hardly matters
    let sure = lo.min(hi) < target - 1e-9 * scale && lo.max(hi) > target + 1e-9 * scale;
    let v = match r {
        Ok(v) => v,
        Err(e) => {
            ensure!(!sure, "no-solution", "no solution for {} between {} and {}: {}", target, lo, hi, e);
            obs.tag("volatility does not matter");
            return Ok(());
        }
    };
    obs.nontrivial_if(sure);
    obs.tag_if(c.market.names[c.instr.names()[0]].vol.kind() != "flat", "surface with smiles");
    ensure!(v >= c.min.min(c.max) && v <= c.min.max(c.max), "outside", "solution {} outside {} to {}", v, c.min, c.max);
    let w = 2.0 * c.tol + 1e-12;
    let (a, b) = (with_vol(c, (v - w).max(0.0))?, with_vol(c, v + w)?);
    ensure!(a <= target + 1e-9 * scale && b >= target - 1e-9 * scale, "reprice", "at {} the price lies between {} and {}, not {}", v, a, b, target);
    let after = others(&*p, c);
    if let Some(e) = differs(&after, &before, 0.0) {
        bail!("disturbed", "solving changed {}", e);
    }
    // the pricer still works
    let bump = Bump::new_vol(&name_id(c.instr.names()[0]), BumpVol::new_replace(c.vol));
    p.as_mut_bumpable().bump(&bump, None)?;
    ensure!(close(p.price()?, target, 1e-11), "usable", "after solving, the pricer with volatility {} gives {} not {}", c.vol, p.price()?, target);
    Ok(())
}

fn refuses(c: &Case, obs: &mut Obs) -> R {
    let mut p = pricer(c)?;
    let names = c.instr.options().iter().map(|o| o.under).collect::<std::collections::BTreeSet<_>>();
    let (lo, hi) = (with_vol(c, c.min)?, with_vol(c, c.max)?);
    let target = if c.off > 0.0 { lo.max(hi) + c.off } else { lo.min(hi) + c.off - 1e-6 };
    obs.nontrivial();
    let r = ImpliedVol::new(c.tol, 200).solve(&mut *p, target, c.min, c.max);
    if names.len() == 1 {
        obs.tag("not bracketed");
        ensure!(r.is_err(), "not-bracketed", "{:?} for a target of {} where the range gives {} to {}", r, target, lo, hi);
    } else {
        obs.tag(if names.is_empty() { "no surface" } else { "several surfaces" });
        for t in [target, 0.5 * (lo + hi)] {
            let r = ImpliedVol::new(c.tol, 200).solve(&mut *p, t, c.min, c.max);
            ensure!(r.is_err(), "ambiguous", "{:?} although there are {} surfaces", r, names.len());
        }
        let price = pricer(c)?.price()?;
        ensure!(p.price()? == price, "disturbed", "a refused search changed the price from {} to {}", price, p.price()?);
    }
    Ok(())
}

/// One option, or several long options on one name: the price grows with volatility.
fn cases() -> BoxedStrategy<Case> {
    let w = Wild { names: 2, ..WILD };
    market(w)
        .prop_flat_map(|m| {
            let o = option(&m, true);
            (Just(m), vec((dec(0.1, 3.0, 1), o), 1..4))
        })
        .prop_flat_map(|(m, list)| {
            let first = list[0].1.under;
            let instr = if list.len() == 1 {
                Instr::Opt(list[0].1.clone())
            } else {
                Instr::Basket { credit: 0, settle: Rule::Null, parts: list.into_iter().map(|(w, o)| (w, Instr::Opt(Opt { under: first, ..o }))).collect() }
            };
            ranges(m, instr)
        })
        .boxed()
}

fn ranges(m: Market, instr: Instr) -> BoxedStrategy<Case> {
    let range = prop_oneof![5 => (dec(0.0, 0.3, 3), dec(0.0, 1.0, 3), dec(0.01, 1.0, 3)), 1 => (dec(0.0, 0.01, 4), dec(0.0, 1.0, 3), dec(0.0, 0.02, 4)), 1 => (Just(0.0), dec(0.0, 0.03, 4), dec(0.1, 2.0, 2))];
    (Just(m), Just(instr), range, 2i32..12, prop_oneof![dec(-5.0, 0.0, 2), dec(0.01, 5.0, 2)], any::<bool>())
        .prop_map(|(market, instr, (min, a, b), digits, off, swap)| {
            let max = min + b + 0.01;
            let vol = min + (max - min) * a;
            let (min, max) = if swap { (max, min) } else { (min, max) };
            Case { market, instr, min, vol, max, tol: 10f64.powi(-digits), off }
        })
        .boxed()
}

fn any_cases() -> BoxedStrategy<Case> {
    let two = Wild { names: 3, smiles: false, ..WILD };
    let many = market(two)
        .prop_flat_map(|m| {
            let i = instrument(&m);
            (Just(m), i)
        })
        .prop_flat_map(|(m, i)| ranges(m, i));
    prop_oneof![1 => cases(), 2 => many.prop_filter("several or no surfaces", |c| c.instr.options().iter().map(|o| o.under).collect::<std::collections::BTreeSet<_>>().len() != 1)].boxed()
}

fn main() {
    Check::new("C22")
        .assume("long options on one name, so that the price grows with volatility; tolerances from 1e-2 to 1e-11")
        .sub("inverts", 130000, 2600000, "the range brackets the target beyond rounding", cases, inverts)
        .sub("refuses", 140000, 2800000, "always", any_cases, refuses)
        .main()
}
