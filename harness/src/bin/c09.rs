//! C09: bad input gives an error, never a panic, crash or hang.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::*;
use quantmath::core::qm;
use quantmath::data::fixings::RcFixingTable;
use quantmath::data::volsmile::*;
use quantmath::math::brent::zbrent;
use quantmath::math::interpolation::*;
use quantmath::math::optionpricing::Black76;
use quantmath::facade::c_interface::*;
use quantmath::facade::*;
use quantmath::instruments::assets::RcCurrency;
use quantmath::instruments::*;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::ffi::{CStr, CString};
use std::io::Cursor;
use std::sync::Arc;
use vh::docs::*;
use vh::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Pols(u8, u8);
fn control(i: u8) -> DedupControl {
    [DedupControl::Inline, DedupControl::WriteOnce, DedupControl::ErrorIfMissing][i as usize % 3]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    valid: Valid,
    kind: Kind,
    edits: Vec<Edit>,
    cuts: Vec<Cut>,
    pols: Pols,
}

enum Loaded {
    Market(RcMarketData),
    Instrument(RcInstrument),
    Currency(RcCurrency),
    Fixings(RcFixingTable),
    Factory(RcPricerFactory),
    Generator(RcReportGenerator),
    Reports(Vec<BoxReport>),
}

fn load(k: Kind, text: &[u8], pols: Pols) -> Result<Loaded, qm::Error> {
    let mut c = Cursor::new(text);
    Ok(match k {
        Kind::Market => Loaded::Market(market_data_from_json(&mut c)?),
        Kind::Instrument => Loaded::Instrument(instrument_from_json(&mut c, control(pols.0), &[], control(pols.1), &[])?),
        Kind::Currency => Loaded::Currency(currency_from_json(&mut c)?),
        Kind::Fixings => Loaded::Fixings(fixing_table_from_json(&mut c)?),
        Kind::Factory => Loaded::Factory(pricer_factory_from_json(&mut c)?),
        Kind::Generator => Loaded::Generator(report_generator_from_json(&mut c)?),
        Kind::Reports => Loaded::Reports(reports_from_json(&mut c)?),
    })
}

fn shown(t: &[u8]) -> String {
    String::from_utf8_lossy(t).chars().take(3000).collect()
}

/// Loads a text; what happens must be a result.
fn attempt(k: Kind, text: &[u8], pols: Pols, obs: &mut Obs) -> Result<Option<Loaded>, Fail> {
    match no_panic(|| load(k, text, pols)) {
        Err(p) => bail!(&format!("panic-load {}", p.split(" at ").next().unwrap_or("")), "loading {} panicked ({}) on {}", k.name(), p, shown(text)),
        Ok(Err(e)) => {
            ensure!(!e.to_string().trim().is_empty(), "message", "the error for {} has no message", shown(text));
            obs.tag("refused");
            Ok(None)
        }
        Ok(Ok(x)) => {
            obs.tag("accepted");
            Ok(Some(x))
        }
    }
}

fn loading(c: &Case, obs: &mut Obs) -> R {
    obs.tag(c.kind.name());
    let mut v = document(&c.valid, c.kind)?;
    let before = serde_json::to_vec(&v)?;
    for e in &c.edits {
        change(&mut v, e);
    }
    let mut text = serde_json::to_vec(&v)?;
    for x in &c.cuts {
        cut(&mut text, x);
    }
    obs.nontrivial_if(text != before);
    attempt(c.kind, &text, c.pols, obs)?;
    // a failure leaves later loads working
    if let Err(e) = load(c.kind, &before, Pols(0, 0)) {
        bail!("later", "after loading {} a valid text is refused: {}", shown(&text), e);
    }
    Ok(())
}

/// Settlement lags of years and weekends that weigh more than weekdays are left alone, as is a
/// calendar for volatilities asked to step one way and slip the other, which it forbids.
fn outlandish(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(outlandish),
        Value::Object(o) => {
            let number = |k: &str| o.get(k).and_then(|x| x.as_f64());
            let slip = o.get("slip_forward").and_then(|x| x.as_bool());
            let volatility = o.get("calendar").map_or(false, |c| c.to_string().contains("VolatilityCalendar"));
            number("step").map_or(false, |x| x.abs() > 5000.0 || volatility && x != 0.0 && slip != Some(x > 0.0)) || number("holiday_weight").map_or(false, |x| x > 1.0) || o.values().any(outlandish)
        }
        _ => false,
    }
}

/// The calculation on inputs of which one has been changed and accepted
fn using(c: &Case, obs: &mut Obs) -> R {
    obs.tag(c.kind.name());
    let mut v = document(&c.valid, c.kind)?;
    for e in &c.edits {
        change(&mut v, e);
    }
    if outlandish(&v) {
        obs.count("outlandish lag or weight, not used", 1);
        return Ok(());
    }
    let text = serde_json::to_vec(&v)?;
    let loaded = match attempt(c.kind, &text, c.pols, obs)? {
        None => return Ok(()),
        Some(x) => x,
    };
    let mut factory = factory(c.valid.mc);
    let mut instr = c.valid.instr.build(&c.valid.market)?;
    let mut fixings = c.valid.fixings.rc()?;
    let mut market = RcMarketData::new(Arc::new(c.valid.market.build()?));
    let mut gens: Vec<RcReportGenerator> = c.valid.gens.iter().map(|g| g.build()).collect();
    match loaded {
        Loaded::Market(x) => market = x,
        Loaded::Instrument(x) => instr = x,
        Loaded::Currency(_) => return Ok(()),
        Loaded::Fixings(x) => fixings = x,
        Loaded::Factory(x) => factory = x,
        Loaded::Generator(x) => gens = vec![x],
        Loaded::Reports(r) => {
            let r = no_panic(|| {
                let mut out = Vec::new();
                write_results(&r, true, &mut out).is_ok() && assert_approx_eq_reports(&r, &r, 1.0, 1.0, 1.0).is_ok()
            });
            if let Err(p) = r {
                bail!(&format!("panic-reports {}", p.split(" at ").next().unwrap_or("")), "using reports panicked ({}) on {}", p, shown(&text));
            }
            return Ok(());
        }
    }
    obs.nontrivial();
    match no_panic(|| calculate(factory, instr, fixings, market, &gens).map(|_| ())) {
        Err(p) => bail!(&format!("panic-use {}", p.split(" at ").next().unwrap_or("")), "calculating with an accepted {} panicked ({}): {}", c.kind.name(), p, shown(&text)),
        Ok(Err(e)) => {
            ensure!(!e.to_string().trim().is_empty(), "message", "the error for {} has no message", shown(&text));
            obs.tag("calculation refused");
        }
        Ok(Ok(())) => obs.tag("calculated"),
    }
    Ok(())
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![4 => Just(Kind::Market), 4 => Just(Kind::Instrument), 1 => Just(Kind::Currency), 2 => Just(Kind::Fixings), 1 => Just(Kind::Factory), 2 => Just(Kind::Generator), 1 => Just(Kind::Reports)].boxed()
}

fn case() -> BoxedStrategy<Case> {
    let cut = prop_oneof![2 => Just(Vec::new()).boxed(), 1 => vec(cuts(), 1..3).boxed()];
    (valid(), kind(), vec(edit(), 0..4), cut, (0u8..3, 0u8..3)).prop_map(|(valid, kind, edits, cuts, p)| Case { valid, kind, edits, cuts, pols: Pols(p.0, p.1) }).boxed()
}

fn mistaken() -> BoxedStrategy<Case> {
    (valid(), kind(), (0u8..3, 0u8..3))
        .prop_flat_map(|(mut valid, kind, p)| {
            // the size of a simulation grows with the variance
            valid.mc &= kind != Kind::Market;
            let edits = vec(mistake(valid.mc), 1..4);
            (Just((valid, kind, p)), edits)
        })
        .prop_map(|((valid, kind, p), edits)| Case { valid, kind, edits, cuts: Vec::new(), pols: Pols(p.0, p.1) })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    bytes: Vec<u8>,
    pols: Pols,
}

fn raw(c: &Raw, obs: &mut Obs) -> R {
    for k in KINDS {
        attempt(k, &c.bytes, c.pols, obs)?;
    }
    obs.nontrivial_if(c.bytes.len() > 2);
    Ok(())
}

/// Bytes, or words of the format put together
fn bytes() -> BoxedStrategy<Vec<u8>> {
    let word = prop::sample::select(vec![
        "{", "}", "[", "]", ":", ",", "\"", "null", "true", "0", "-1", "1e5", "0.5", "\"id\":", "\"Basket\":", "\"Equity\":", "\"Currency\":", "\"ZeroCoupon\":", "\"currency\":", "\"settlement\":", "\"USD\"", "\"BusinessDays\":",
        "\"calendar\":", "\"WeekdayCalendar\":", "\"2018-02-01\"", "\"2018-02\"", "\"--\"", "\"date\":", "\"spot_date\":", "\"DeltaGamma\":", "\"small_bump\":", "\"SelfPricerFactory\":", "\"MonteCarloPricerFactory\":", "\"fixings\":", "\\",
    ]);
    prop_oneof![1 => vec(any::<u8>(), 0..60).boxed(), 2 => vec(word, 0..40).prop_map(|v| v.concat().into_bytes()).boxed()].boxed()
}

/// The same texts by way of the C interface: a failure is an error handle with a message.
fn boundary(c: &Case, obs: &mut Obs) -> R {
    obs.tag(c.kind.name());
    let mut v = document(&c.valid, c.kind)?;
    for e in &c.edits {
        change(&mut v, e);
    }
    let mut text = serde_json::to_vec(&v)?;
    for x in &c.cuts {
        cut(&mut text, x);
    }
    text.retain(|b| *b != 0);
    obs.nontrivial_if(!c.edits.is_empty() || !c.cuts.is_empty());
    let s = CString::new(text.clone()).unwrap();
    let none: [u64; 0] = [];
    let policy = |i: u8| match i % 3 {
        0 => QmDedupControl::QmInline,
        1 => QmDedupControl::QmWriteOnce,
        _ => QmDedupControl::QmErrorIfMissing,
    };
    // and a little of what is not for it
    for k in [c.kind, KINDS[(c.pols.0 + c.pols.1) as usize]] {
        let expected = no_panic(|| load(k, &text, c.pols));
        let h = match k {
            Kind::Market => qm_market_data_from_json_string(s.as_ptr()),
            Kind::Instrument => qm_instrument_from_json_string(s.as_ptr(), policy(c.pols.0), 0, none.as_ptr(), policy(c.pols.1), 0, none.as_ptr()),
            Kind::Currency => qm_currency_from_json_string(s.as_ptr()),
            Kind::Fixings => qm_fixing_table_from_json_string(s.as_ptr()),
            Kind::Factory => qm_pricer_factory_from_json_string(s.as_ptr()),
            Kind::Generator => qm_report_generator_from_json_string(s.as_ptr()),
            Kind::Reports => qm_reports_from_json_string(s.as_ptr()),
        };
        let failed = qm_is_error(h);
        let message = qm_error_string(h);
        let words = unsafe { CStr::from_ptr(message).to_bytes().to_vec() };
        qm_free_string(message);
        qm_free_handle(h);
        obs.tag(if failed { "refused" } else { "accepted" });
        ensure!(!words.is_empty(), "message", "the error handle for {} has no message", shown(&text));
        ensure!(failed == !matches!(expected, Ok(Ok(_))), "boundary", "loading {} through the C interface {}, unlike the library: {}", k.name(), if failed { "fails" } else { "succeeds" }, shown(&text));
    }
    Ok(())
}

/// Numbers such as a broken feed delivers
fn odd() -> BoxedStrategy<Bits> {
    prop_oneof![
        3 => prop::sample::select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e-12, 1e12, -1e12, f64::EPSILON]).prop_map(bits),
        1 => any::<u64>().prop_map(Bits),
        2 => dec(-3.0, 300.0, 2).prop_map(bits),
    ]
    .boxed()
}

fn strange(x: &Bits) -> bool {
    let x = x.get();
    !x.is_finite() || x.abs() > 1e6 || (x != 0.0 && x.abs() < 1e-6) || x < 0.0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Numbers {
    points: Vec<(f64, f64)>,
    ends: (Ex, Ex),
    vol: Vol,
    at: (i32, f64),
    to: (i32, f64),
    odd: Vec<Bits>,
    target: u8,
}

fn survives<T, F: FnOnce() -> T>(what: &str, input: &dyn std::fmt::Debug, f: F) -> Result<T, Fail> {
    match no_panic(f) {
        Ok(x) => Ok(x),
        Err(p) => bail!(&format!("panic {}", what), "{} with {:?} panicked ({})", what, input, p),
    }
}

/// Queries at odd numbers give a number or an error.
fn numbers(c: &Numbers, obs: &mut Obs) -> R {
    let x: Vec<f64> = c.odd.iter().map(|b| b.get()).collect();
    obs.nontrivial_if(c.odd.iter().any(strange));
    obs.tag_if(x.iter().any(|x| x.is_nan()), "not a number");
    obs.tag_if(x.iter().any(|x| x.is_infinite()), "infinity");
    let (l, r) = (c.ends.0.build(), c.ends.1.build());
    let linear = Linear::new(&c.points, l, r)?;
    let fly = FlyweightLinear::new(l, r);
    for q in &x {
        let got = survives("linear interpolation", q, || linear.interpolate(*q))?;
        let again = survives("flyweight interpolation", q, || fly.interpolate(*q, &c.points))?;
        ensure!(!q.is_nan() || (got.is_err() && again.is_err()), "nan", "interpolating at not-a-number gives {:?}", got.ok());
        if c.points.len() > 1 {
            let got = survives("spline interpolation", q, || CubicSpline::new(&c.points, l, r).and_then(|s| s.interpolate(*q)))?;
            ensure!(!q.is_nan() || got.is_err(), "nan", "the spline at not-a-number gives {:?}", got.ok());
            survives("a smile", q, || CubicSplineSmile::new(&c.points).map(|s| s.volatility(*q).is_ok()).is_ok())?;
        }
    }
    // points that are odd themselves
    let pairs: Vec<(f64, f64)> = x.windows(2).map(|w| (w[0], w[1])).collect();
    survives("odd points", &pairs, || Linear::new(&pairs, l, r).and_then(|s| s.interpolate(x[0])).is_ok())?;
    survives("odd points of a spline", &pairs, || CubicSpline::new(&pairs, l, r).and_then(|s| s.interpolate(x[0])).is_ok())?;
    survives("odd quotes", &pairs, || CubicSplineSmile::new(&pairs).and_then(|s| s.volatility(x[0])).is_ok())?;
    if let Ok(v) = c.vol.build() {
        let (from, to) = (Vol::ddf(c.at), Vol::ddf(c.to));
        survives("volatilities", &x, || {
            let mut out = vec![0.0; x.len()];
            v.volatilities(from, &x, &mut out).is_ok()
        })?;
        for k in &x {
            survives("variance", k, || v.variance(from, *k).is_ok())?;
            survives("forward variance", k, || v.forward_variance(from, to, *k).is_ok())?;
        }
    }
    let black = Black76::new()?;
    if x.len() >= 4 {
        survives("a call", &x, || black.call_price(x[0], x[1], x[2], x[3]))?;
        survives("a put", &x, || black.put_price(x[0], x[1], x[2], x[3]))?;
        let root = survives("the root finder", &x, || {
            zbrent(x[0], x[1], x[2].abs(), 60, &mut |v: f64| match c.target % 4 {
                0 => Ok(v - x[3]),
                1 => Ok((v - x[3]).powi(3)),
                2 if v > x[3] => Err(qm::Error::new("too far")),
                _ => Ok(v * v - x[3]),
            })
        })?;
        obs.tag_if(root.is_ok(), "root found");
    }
    Ok(())
}

fn number_case() -> BoxedStrategy<Numbers> {
    (4000i32..60000, dec(0.0, 0.9, 1))
        .prop_flat_map(|(n, f)| {
            let base = (n, f);
            let vol = prop_oneof![1 => flat_vol(base, any_cal(n, 400)), 3 => pillar_vol(base, 100.0, any_cal(n, 400))];
            let at = move || (n..n + 900, dec(0.0, 0.99, 2));
            (vec((1i32..50, dec(0.01, 2.0, 2)), 1..6), (ex(), ex()), vol, at(), at(), vec(odd(), 1..6), any::<u8>())
        })
        .prop_map(|(gaps, ends, vol, at, to, odd, target)| {
            let mut x = 10.0;
            let points = gaps
                .into_iter()
                .map(|(g, y)| {
                    x += g as f64;
                    (x, y)
                })
                .collect();
            Numbers { points, ends, vol, at, to, odd, target }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bumps {
    valid: Valid,
    bumps: Vec<(u8, usize, Bits, Bits)>,
}

/// Bumps and reports of odd sizes
fn bumps(c: &Bumps, obs: &mut Obs) -> R {
    let v = &c.valid;
    let mut pricer = match factory(false).new(v.instr.build(&v.market)?, v.fixings.rc()?, RcMarketData::new(Arc::new(v.market.build()?))) {
        Ok(p) => p,
        Err(_) => {
            obs.tag("no pricer");
            return Ok(());
        }
    };
    obs.nontrivial_if(c.bumps.iter().any(|b| strange(&b.2) || strange(&b.3)));
    for (kind, i, a, b) in &c.bumps {
        let (a, b) = (a.get(), b.get());
        let shown = (kind, i, a, b);
        let bump = match kind % 10 {
            0 => Bp::Spot(*i, a),
            1 => Bp::SetSpot(*i, a),
            2 => Bp::Divs(*i, a),
            3 => Bp::Borrow(*i, true, a),
            4 => Bp::Borrow(*i, false, a),
            5 => Bp::Vol(*i, a),
            6 => Bp::VolTime(*i, a, b),
            7 => Bp::SetVol(*i, a),
            8 => Bp::Yield(*i, true, a),
            _ => Bp::Yield(*i, false, a),
        };
        let mut save = survives("a save area", &shown, || pricer.as_bumpable().new_saveable())?;
        let done = survives("a bump", &shown, || pricer.as_mut_bumpable().bump(&bump.build(), Some(&mut *save)).is_ok())?;
        let priced = survives("pricing after a bump", &shown, || pricer.price())?;
        obs.tag_if(done && priced.is_ok(), "priced after the bump");
        obs.tag_if(done && priced.is_err(), "refused after the bump");
        if kind % 2 == 0 {
            survives("restoring", &shown, || pricer.as_mut_bumpable().restore(&*save).is_ok())?;
        }
        let gens = [Gen::Delta(a), Gen::Vega(a), Gen::VegaTime(a, b)];
        let g = gens[*i % 3].build();
        let mut save = pricer.as_bumpable().new_saveable();
        let reported = survives("a report", &shown, || g.generate(&mut *pricer, &mut *save, 1.0).map(|_| ()))?;
        if let Err(e) = reported {
            ensure!(!e.to_string().trim().is_empty(), "message", "the error of a report has no message");
        }
    }
    Ok(())
}

fn main() {
    Check::new("C09")
        .assume("calculations with changed inputs: dates between 1990 and 2100, lags up to 5000 days, weights of holidays up to one, and volatilities of a simulation as generated (its memory grows with them); loading has no such bounds")
        .sub_isolated("raw", 110000, 2300000, "more than two bytes", || (bytes(), (0u8..3, 0u8..3)).prop_map(|(bytes, p)| Raw { bytes, pols: Pols(p.0, p.1) }), raw)
        .sub_isolated("loading", 23000, 460000, "the text differs from a valid one", case, loading)
        .sub_isolated("boundary", 23000, 460000, "the text differs from a valid one", case, boundary)
        .sub_isolated("numbers", 60000, 1200000, "a number that is negative, infinite, not-a-number, huge or tiny", number_case, numbers)
        .sub_isolated("bumps", 20000, 400000, "a size that is negative, infinite, not-a-number, huge or tiny", || (valid(), vec((any::<u8>(), 0usize..3, odd(), odd()), 1..4)).prop_map(|(valid, bumps)| Bumps { valid, bumps }), bumps)
        .sub_isolated("using", 25000, 500000, "a changed input was accepted", mistaken, using)
        .main()
}
