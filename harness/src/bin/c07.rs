//! C07: everything survives a JSON round trip with identical behaviour.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::*;
use quantmath::core::factories::Qrc;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::divstream::RcDividendStream;
use quantmath::data::fixings::RcFixingTable;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::{RcVolSurface, VolSurface};
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::RcDateRule;
use quantmath::dates::Date;
use quantmath::facade::*;
use quantmath::instruments::assets::RcCurrency;
use quantmath::instruments::*;
use quantmath::math::interpolation::*;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::{PricerFactory, RcPricerFactory};
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::Cursor;
use std::sync::Arc;
use vh::market::*;
use vh::portfolio::*;
use vh::reports::*;
use vh::*;

/// Numbers of up to this many digits are read back exactly by the JSON reader the library
/// is built with; the rest may lose a unit in the last place.
fn short(x: &serde_json::Number) -> bool {
    if !x.is_f64() {
        return true;
    }
    let s = x.to_string();
    let m = s.split(|c| c == 'e' || c == 'E').next().unwrap();
    m.chars().filter(|c| c.is_ascii_digit()).collect::<String>().trim_start_matches('0').trim_end_matches('0').len() <= 15 && !s.contains('e')
}
/// Are all numbers in a text short? (Judged on the text, since reading it may shorten them.)
fn exact(text: &str) -> bool {
    let mut quoted = false;
    let mut escaped = false;
    let mut digits = String::new();
    for c in text.chars() {
        if quoted {
            quoted = escaped || c != '"';
            escaped = c == '\\' && !escaped;
        } else if c.is_ascii_digit() {
            digits.push(c);
        } else if c == 'e' && !digits.is_empty() {
            return false;
        } else if c != '.' {
            quoted = c == '"';
            if digits.trim_start_matches('0').trim_end_matches('0').len() > 15 {
                return false;
            }
            digits.clear();
        }
    }
    true
}
/// The first difference between two texts
fn other(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x == y {
                return None;
            }
            let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if (!short(x) || !short(y)) && x.is_f64() == y.is_f64() && (p - q).abs() <= 1e-15 * p.abs() {
                return None;
            }
            Some(format!("{}: {} not {}", at, y, x))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            let found = x.iter().zip(y).enumerate().find_map(|(i, (p, q))| other(p, q, &format!("{}[{}]", at, i)));
            // what the library keeps without order it may write in any order; where order
            // matters, the answers tell
            let sorted = |v: &[Value]| {
                let mut v: Vec<Value> = v.to_vec();
                v.sort_by_key(|e| e.to_string());
                v
            };
            found.filter(|_| sorted(x).iter().zip(sorted(y).iter()).any(|(p, q)| other(p, q, at).is_some()))
        }
        (Value::Object(x), Value::Object(y)) if x.len() == y.len() => x.iter().find_map(|(k, p)| match y.get(k) {
            Some(q) => other(p, q, &format!("{}.{}", at, k)),
            None => Some(format!("{}.{} is gone", at, k)),
        }),
        _ if a == b => None,
        _ => Some(format!("{}: {} not {}", at, b, a)),
    }
}

/// Writes and reads an object; gives back the copy and the tolerance for its answers.
fn trip<T: Serialize + DeserializeOwned>(x: &T, what: &str) -> Result<(T, f64), Fail> {
    let text = serde_json::to_string(x)?;
    let first: Value = serde_json::from_str(&text)?;
    let back: T = match serde_json::from_str(&text) {
        Ok(b) => b,
        Err(e) => bail!("unreadable", "{} was written but cannot be read ({}): {}", what, e, text),
    };
    let again = serde_json::to_string(&back)?;
    let second: Value = serde_json::from_str(&again)?;
    if let Some(e) = other(&first, &second, what) {
        bail!("text", "written again it differs: {}", e);
    }
    // laid out differently it is the same
    let pretty = serde_json::to_string_pretty(x)?;
    let third: T = match serde_json::from_str(&pretty) {
        Ok(b) => b,
        Err(e) => bail!("unreadable", "{} was written indented but cannot be read ({}): {}", what, e, pretty),
    };
    if let Some(e) = other(&first, &serde_json::to_value(&third)?, what) {
        bail!("text", "written indented and again it differs: {}", e);
    }
    Ok((back, if exact(&text) { 0.0 } else { 1e-11 }))
}

fn same(a: f64, b: f64, tol: f64) -> bool {
    same_bits(a, b) || (tol > 0.0 && (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())))
}

// ------------------------------------------------------------------- dates

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dates {
    n: i32,
    tod: Tod,
    frac: f64,
    cal: Cal,
    rule: Rule,
    at: Vec<i32>,
}

fn dates(c: &Dates, obs: &mut Obs) -> R {
    let date = d(c.n);
    let (back, _) = trip(&date, "date")?;
    ensure!(back == date, "date", "{} comes back as {}", date, back);
    let dt = DateTime::new(date, c.tod.build());
    ensure!(trip(&dt, "date and time")?.0 == dt, "date", "{:?} comes back changed", dt);
    let df = DateDayFraction::new(date, c.frac);
    ensure!(trip(&df, "date and fraction")?.0 == df, "date", "{:?} comes back changed", df);
    let cal = c.cal.build();
    let (back, _): (RcCalendar, f64) = trip(&cal, "calendar")?;
    obs.tag(c.cal.kind());
    ensure!(back.name() == cal.name(), "calendar", "name {} not {}", back.name(), cal.name());
    ensure!(same_bits(back.standard_basis(), cal.standard_basis()), "calendar", "basis {} not {}", back.standard_basis(), cal.standard_basis());
    for n in &c.at {
        ensure!(back.is_holiday(d(*n)) == cal.is_holiday(d(*n)), "calendar", "holiday on {}", d(*n));
        ensure!(same_bits(back.day_weight(d(*n)), cal.day_weight(d(*n))), "calendar", "weight of {}", d(*n));
        let (x, y) = (back.count_business_days(date, c.frac, d(*n), 0.3), cal.count_business_days(date, c.frac, d(*n), 0.3));
        ensure!(same_bits(x, y), "calendar", "{} business days to {} not {}", x, d(*n), y);
        for (k, f) in [(0, true), (0, false), (3, true), (-3, false)] {
            ensure!(back.step(d(*n), k, f) == cal.step(d(*n), k, f), "calendar", "step {} from {}", k, d(*n));
        }
    }
    let rule = c.rule.build();
    let (back, _): (RcDateRule, f64) = trip(&rule, "rule")?;
    obs.tag(c.rule.kind());
    for n in &c.at {
        ensure!(back.apply(d(*n)) == rule.apply(d(*n)), "rule", "{} goes to {} not {}", d(*n), back.apply(d(*n)), rule.apply(d(*n)));
    }
    obs.nontrivial_if(!c.cal.holiday_set().is_empty() || c.rule.cal().map_or(false, |c| !c.holiday_set().is_empty()));
    Ok(())
}

fn dates_case() -> BoxedStrategy<Dates> {
    (2000i32..70000)
        .prop_flat_map(|n| {
            (Just(n), tod(), dec(0.0, 0.99, 2), any_cal(n, 60), any_rule(n, 60), vec(n - 70..n + 70, 1..12))
                .prop_map(|(n, tod, frac, cal, rule, at)| Dates { n, tod, frac, cal, rule, at })
        })
        .boxed()
}

// -------------------------------------------------------------- market parts

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts {
    curve: Curve,
    divs: Divs,
    vol: Vol,
    points: Vec<(i32, f64)>,
    ends: (Ex, Ex),
    at: Vec<i32>,
}

fn interpolators(c: &Parts, obs: &mut Obs) -> R {
    let (l, r) = (c.ends.0.build(), c.ends.1.build());
    let pd: Vec<(Date, f64)> = c.points.iter().map(|(x, y)| (d(*x), *y)).collect();
    let pf: Vec<(f64, f64)> = c.points.iter().map(|(x, y)| (*x as f64 / 4.0, *y)).collect();
    let ask = |what: &str, a: Result<f64, quantmath::core::qm::Error>, b: Result<f64, quantmath::core::qm::Error>, tol: f64, x: i32| -> R {
        let ok = match (&a, &b) {
            (Ok(a), Ok(b)) => same(*a, *b, tol),
            (Err(a), Err(b)) => a.to_string() == b.to_string(),
            _ => false,
        };
        ensure!(ok, "interpolator", "{} at {} gives {:?} not {:?}", what, x, b.map_err(|e| e.to_string()), a.map_err(|e| e.to_string()));
        Ok(())
    };
    let ld = Linear::new(&pd, l, r)?;
    let lf = Linear::new(&pf, l, r)?;
    let (bd, td) = trip(&ld, "linear over dates")?;
    let (bf, tf) = trip(&lf, "linear over numbers")?;
    for n in &c.at {
        ask("linear over dates", ld.interpolate(d(*n)), bd.interpolate(d(*n)), td, *n)?;
        ask("linear over numbers", lf.interpolate(*n as f64 / 4.0), bf.interpolate(*n as f64 / 4.0), tf, *n)?;
    }
    if c.points.len() > 2 {
        obs.tag("splines");
        let sd = CubicSpline::new(&pd, l, r)?;
        let sf = CubicSpline::new(&pf, l, r)?;
        let (bd, td) = trip(&sd, "spline over dates")?;
        let (bf, tf) = trip(&sf, "spline over numbers")?;
        for n in &c.at {
            ask("spline over dates", sd.interpolate(d(*n)), bd.interpolate(d(*n)), td, *n)?;
            ask("spline over numbers", sf.interpolate(*n as f64 / 4.0), bf.interpolate(*n as f64 / 4.0), tf, *n)?;
        }
        let smile = CubicSplineSmile::new(&pf.iter().map(|(x, y)| (*x, 1.0 + y.abs())).collect::<Vec<_>>())?;
        let (b, t) = trip(&smile, "spline smile")?;
        let k: Vec<f64> = c.at.iter().map(|n| *n as f64 / 4.0).collect();
        let (mut x, mut y) = (vec![0.0; k.len()], vec![0.0; k.len()]);
        smile.volatilities(&k, &mut x)?;
        b.volatilities(&k, &mut y)?;
        for i in 0..k.len() {
            ensure!(same(x[i], y[i], t), "smile", "volatility at {} is {} not {}", k[i], y[i], x[i]);
        }
    }
    Ok(())
}

fn surfaces(a: &dyn VolSurface, b: &dyn VolSurface, at: &[i32], level: f64, tol: f64) -> R {
    ensure!(a.base_date() == b.base_date(), "surface", "base date {:?} not {:?}", b.base_date(), a.base_date());
    ensure!(a.calendar().name() == b.calendar().name(), "surface", "calendar {} not {}", b.calendar().name(), a.calendar().name());
    ensure!(a.div_assumptions() == b.div_assumptions(), "surface", "dividend assumptions {:?} not {:?}", b.div_assumptions(), a.div_assumptions());
    ensure!(a.forward().is_some() == b.forward().is_some(), "surface", "only one has a forward");
    let k = [level * 0.6, level * 0.95, level, level * 1.3];
    for n in at {
        if let (Some(f), Some(g)) = (a.forward(), b.forward()) {
            let (x, y) = (f.interpolate(d(*n)).unwrap_or(f64::NAN), g.interpolate(d(*n)).unwrap_or(f64::NAN));
            ensure!(same(x, y, tol), "surface", "forward to {} is {} not {}", d(*n), y, x);
        }
        let (x, y) = (a.displacement(d(*n)).unwrap_or(f64::NAN), b.displacement(d(*n)).unwrap_or(f64::NAN));
        ensure!(same(x, y, tol), "surface", "displacement on {} is {} not {}", d(*n), y, x);
        for f in [0.0, 0.8] {
            let at = DateDayFraction::new(d(*n), f);
            let (mut x, mut y) = ([0.0; 4], [0.0; 4]);
            match (a.volatilities(at, &k, &mut x), b.volatilities(at, &k, &mut y)) {
                (Ok(s), Ok(t)) => {
                    ensure!(same(s, t, tol), "surface", "volatility time {:?} is {} not {}", at, t, s);
                    for i in 0..4 {
                        ensure!(same(x[i], y[i], tol), "surface", "volatility {:?} strike {} is {} not {}", at, k[i], y[i], x[i]);
                    }
                }
                (Err(_), Err(_)) => {}
                (s, t) => bail!("surface", "volatility {:?} is {:?} not {:?}", at, t.map_err(|e| e.to_string()), s.map_err(|e| e.to_string())),
            }
        }
    }
    Ok(())
}

fn parts(c: &Parts, obs: &mut Obs) -> R {
    interpolators(c, obs)?;
    // curves
    let curve = c.curve.build();
    let (back, tol): (RcRateCurve, f64) = trip(&curve, "curve")?;
    obs.tag(c.curve.kind());
    ensure!(back.base_date() == curve.base_date() && back.is_zero() == curve.is_zero(), "curve", "base {} zero {}", back.base_date(), back.is_zero());
    for n in &c.at {
        match (curve.r_and_t(d(*n)), back.r_and_t(d(*n))) {
            (Ok((r, t)), Ok((s, u))) => ensure!(same(r, s, tol) && same(t, u, tol), "curve", "rate and time on {} are {:?} not {:?}", d(*n), (s, u), (r, t)),
            (Err(_), Err(_)) => {}
            _ => bail!("curve", "only one answers on {}", d(*n)),
        }
    }
    // dividends
    let stream = c.divs.build();
    let (back, tol): (RcDividendStream, f64) = trip(&stream, "dividends")?;
    ensure!(back.dividends().len() == stream.dividends().len(), "dividends", "{} dividends not {}", back.dividends().len(), stream.dividends().len());
    for (x, y) in stream.dividends().iter().zip(back.dividends()) {
        ensure!(x.ex_date() == y.ex_date() && x.pay_date() == y.pay_date() && same(x.cash(), y.cash(), tol) && same(x.relative(), y.relative(), tol), "dividends", "{:?} not {:?}", y, x);
    }
    ensure!(back.last_cash_ex_date() == stream.last_cash_ex_date(), "dividends", "last cash dividend {} not {}", back.last_cash_ex_date(), stream.last_cash_ex_date());
    for n in &c.at {
        let (x, y) = (stream.div_yield().rt(d(*n)).unwrap_or(f64::NAN), back.div_yield().rt(d(*n)).unwrap_or(f64::NAN));
        ensure!(same(x, y, tol), "dividends", "yield on {} is {} not {}", d(*n), y, x);
    }
    // surfaces
    let surface = c.vol.build()?;
    let (back, tol): (RcVolSurface, f64) = trip(&surface, "surface")?;
    obs.tag(c.vol.kind());
    surfaces(&*surface, &*back, &c.at, 100.0, tol)?;
    obs.nontrivial_if(c.curve.bumped() && c.vol.depth() > 0 && !c.divs.divs.is_empty());
    Ok(())
}

/// Surfaces of every readable kind
fn any_vol(n: i32) -> BoxedStrategy<Vol> {
    let leaf = surface(n, 100.0, WILD);
    leaf.prop_recursive(3, 4, 1, move |v| {
        prop_oneof![
            (v.clone(), dec(-0.05, 0.1, 3)).prop_map(|(v, b)| Vol::Parallel(Box::new(v), b)),
            (v.clone(), dec(0.0, 0.1, 3), dec(0.01, 1.0, 2)).prop_map(|(v, b, f)| Vol::TimeScaled(Box::new(v), b, f)),
            (v.clone(), dec(0.0, 0.1, 2), 0i32..10).prop_map(move |(v, o, k)| Vol::ConstantExpiry(Box::new(v), o, (n + k, 0.0))),
            (v.clone(), dec(0.0, 0.1, 2), 0i32..10).prop_map(move |(v, o, k)| Vol::RollingExpiry(Box::new(v), o, (n + k, 0.0))),
        ]
        .boxed()
    })
    .boxed()
}

fn parts_case() -> BoxedStrategy<Parts> {
    (5000i32..60000)
        .prop_flat_map(|n| {
            let ends = (ex(), ex());
            let curve = bumped_curve(prop_oneof![1 => Just(Curve::Zero { base: n }), 4 => pillar_curve(n - 10..n + 10, -0.02, 0.15, (ex(), ex()).boxed())].boxed());
            let points = vec((prop_oneof![1i32..4, 1i32..300], dec(-5.0, 5.0, 3)), 1..7).prop_map(move |v| {
                let mut x = n - 5;
                v.into_iter()
                    .map(|(g, y)| {
                        x += g;
                        (x, y)
                    })
                    .collect::<Vec<_>>()
            });
            (curve, divs(n, 100.0, true), any_vol(n), points, ends, vec(n - 20..n + 1500, 1..6))
        })
        .prop_map(|(curve, divs, vol, points, ends, at)| Parts { curve, divs, vol, points, ends, at })
        .boxed()
}

// ------------------------------------------------------- markets and prices

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    market: Market,
    bumps: Vec<Bp>,
    instr: Instr,
    fixings: FixTable,
    gens: Vec<Gen>,
    at: Vec<i32>,
    when: Vec<Moment>,
    mc: bool,
}

fn inline(text: &str) -> Result<RcInstrument, quantmath::core::qm::Error> {
    instrument_from_json(&mut Cursor::new(text.as_bytes()), DedupControl::Inline, &[], DedupControl::Inline, &[])
}

/// Prices at some moments, then the dependencies, as labelled numbers
fn answers(i: &RcInstrument, md: &MarketData, m: &Market, when: &[Moment], table: &FixTable) -> Result<Vec<(String, f64)>, Fail> {
    let mut out = Vec::new();
    let hash = |s: &str| s.bytes().fold(0u64, |h, b| (h * 131 + b as u64) % 1000003) as f64;
    out.push(("id".to_string(), hash(i.id())));
    out.push(("credit".to_string(), hash(i.credit_id())));
    out.push(("currency".to_string(), hash(i.payoff_currency().id())));
    for w in when {
        out.push((format!("settlement of {}", d(w.0)), i.settlement().apply(d(w.0)).truncated_julian() as f64));
        let p = prices(i, md, &[*w]);
        out.push((format!("price at {:?}", w), p.as_ref().map(|v| v[0]).unwrap_or(f64::NAN)));
    }
    let mut deps = DependencyCollector::new(d(m.date));
    deps.spot(i);
    for j in 0..m.curves.len() {
        out.push((format!("needs curve {}", j), deps.yield_curve_hwm(&credit_id(j)).map_or(0.0, |x| x.truncated_julian() as f64)));
    }
    for j in 0..m.names.len() {
        let mut f: Vec<DateTime> = deps.fixings(&name_id(j)).to_vec();
        f.sort();
        out.push((format!("needs fixings {}", j), hash(&format!("{:?}", f))));
        out.push((format!("needs forward {}", j), deps.forward_curve_hwm(&m.equity(j)).map_or(0.0, |x| x.truncated_julian() as f64)));
        out.push((format!("needs vol {}", j), deps.vol_surface_hwm(&m.equity(j)).map_or(0.0, |x| x.truncated_julian() as f64)));
    }
    match i.fix(&table.build()?) {
        Ok(None) => out.push(("fixing".to_string(), 0.0)),
        Err(_) => out.push(("fixing".to_string(), f64::NAN)),
        Ok(Some(parts)) => {
            for (w, p) in parts {
                out.push(("weight of part".to_string(), w));
                out.push(("id of part".to_string(), hash(p.id())));
                out.push(("price of part".to_string(), prices(&p, md, &[(m.date, Tod::Open)]).map(|v| v[0]).unwrap_or(f64::NAN)));
            }
        }
    }
    Ok(out)
}

fn whole(c: &Whole, obs: &mut Obs) -> R {
    // the market, bumped
    let mut md = c.market.build()?;
    for b in &c.bumps {
        md.bump(&b.build(), None)?;
        obs.tag(b.kind());
    }
    let rc = RcMarketData::new(Arc::new(md.clone()));
    let (md2, tol) = trip(&rc, "market")?;
    let all: Vec<usize> = (0..c.market.names.len()).collect();
    if let Some(e) = differs(&probe(&md, &c.market, &all, &c.at), &probe(&*md2, &c.market, &all, &c.at), tol) {
        bail!("market", "the market read back says {}", e);
    }
    // the same through the loading function
    let text = serde_json::to_string(&rc)?;
    let md3 = market_data_from_json(&mut Cursor::new(text.as_bytes()))?;
    if let Some(e) = differs(&probe(&md, &c.market, &all, &c.at), &probe(&*md3, &c.market, &all, &c.at), tol) {
        bail!("market", "the market loaded says {}", e);
    }
    obs.tag_if(tol > 0.0, "long numbers");

    // the currency and the instrument
    let ccy = c.market.currency();
    let (ccy2, _): (RcCurrency, f64) = trip(&ccy, "currency")?;
    ensure!(ccy2.id() == ccy.id(), "currency", "currency {} not {}", ccy2.id(), ccy.id());
    let i = c.instr.build(&c.market)?;
    obs.tag(c.instr.kind());
    let (i2, itol) = trip(&i, "instrument")?;
    let i3 = inline(&serde_json::to_string(&i)?)?;
    let want = answers(&i, &md, &c.market, &c.when, &c.fixings)?;
    for (how, j) in [("read back", &i2), ("loaded", &i3)] {
        if let Some(e) = differs(&want, &answers(j, &md, &c.market, &c.when, &c.fixings)?, itol) {
            bail!("instrument", "the instrument {} says {}", how, e);
        }
    }
    // what it turns into once fixed
    if let Ok(Some(parts)) = i.fix(&c.fixings.build()?) {
        obs.tag("fixed parts");
        for (_, p) in &parts {
            let (q, t) = trip(p, "fixed part")?;
            if let Some(e) = differs(&answers(p, &md, &c.market, &c.when, &c.fixings)?, &answers(&q, &md, &c.market, &c.when, &c.fixings)?, t) {
                bail!("part", "the fixed part read back says {}", e);
            }
        }
    }

    // fixings
    let t = c.fixings.rc()?;
    let (t2, ttol) = trip(&t, "fixings")?;
    let t3 = fixing_table_from_json(&mut Cursor::new(serde_json::to_string(&t)?.as_bytes()))?;
    for (how, u) in [("read back", &t2), ("loaded", &t3)] {
        ensure!(u.fixings_known_until() == t.fixings_known_until(), "fixings", "{}: known until {} not {}", how, u.fixings_known_until(), t.fixings_known_until());
        let mut moments: Vec<(usize, Moment)> = c.fixings.list.iter().map(|x| (x.0, x.1)).collect();
        moments.extend(c.when.iter().map(|w| (0, *w)));
        for (n, at) in moments {
            let (x, y) = (t.get(&name_id(n), moment(at)), u.get(&name_id(n), moment(at)));
            let ok = match (&x, &y) {
                (Ok(Some(x)), Ok(Some(y))) => same(*x, *y, ttol),
                (Ok(x), Ok(y)) => x == y,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            ensure!(ok, "fixings", "{}: fixing of {} at {:?} is {:?} not {:?}", how, n, at, y.map_err(|e| e.to_string()), x.map_err(|e| e.to_string()));
        }
    }

    // the whole calculation, from originals and from copies
    let none = FixTable::none(c.market.date).rc()?;
    let factory: RcPricerFactory = if c.mc {
        RcPricerFactory::new(Arc::new(MonteCarloPricerFactory::new(RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(1, 0.05, 20))))))
    } else {
        RcPricerFactory::new(Arc::new(SelfPricerFactory::new()))
    };
    let (factory2, _) = trip(&factory, "pricer factory")?;
    pricer_factory_from_json(&mut Cursor::new(serde_json::to_string(&factory)?.as_bytes()))?;
    let gens: Vec<RcReportGenerator> = c.gens.iter().map(|g| g.build()).collect();
    let mut gens2 = Vec::new();
    for (k, g) in gens.iter().enumerate() {
        let x: RcReportGenerator = trip(g, "generator")?.0;
        gens2.push(if k % 2 == 0 { x } else { report_generator_from_json(&mut Cursor::new(serde_json::to_string(g)?.as_bytes()))? });
    }
    if c.mc {
        obs.tag("simulated");
        return Ok(());
    }
    let a = calculate(factory, i.clone(), none.clone(), rc.clone(), &gens);
    // with the original where long numbers would differ
    let i2 = if itol == 0.0 { i2 } else { i.clone() };
    let md4 = if tol == 0.0 { md2 } else { rc };
    let b = calculate(factory2, i2, none, md4, &gens2);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            obs.tag_if(!a.is_empty(), "reports");
            let list = |r: &[BoxReport]| {
                let mut out = Vec::new();
                for x in r {
                    Rep::of(x).numbers("", &mut out);
                }
                out
            };
            if let Some(e) = differs(&list(&a), &list(&b), 0.0) {
                bail!("report", "from what was read back, {}", e);
            }
            let finite = list(&a).iter().all(|x| x.1.is_finite());
            if finite {
                let mut text = Vec::new();
                write_results(&a, c.at[0] % 2 == 0, &mut text)?;
                let back = reports_from_json(&mut Cursor::new(&text))?;
                if let Some(e) = differs(&list(&a), &list(&back), 1e-15) {
                    bail!("report", "the reports read back say {}", e);
                }
                if let Some(e) = other(&serde_json::to_value(&a)?, &serde_json::to_value(&back)?, "reports") {
                    bail!("report", "the reports written again: {}", e);
                }
            }
        }
        (Err(_), Err(_)) => obs.tag("not calculable"),
        (a, b) => bail!("report", "only one of the calculations works: {:?} {:?}", a.err().map(|e| e.to_string()), b.err().map(|e| e.to_string())),
    }
    obs.nontrivial_if(c.instr.depth() > 0 || !c.bumps.is_empty());
    Ok(())
}

fn whole_case() -> BoxedStrategy<Whole> {
    market(WILD)
        .prop_flat_map(|m| (Just(m.clone()), instrument(&m), vec(bump(m.names.len(), m.curves.len()), 0..5)))
        .prop_flat_map(|(m, i, bumps)| {
            let n = m.date;
            let dates: Vec<i32> = i.options().iter().map(|o| o.expiry.0).collect();
            (Just((m.clone(), bumps, i.clone())), fixings_for(&i, &m), vec(generator(n, &dates), 0..3), vec(n..n + 900, 1..5), vec((n..n + 400, tod()), 1..4), prop::bool::weighted(0.1))
        })
        .prop_map(|((market, bumps, instr), fixings, gens, at, when, mc)| Whole { market, bumps, instr, fixings, gens, at, when, mc })
        .boxed()
}

fn main() {
    let _ = Qrc::<dyn PricerFactory>::new(Arc::new(SelfPricerFactory::new()));
    Check::new("C07")
        .assume("numbers written with more than 15 digits may change in the last digit when read, which is a limit of the JSON reader the library is built with; answers that depend on such numbers are compared to 1e-11")
        .assume("holiday lists are in order without repeats or weekends, as the calendar demands")
        .assume("the sticky-delta decorator cannot be read and is left out")
        .sub("dates", 220000, 4500000, "a calendar with holidays", dates_case, dates)
        .sub("parts", 52000, 1000000, "a bumped curve, a decorated surface and some dividends", parts_case, parts)
        .sub("whole", 11000, 230000, "a basket or a bumped market", whole_case, whole)
        .main()
}
