//! C29: declared dependencies suffice to price and drive every risk.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::factories::{Qrc, TypeId};
use quantmath::core::qm;
use quantmath::data::curves::*;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::*;
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::instruments::*;
use quantmath::math::interpolation::Interpolate;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::MarketData;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use vh::*;

const PAY: &str = "underlying-curve-asked-to-pay-date";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    fixings: FixTable,
    bumps: Vec<Bp>,
    tod: Tod,
}

// ------------------------------------------------- a market that writes down

#[derive(Clone, Debug, PartialEq)]
enum Ask {
    Spot(String),
    Yield(String, Date),
    Forward(String, Date),
    Vol(String, Date),
}

type Log = Arc<Mutex<Vec<Ask>>>;

struct Recorder<'a> {
    inner: &'a dyn PricingContext,
    log: Log,
}

macro_rules! opaque {
    ($t:ident) => {
        impl Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_unit()
            }
        }
        impl TypeId for $t {
            fn get_type_id(&self) -> &'static str {
                "Recorded"
            }
        }
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("Recorded")
            }
        }
    };
}

struct RecCurve {
    inner: RcRateCurve,
    id: String,
    log: Log,
}
opaque!(RecCurve);
impl RateCurve for RecCurve {
    fn base_date(&self) -> Date {
        self.inner.base_date()
    }
    fn is_zero(&self) -> bool {
        self.inner.is_zero()
    }
    fn r_and_t(&self, date: Date) -> Result<(f64, f64), qm::Error> {
        self.log.lock().unwrap().push(Ask::Yield(self.id.clone(), date));
        self.inner.r_and_t(date)
    }
}

struct RecForward {
    inner: Arc<dyn Forward>,
    id: String,
    log: Log,
}
impl Forward for RecForward {
    fn as_interp(&self) -> &dyn Interpolate<Date> {
        self
    }
    fn forward(&self, date: Date) -> Result<f64, qm::Error> {
        self.log.lock().unwrap().push(Ask::Forward(self.id.clone(), date));
        self.inner.forward(date)
    }
    fn fixed_divs_after(&self, date: Date) -> Result<f64, qm::Error> {
        self.log.lock().unwrap().push(Ask::Forward(self.id.clone(), date));
        self.inner.fixed_divs_after(date)
    }
}

struct RecVol {
    inner: RcVolSurface,
    id: String,
    log: Log,
}
opaque!(RecVol);
impl RecVol {
    fn ask(&self, date: Date) {
        self.log.lock().unwrap().push(Ask::Vol(self.id.clone(), date));
    }
}
impl VolSurface for RecVol {
    fn volatilities(&self, at: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<f64, qm::Error> {
        self.ask(at.date());
        self.inner.volatilities(at, strikes, out)
    }
    fn calendar(&self) -> &RcCalendar {
        self.inner.calendar()
    }
    fn base_date(&self) -> DateDayFraction {
        self.inner.base_date()
    }
    fn forward(&self) -> Option<&dyn Interpolate<Date>> {
        self.inner.forward()
    }
    fn vol_time(&self, at: DateDayFraction) -> Result<f64, qm::Error> {
        self.ask(at.date());
        self.inner.vol_time(at)
    }
    fn variances(&self, at: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<(), qm::Error> {
        self.ask(at.date());
        self.inner.variances(at, strikes, out)
    }
    fn variance(&self, at: DateDayFraction, strike: f64) -> Result<f64, qm::Error> {
        self.ask(at.date());
        self.inner.variance(at, strike)
    }
    fn forward_variances(&self, from: DateDayFraction, to: DateDayFraction, strikes: &[f64], out: &mut [f64]) -> Result<(), qm::Error> {
        self.ask(to.date());
        self.inner.forward_variances(from, to, strikes, out)
    }
    fn forward_variance(&self, from: DateDayFraction, to: DateDayFraction, strike: f64) -> Result<f64, qm::Error> {
        self.ask(to.date());
        self.inner.forward_variance(from, to, strike)
    }
    fn div_assumptions(&self) -> DivAssumptions {
        self.inner.div_assumptions()
    }
    fn displacement(&self, date: Date) -> Result<f64, qm::Error> {
        self.ask(date);
        self.inner.displacement(date)
    }
}

impl<'a> Recorder<'a> {
    fn ask(&self, a: Ask) {
        self.log.lock().unwrap().push(a);
    }
}

impl<'a> PricingContext for Recorder<'a> {
    fn spot_date(&self) -> Date {
        self.inner.spot_date()
    }
    fn yield_curve(&self, id: &str, hwm: Date) -> Result<RcRateCurve, qm::Error> {
        self.ask(Ask::Yield(id.to_string(), hwm));
        let inner = self.inner.yield_curve(id, hwm)?;
        Ok(Qrc::new(Arc::new(RecCurve { inner, id: id.to_string(), log: self.log.clone() })))
    }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> {
        self.ask(Ask::Spot(id.to_string()));
        self.inner.spot(id)
    }
    fn forward_curve(&self, i: &dyn Instrument, hwm: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        self.ask(Ask::Forward(i.id().to_string(), hwm));
        let inner = self.inner.forward_curve(i, hwm)?;
        Ok(Arc::new(RecForward { inner, id: i.id().to_string(), log: self.log.clone() }))
    }
    fn vol_surface(&self, i: &dyn Instrument, hwm: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        self.ask(Ask::Vol(i.id().to_string(), hwm));
        let inner = self.inner.vol_surface(i, hwm, f)?;
        Ok(Qrc::new(Arc::new(RecVol { inner, id: i.id().to_string(), log: self.log.clone() })))
    }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> {
        self.inner.correlation(a, b)
    }
}

// -------------------------------------------------------------------- checks

fn declared(i: &RcInstrument, date: i32) -> DependencyCollector {
    let mut c = DependencyCollector::new(d(date));
    c.spot(i);
    c
}

/// The market with nothing but what is declared
fn trimmed(m: &Market, dep: &DependencyCollector) -> Result<(MarketData, usize), qm::Error> {
    let (mut spots, mut borrow, mut divs, mut vols, mut yields) = m.parts()?;
    let before = spots.len() + borrow.len() + vols.len() + yields.len();
    let equities: HashMap<String, RcInstrument> = (0..m.names.len()).map(|n| (name_id(n), m.equity(n))).collect();
    spots.retain(|k, _| dep.has_spot(&equities[k]));
    borrow.retain(|k, _| dep.forward_curve_hwm(&equities[k]).is_some());
    divs.retain(|k, _| dep.forward_curve_hwm(&equities[k]).is_some());
    vols.retain(|k, _| dep.vol_surface_hwm(&equities[k]).is_some());
    yields.retain(|k, _| dep.yield_curve_hwm(k).is_some());
    let dropped = before - spots.len() - borrow.len() - vols.len() - yields.len();
    Ok((MarketData::new(d(m.date), spots, yields, borrow, divs, vols), dropped))
}

fn check(c: &Case, obs: &mut Obs) -> R {
    let m = &c.market;
    let i = c.instr.build(m)?;
    let dep = declared(&i, m.date);
    let full = m.build()?;
    let at = [(m.date, c.tod)];
    let price = match prices(&i, &full, &at) {
        Ok(v) => v[0],
        Err(_) => {
            obs.tag("not priceable");
            return Ok(());
        }
    };
    // nothing is asked for that was not declared
    let log: Log = Default::default();
    let rec = Recorder { inner: &full, log: log.clone() };
    let again = prices(&i, &rec, &at)?[0];
    ensure!(same_bits(again, price), "recorded", "{} from a recording market and {} from a plain one", again, price);
    let asks = log.lock().unwrap().clone();
    let equity = |id: &str| (0..m.names.len()).find(|n| name_id(*n) == id).map(|n| m.equity(n));
    for a in &asks {
        let hwm = match a {
            Ask::Spot(id) => {
                let ok = equity(id).map_or(false, |e| dep.has_spot(&e));
                ensure!(ok, "spot", "the spot of {} is asked for and not declared", id);
                continue;
            }
            Ask::Yield(id, _) => dep.yield_curve_hwm(id),
            Ask::Forward(id, _) => equity(id).and_then(|e| dep.forward_curve_hwm(&e)),
            Ask::Vol(id, _) => equity(id).and_then(|e| dep.vol_surface_hwm(&e)),
        };
        match (a, hwm) {
            (_, None) => bail!("undeclared", "{:?} is asked for and not declared", a),
            (Ask::Yield(id, date), Some(h)) if *date > h => {
                // options discount on their underlying's curve from the payment date
                let pays = c.instr.options().iter().any(|o| credit_id(m.names[o.under].credit) == *id && d(o.pay()) >= *date);
                let own = c.instr.options().iter().any(|o| credit_id(o.credit) == *id && d(o.pay()) >= *date);
                ensure!(pays && !own, "yield-late", "{:?} is asked for though declared only up to {}", a, h);
                obs.finding(PAY, format!("{:?} is asked for though declared only up to {}", a, h))?;
            }
            (Ask::Forward(_, date), Some(h)) => ensure!(*date <= h, "forward-late", "{:?} is asked for though declared only up to {}", a, h),
            (Ask::Vol(_, date), Some(h)) => ensure!(*date <= h, "vol-late", "{:?} is asked for though declared only up to {}", a, h),
            _ => (),
        }
    }
    obs.count("asks", asks.len() as u64);
    // nothing else is needed, directly or by a pricer
    let (trim, dropped) = trimmed(m, &dep)?;
    match prices(&i, &trim, &at) {
        Ok(v) => ensure!(same_bits(v[0], price), "trimmed", "{} from a market with nothing undeclared in it, {} otherwise", v[0], price),
        Err(e) => bail!("trimmed", "cannot be priced on a market with nothing undeclared in it: {}", e),
    }
    // every input that moves the price is declared
    let mut moving = 0;
    for b in &c.bumps {
        let mut m2 = m.clone();
        if !b.apply(&mut m2) {
            continue;
        }
        let then = match m2.build().and_then(|x| prices(&i, &x, &at)) {
            Ok(v) => v[0],
            Err(_) => {
                obs.tag("bump refused");
                continue;
            }
        };
        if same_bits(then, price) {
            continue;
        }
        moving += 1;
        obs.tag(&format!("moved by {}", b.kind()));
        let ok = match *b {
            Bp::Spot(n, _) | Bp::SetSpot(n, _) => dep.has_spot(&m.equity(n)) && dep.instrument_by_id(&name_id(n)).is_some(),
            Bp::Divs(n, _) | Bp::Borrow(n, ..) => dep.forward_curve_hwm(&m.equity(n)).is_some() && dep.instrument_by_id(&name_id(n)).is_some(),
            Bp::Vol(n, _) | Bp::VolTime(n, ..) | Bp::SetVol(n, _) => dep.vol_surface_hwm(&m.equity(n)).is_some() && dep.instrument_by_id(&name_id(n)).is_some(),
            Bp::Yield(k, ..) => dep.yield_curve_hwm(&credit_id(k)).is_some(),
        };
        ensure!(ok, "moves", "{:?} moves the price from {} to {} but is not declared", b, price, then);
        // a yield that moves a forward leads to it
        if let Bp::Yield(k, ..) = *b {
            for n in c.instr.options().iter().map(|o| o.under).filter(|n| m.names[*n].credit == k) {
                ensure!(dep.forward_id_by_credit_id(&credit_id(k)).contains(&name_id(n)), "forward-of-credit", "{} does not lead to the forward of {}", credit_id(k), name_id(n));
            }
        }
    }
    obs.nontrivial_if(moving > 0 && !asks.is_empty());
    obs.tag_if(dropped > 0, "undeclared inputs dropped");
    obs.tag_if(c.instr.depth() > 0, "basket");
    Ok(())
}

/// Fixings: only those declared matter
fn fixings(c: &Case, obs: &mut Obs) -> R {
    let m = &c.market;
    let i = c.instr.build(m)?;
    let dep = declared(&i, m.date);
    let known = |n: usize, at: Moment| dep.fixings(&name_id(n)).contains(&moment(at));
    let mut only = c.fixings.clone();
    only.list.retain(|f| known(f.0, f.1));
    let show = |t: &FixTable| -> Result<Result<String, ()>, Fail> { Ok(i.fix(&t.build()?).map(|x| format!("{:?}", x)).map_err(|_| ())) };
    let a = show(&c.fixings)?;
    let b = show(&only)?;
    ensure!(a == b, "fixings", "with the declared fixings only {:?}, with all {:?}", b, a);
    // and anything else is harmless
    let mut more = only.clone();
    for n in 0..m.names.len() {
        for at in [(m.date, Tod::Open), (m.date + 1, Tod::Close), (c.fixings.until - 1, Tod::EDSP)] {
            if !known(n, at) && !more.list.iter().any(|f| f.0 == n && f.1 == at) {
                more.list.push((n, at, 77.0));
            }
        }
    }
    ensure!(show(&more)? == b, "fixings", "undeclared fixings change the outcome");
    obs.nontrivial_if(a.as_ref().map_or(true, |s| s != "None"));
    obs.tag_if(a.is_err(), "fixing missing");
    obs.tag_if(only.list.len() < c.fixings.list.len(), "undeclared fixings dropped");
    // a fixing that is missing and matters is declared: drop each in turn
    for k in 0..c.fixings.list.len() {
        let mut t = c.fixings.clone();
        let f = t.list.remove(k);
        if show(&t)? != a {
            ensure!(known(f.0, f.1), "fixing-undeclared", "the fixing of {} at {:?} matters but is not declared", name_id(f.0), f.1);
            obs.count("fixings that matter", 1);
        }
    }
    Ok(())
}

fn each_bump(m: &Market) -> BoxedStrategy<Vec<Bp>> {
    let (n, k) = (m.names.len(), m.curves.len());
    (vec(bump(n, k), 0..4), dec(0.005, 0.1, 3))
        .prop_map(move |(mut v, x)| {
            for i in 0..n {
                v.extend([Bp::Spot(i, x), Bp::Divs(i, x), Bp::Borrow(i, false, x / 10.0), Bp::Vol(i, x)]);
            }
            v.extend((0..k).map(|i| Bp::Yield(i, false, x / 10.0)));
            v
        })
        .boxed()
}

/// The instrument with no bond that pays before a buyer of it would settle
fn payable(i: Instr, date: i32) -> Instr {
    match i {
        Instr::Zero { credit, ex, pay, settle } => Instr::Zero { credit, ex, pay: pay.max(settle.apply(date)), settle },
        Instr::Basket { credit, settle, parts } => Instr::Basket { credit, settle, parts: parts.into_iter().map(|(w, i)| (w, payable(i, date))).collect() },
        i => i,
    }
}

fn cases(with_bumps: bool) -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let i = prop_oneof![2 => instrument(&m), 1 => option(&m, true).prop_map(Instr::Opt)];
            let n = m.date;
            (Just(m), i.prop_map(move |i| payable(i, n)))
        })
        .prop_flat_map(move |(m, i)| {
            let b = if with_bumps { each_bump(&m) } else { Just(vec![]).boxed() };
            let t = if with_bumps { Just(FixTable::none(m.date)).boxed() } else { fixings_for(&i, &m) };
            (Just(m), Just(i), t, b, tod())
        })
        .prop_map(|(market, instr, fixings, bumps, tod)| Case { market, instr, fixings, bumps, tod })
        .boxed()
}

fn main() {
    Check::new("C29")
        .assume("underlyings of options are single names; valuation is on the spot date; bonds pay no earlier than they settle; a high water mark covers direct requests, not what a supplier of forwards needs for them")
        .sub("inputs", 100000, 2000000, "something is asked of the market and some change of it moves the price", || cases(true), check)
        .sub("fixings", 200000, 4100000, "some fixing matters", || cases(false), fixings)
        .main()
}
