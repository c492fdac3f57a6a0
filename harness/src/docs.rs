//! JSON documents of every kind the library loads, and ways to spoil them.
use crate::frame::*;
use crate::market::*;
use crate::portfolio::*;
use crate::reports::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::facade::*;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Market,
    Instrument,
    Currency,
    Fixings,
    Factory,
    Generator,
    Reports,
}
pub const KINDS: [Kind; 7] = [Kind::Market, Kind::Instrument, Kind::Currency, Kind::Fixings, Kind::Factory, Kind::Generator, Kind::Reports];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Market => "market",
            Kind::Instrument => "instrument",
            Kind::Currency => "currency",
            Kind::Fixings => "fixings",
            Kind::Factory => "pricer factory",
            Kind::Generator => "report generator",
            Kind::Reports => "reports",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Junk {
    Int(i64),
    Num(Bits),
    Text(String),
    Date(i32, i32, i32),
    Null,
    Bool(bool),
    Empty,
    List(Vec<i8>),
    Deep(u16),
}

impl Junk {
    pub fn value(&self) -> Value {
        match self {
            Junk::Int(i) => json!(i),
            Junk::Num(b) => json!(b.get()),
            Junk::Text(s) => json!(s),
            Junk::Date(y, m, d) => json!(format!("{:04}-{:02}-{:02}", y, m, d)),
            Junk::Null => Value::Null,
            Junk::Bool(b) => json!(b),
            Junk::Empty => json!({}),
            Junk::List(v) => json!(v),
            Junk::Deep(n) => (0..*n).fold(json!(1), |v, _| json!([v])),
        }
    }
}

/// One change to a document; positions are taken modulo what there is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Replace(usize, Junk),
    /// a number elsewhere in its range
    Scale(usize, f64),
    Remove(usize),
    Copy(usize, usize),
    /// something else of the same sort
    Like(usize, usize),
    Rename(usize, String),
    Twice(usize),
    Drop(usize),
}

/// Every place in a document, depth first
pub fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
pub fn find<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    match path.split_first() {
        None => v,
        Some((h, t)) => match v {
            Value::Array(a) => find(&mut a[h.parse::<usize>().unwrap()], t),
            Value::Object(o) => find(o.get_mut(h).unwrap(), t),
            _ => unreachable!(),
        },
    }
}

pub fn change(v: &mut Value, e: &Edit) {
    let mut all = Vec::new();
    places(v, &mut Vec::new(), &mut all);
    let pick = |i: usize| all[i % all.len()].clone();
    match e {
        Edit::Replace(i, j) => *find(v, &pick(*i)) = j.value(),
        Edit::Scale(i, f) => {
            let numbers: Vec<_> = all.iter().filter(|p| find(v, p).is_number()).cloned().collect();
            if !numbers.is_empty() {
                let at = find(v, &numbers[i % numbers.len()]);
                *at = if at.is_f64() { json!(at.as_f64().unwrap() * f) } else { json!((at.as_f64().unwrap() * f) as i64) };
            }
        }
        Edit::Remove(i) => {
            let p = pick(*i);
            if let Some((last, up)) = p.split_last() {
                match find(v, up) {
                    Value::Array(a) => {
                        a.remove(last.parse().unwrap());
                    }
                    Value::Object(o) => {
                        o.remove(last);
                    }
                    _ => {}
                }
            }
        }
        Edit::Copy(i, j) => {
            let x = find(v, &pick(*i)).clone();
            *find(v, &pick(*j)) = x;
        }
        Edit::Like(i, j) => {
            let p = pick(*i);
            let sort = |v: &Value| match v {
                Value::Number(n) => if n.is_f64() { 1 } else { 2 },
                Value::String(s) => if s.len() == 10 && s.matches('-').count() == 2 { 3 } else { 4 },
                Value::Array(_) => 5,
                Value::Object(_) => 6,
                _ => 7,
            };
            let mine = sort(find(v, &p));
            let others: Vec<_> = all.iter().filter(|q| sort(find(v, q)) == mine).cloned().collect();
            let x = find(v, &others[j % others.len()]).clone();
            *find(v, &p) = x;
        }
        Edit::Rename(i, s) => {
            let p = pick(*i);
            if let Some((last, up)) = p.split_last() {
                if let Value::Object(o) = find(v, up) {
                    if let Some(x) = o.remove(last) {
                        o.insert(s.clone(), x);
                    }
                }
            }
        }
        Edit::Twice(i) | Edit::Drop(i) => {
            let lists: Vec<_> = all.iter().filter(|p| find(v, p).is_array()).cloned().collect();
            if !lists.is_empty() {
                if let Value::Array(a) = find(v, &lists[i % lists.len()]) {
                    if let Edit::Drop(_) = e {
                        a.clear();
                    } else if let Some(x) = a.last().cloned() {
                        a.push(x);
                    }
                }
            }
        }
    }
}

/// Changes to the bytes of a text
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cut {
    Truncate(usize),
    Set(usize, u8),
    Insert(usize, Vec<u8>),
    Delete(usize, usize),
}

pub fn cut(t: &mut Vec<u8>, c: &Cut) {
    let n = t.len();
    if n == 0 {
        return;
    }
    match c {
        Cut::Truncate(i) => t.truncate(i % n),
        Cut::Set(i, b) => t[i % n] = *b,
        Cut::Insert(i, b) => {
            let i = i % n;
            t.splice(i..i, b.iter().cloned());
        }
        Cut::Delete(i, k) => {
            let i = i % n;
            t.drain(i..(i + k).min(n));
        }
    }
}

/// A valid set of inputs
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Valid {
    pub market: Market,
    pub instr: Instr,
    pub fixings: FixTable,
    pub gens: Vec<Gen>,
    pub mc: bool,
}

pub fn factory(mc: bool) -> RcPricerFactory {
    if mc {
        RcPricerFactory::new(Arc::new(MonteCarloPricerFactory::new(RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(1, 0.05, 10))))))
    } else {
        RcPricerFactory::new(Arc::new(SelfPricerFactory::new()))
    }
}

pub fn reports(v: &Valid) -> Result<Vec<BoxReport>, Fail> {
    let none = FixTable::none(v.market.date).rc()?;
    let gens: Vec<RcReportGenerator> = v.gens.iter().map(|g| g.build()).collect();
    Ok(calculate(factory(false), v.instr.build(&v.market)?, none, RcMarketData::new(Arc::new(v.market.build()?)), &gens).unwrap_or(Vec::new()))
}

pub fn document(v: &Valid, k: Kind) -> Result<Value, Fail> {
    Ok(match k {
        Kind::Market => serde_json::to_value(v.market.build()?)?,
        Kind::Instrument => serde_json::to_value(v.instr.build(&v.market)?)?,
        Kind::Currency => serde_json::to_value(v.market.currency())?,
        Kind::Fixings => serde_json::to_value(v.fixings.rc()?)?,
        Kind::Factory => serde_json::to_value(factory(v.mc))?,
        Kind::Generator => match v.gens.first() {
            Some(g) => serde_json::to_value(g.build())?,
            None => json!({"DeltaGammaReportGenerator": {"bumpsize": 0.01}}),
        },
        Kind::Reports => serde_json::to_value(reports(v)?)?,
    })
}

pub fn valid() -> BoxedStrategy<Valid> {
    market(WILD)
        .prop_flat_map(|m| (Just(m.clone()), instrument(&m)))
        .prop_flat_map(|(m, i)| {
            let dates: Vec<i32> = i.options().iter().map(|o| o.expiry.0).collect();
            let mc = if let Instr::Opt(_) = i { prop::bool::weighted(0.3).boxed() } else { Just(false).boxed() };
            (Just((m.clone(), i.clone())), fixings_for(&i, &m), vec(generator(m.date, &dates), 0..3), mc)
        })
        .prop_map(|((mut market, instr), fixings, gens, mc)| {
            // extrapolated smiles can be beyond any simulation
            for n in market.names.iter_mut().filter(|n| mc && !matches!(n.vol, Vol::Flat { .. })) {
                n.vol = Vol::Flat { vol: 0.25, cal: n.vol.cal().clone(), base: n.vol.base() };
            }
            (market, instr, fixings, gens, mc)
        })
        .prop_map(|(market, instr, fixings, gens, mc)| Valid { market, instr, fixings, gens, mc })
        .boxed()
}

pub fn junk() -> BoxedStrategy<Junk> {
    prop_oneof![
        2 => prop_oneof![Just(0i64), Just(1), Just(-1), Just(1000000), Just(i32::MAX as i64), Just(i32::MIN as i64), Just(i64::MAX), any::<i64>(), -10i64..100].prop_map(Junk::Int),
        2 => prop_oneof![Just(0.0), Just(-0.0), Just(1e308), Just(-1e308), Just(1e-308), any::<f64>(), -10.0..10.0].prop_map(|x| Junk::Num(bits(if x.is_finite() { x } else { 0.5 }))),
        1 => prop_oneof!["[a-zA-Z0-9]{0,6}", "\\PC{0,8}", Just("USD".to_string()), Just("EQ0".to_string()), Just("CR1".to_string())].prop_map(Junk::Text),
        2 => (prop_oneof![Just(0), 1960i32..2180, 1990i32..2060, 1990i32..2060], 0i32..15, 0i32..34).prop_map(|(y, m, d)| Junk::Date(y, m, d)),
        1 => Just(Junk::Null),
        1 => any::<bool>().prop_map(Junk::Bool),
        1 => Just(Junk::Empty),
        1 => vec(any::<i8>(), 0..4).prop_map(Junk::List),
        1 => prop_oneof![Just(100u16), Just(130), Just(300)].prop_map(Junk::Deep),
    ]
    .boxed()
}

pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        4 => (any::<usize>(), junk()).prop_map(|(i, j)| Edit::Replace(i, j)),
        2 => (any::<usize>(), prop_oneof![Just(0.0), Just(-1.0), Just(1e6), Just(1e-6), dec(-10.0, 10.0, 1)]).prop_map(|(i, f)| Edit::Scale(i, f)),
        2 => any::<usize>().prop_map(Edit::Remove),
        3 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Edit::Copy(i, j)),
        1 => (any::<usize>(), prop_oneof!["[a-z]{1,5}", Just("id".to_string()), Just("EveryDayCalendar".to_string())]).prop_map(|(i, s)| Edit::Rename(i, s)),
        1 => any::<usize>().prop_map(Edit::Twice),
        1 => any::<usize>().prop_map(Edit::Drop),
    ]
    .boxed()
}

/// Changes that give values somebody might enter by mistake. (Wilder ones are for the loaders:
/// a simulation of volatilities in the thousands, say, may run out of memory.)
pub fn mistake(mc: bool) -> BoxedStrategy<Edit> {
    let most = if mc { 3.0 } else { 100.0 };
    let junk = prop_oneof![
        3 => prop_oneof![Just(0i64), Just(1), Just(-1), -10i64..400].prop_map(Junk::Int),
        5 => prop_oneof![Just(0.0), Just(1.0), dec(-3.0, 3.0, 2)].prop_map(|x| Junk::Num(bits(x))),
        1 => prop_oneof![Just("".to_string()), Just("USD".to_string()), Just("EQ0".to_string()), Just("CR1".to_string())].prop_map(Junk::Text),
        3 => (1990i32..2100, 1i32..13, 1i32..29).prop_map(|(y, m, d)| Junk::Date(y, m, d)),
        1 => prop_oneof![Just(Junk::Null), Just(Junk::Empty), Just(Junk::Bool(true)), Just(Junk::Bool(false)), Just(Junk::List(Vec::new()))],
    ];
    prop_oneof![
        3 => (any::<usize>(), junk).prop_map(|(i, j)| Edit::Replace(i, j)),
        6 => (any::<usize>(), prop_oneof![Just(0.0), Just(-1.0), Just(most), Just(1.0 / most), dec(-3.0, 3.0, 1)]).prop_map(|(i, f)| Edit::Scale(i, f)),
        1 => any::<usize>().prop_map(Edit::Remove),
        4 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Edit::Copy(i, j)),
        2 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Edit::Like(i, j)),
        1 => any::<usize>().prop_map(Edit::Twice),
        1 => any::<usize>().prop_map(Edit::Drop),
    ]
    .boxed()
}

pub fn cuts() -> BoxedStrategy<Cut> {
    prop_oneof![
        any::<usize>().prop_map(Cut::Truncate),
        (any::<usize>(), any::<u8>()).prop_map(|(i, b)| Cut::Set(i, b)),
        (any::<usize>(), prop_oneof![vec(any::<u8>(), 1..4), Just(b"1e999".to_vec()), Just(b"\"".to_vec()), Just(b"{".to_vec()), Just(b"\\u0000".to_vec()), Just(vec![b'['; 5000])]).prop_map(|(i, b)| Cut::Insert(i, b)),
        (any::<usize>(), 1usize..20).prop_map(|(i, k)| Cut::Delete(i, k)),
    ]
    .boxed()
}

