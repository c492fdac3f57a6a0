//! Whole markets, instruments and bumps as plain values: generators, the library objects
//! built from them, and an independent reference for their worth.

use crate::market::*;
use crate::numeric::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::fixings::*;
use quantmath::dates::datetime::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::risk::marketdata::MarketData;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::ops::Deref;
use std::sync::Arc;

/// A date and a time of day
pub type Moment = (i32, Tod);

pub fn moment(m: Moment) -> DateTime {
    DateTime::new(d(m.0), m.1.build())
}
/// Where a time of day lies within the day, for an equity
pub fn fraction(t: Tod) -> f64 {
    match t {
        Tod::Open | Tod::EDSP => 0.0,
        Tod::Close => 0.8,
    }
}

// ------------------------------------------------------------------ markets

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Name {
    pub credit: usize,
    pub settle: Rule,
    pub spot: f64,
    pub borrow: Curve,
    pub divs: Divs,
    pub vol: Vol,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Market {
    pub date: i32,
    /// the first is the currency's own
    pub curves: Vec<Curve>,
    pub names: Vec<Name>,
    pub settle: Rule,
}

pub fn credit_id(i: usize) -> String {
    if i == 0 {
        "USD".to_string()
    } else {
        format!("CR{}", i)
    }
}
pub fn name_id(i: usize) -> String {
    format!("EQ{}", i)
}

impl Market {
    pub fn currency(&self) -> RcCurrency {
        RcCurrency::new(Arc::new(Currency::new("USD", self.settle.build())))
    }
    pub fn build(&self) -> Result<MarketData, qm::Error> {
        let (spots, borrow, divs, vols, yields) = self.parts()?;
        Ok(MarketData::new(d(self.date), spots, yields, borrow, divs, vols))
    }
    #[allow(clippy::type_complexity)]
    pub fn parts(
        &self,
    ) -> Result<
        (
            HashMap<String, f64>,
            HashMap<String, quantmath::data::curves::RcRateCurve>,
            HashMap<String, quantmath::data::divstream::RcDividendStream>,
            HashMap<String, quantmath::data::volsurface::RcVolSurface>,
            HashMap<String, quantmath::data::curves::RcRateCurve>,
        ),
        qm::Error,
    > {
        let mut spots = HashMap::new();
        let mut borrow = HashMap::new();
        let mut divs = HashMap::new();
        let mut vols = HashMap::new();
        let mut yields = HashMap::new();
        for (i, c) in self.curves.iter().enumerate() {
            yields.insert(credit_id(i), c.build());
        }
        for (i, n) in self.names.iter().enumerate() {
            spots.insert(name_id(i), n.spot);
            borrow.insert(name_id(i), n.borrow.build());
            divs.insert(name_id(i), n.divs.build());
            vols.insert(name_id(i), n.vol.build()?);
        }
        Ok((spots, borrow, divs, vols, yields))
    }
    pub fn carry(&self, i: usize) -> Carry<'_> {
        let n = &self.names[i];
        Carry { base: self.date, spot: n.spot, settle: &n.settle, rate: &self.curves[n.credit], borrow: &n.borrow, divs: &n.divs }
    }
    /// The surface as used on the spot date: keeping expiries constant as time passes
    pub fn vol(&self, i: usize) -> Vol {
        let v = self.names[i].vol.clone();
        let base = v.base();
        if base.0 == self.date {
            return v;
        }
        let t = v.cal().year_fraction(base, (self.date, 0.0));
        if t.abs() <= 1e-12 {
            return v;
        }
        Vol::ConstantExpiry(Box::new(v), t, (self.date, 0.0))
    }
    pub fn equity(&self, i: usize) -> RcInstrument {
        let n = &self.names[i];
        RcInstrument::new(Qrc::new(Arc::new(Equity::new(&name_id(i), &credit_id(n.credit), self.currency(), n.settle.build()))))
    }
}

impl Market {
    /// The same market with money counted in other units
    pub fn in_units(&self, unit: f64) -> Market {
        let mut m = self.clone();
        for n in m.names.iter_mut() {
            n.spot *= unit;
            for x in n.divs.divs.iter_mut() {
                x.cash *= unit;
            }
            n.vol = n.vol.in_units(unit);
        }
        m
    }
}

/// How varied the markets are
#[derive(Clone, Copy, Debug)]
pub struct Wild {
    pub names: usize,
    pub yields: bool,
    pub smiles: bool,
    pub old_vols: bool,
}

pub const WILD: Wild = Wild { names: 3, yields: true, smiles: true, old_vols: true };
pub const TAME: Wild = Wild { names: 2, yields: false, smiles: false, old_vols: true };

/// Settlement a few days either way
pub fn lag(n: i32) -> BoxedStrategy<Rule> {
    let c = move || plain_cal(n + 100, 300);
    prop_oneof![
        2 => Just(Rule::Null),
        1 => c().prop_map(Rule::Next),
        5 => (c(), 0u32..5).prop_map(|(c, k)| Rule::Step(c, k)),
        1 => c().prop_map(Rule::ModifiedFollowing),
    ]
    .boxed()
}

pub fn surface(n: i32, spot: f64, w: Wild) -> BoxedStrategy<Vol> {
    let back = if w.old_vols { prop_oneof![3 => Just((0i32, 0.0f64)), 2 => (1i32..12, dec(0.0, 0.9, 1))].boxed() } else { Just((0i32, 0.0f64)).boxed() };
    back.prop_flat_map(move |(back, f)| {
        let base = (n - back, f);
        if w.smiles {
            prop_oneof![2 => flat_vol(base, any_cal(n + 100, 400)), 3 => pillar_vol(base, spot, any_cal(n + 100, 400))].boxed()
        } else {
            flat_vol(base, any_cal(n + 100, 400))
        }
    })
    .prop_map(|v| if grows(&v) { v } else { Vol::Flat { vol: 0.25, cal: v.cal().clone(), base: v.base() } })
    .boxed()
}

/// Variance along the forward grows from pillar to pillar; otherwise no surface is made.
fn grows(v: &Vol) -> bool {
    match v {
        Vol::Pillars { smiles, fwd, .. } => {
            let mut last = 0.0;
            smiles.iter().all(|(at, _)| match v.variance(*at, fwd.at(at.0)) {
                Some((x, _)) => {
                    let ok = x > last + 1e-9;
                    last = x;
                    ok
                }
                None => false,
            })
        }
        _ => true,
    }
}

pub fn name(n: i32, curves: usize, w: Wild) -> BoxedStrategy<Name> {
    dec(20.0, 200.0, 1)
        .prop_flat_map(move |spot| {
            (0..curves, lag(n), smooth_curve(n - 10..n + 1, -0.01, 0.04), divs(n, spot, w.yields), surface(n, spot, w))
                .prop_map(move |(credit, settle, borrow, divs, vol)| Name { credit, settle, spot, borrow, divs, vol })
        })
        .boxed()
}

pub fn market(w: Wild) -> BoxedStrategy<Market> {
    (5000i32..60000, 1usize..4, 1usize..w.names + 1)
        .prop_flat_map(move |(n, curves, names)| {
            (vec(smooth_curve(n - 10..n + 1, -0.01, 0.1), curves..=curves), vec(name(n, curves, w), names..=names), lag(n))
                .prop_map(move |(curves, names, settle)| Market { date: n, curves, names, settle })
        })
        .boxed()
}

// -------------------------------------------------------------- instruments

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Terms {
    Strike(f64),
    Start { fraction: f64, date: Moment },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opt {
    pub under: usize,
    pub credit: usize,
    pub settle: Rule,
    pub expiry: Moment,
    pub call: bool,
    pub cash: bool,
    pub terms: Terms,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Instr {
    Currency,
    Entity { credit: usize, settle: Rule },
    Equity(usize),
    Zero { credit: usize, ex: Moment, pay: i32, settle: Rule },
    Opt(Opt),
    Basket { credit: usize, settle: Rule, parts: Vec<(f64, Instr)> },
}

fn tail(x: &impl Serialize) -> String {
    let s = serde_json::to_string(x).unwrap();
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:08x}", (h ^ (h >> 32)) as u32)
}

impl Opt {
    pub fn id(&self) -> String {
        format!("OPT{}", tail(self))
    }
    pub fn pay(&self) -> i32 {
        self.settle.apply(self.expiry.0)
    }
    pub fn expiry_time(&self) -> (i32, f64) {
        (self.expiry.0, fraction(self.expiry.1))
    }
    pub fn build(&self, m: &Market) -> Result<RcInstrument, qm::Error> {
        let pc = if self.call { PutOrCall::Call } else { PutOrCall::Put };
        let cp = if self.cash { OptionSettlement::Cash } else { OptionSettlement::Physical };
        let under = m.equity(self.under);
        Ok(match self.terms {
            Terms::Strike(k) => RcInstrument::new(Qrc::new(Arc::new(SpotStartingEuropean::new(&self.id(), &credit_id(self.credit), under, self.settle.build(), moment(self.expiry), k, pc, cp)?))),
            Terms::Start { fraction, date } => {
                RcInstrument::new(Qrc::new(Arc::new(ForwardStartingEuropean::new(&self.id(), &credit_id(self.credit), under, self.settle.build(), moment(self.expiry), fraction, moment(date), pc, cp)?)))
            }
        })
    }
}

impl Instr {
    pub fn id(&self) -> String {
        match self {
            Instr::Currency => "USD".to_string(),
            Instr::Entity { credit, .. } => credit_id(*credit),
            Instr::Equity(i) => name_id(*i),
            Instr::Zero { .. } => format!("ZC{}", tail(self)),
            Instr::Opt(o) => o.id(),
            Instr::Basket { .. } => format!("BSK{}", tail(self)),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Instr::Currency => "currency",
            Instr::Entity { .. } => "credit entity",
            Instr::Equity(_) => "equity",
            Instr::Zero { .. } => "zero coupon",
            Instr::Opt(o) => match o.terms {
                Terms::Strike(_) => "spot-starting option",
                _ => "forward-starting option",
            },
            Instr::Basket { .. } => "basket",
        }
    }
    pub fn build(&self, m: &Market) -> Result<RcInstrument, qm::Error> {
        Ok(match self {
            Instr::Currency => RcInstrument::new(Qrc::new(Arc::new(m.currency().deref().clone()))),
            Instr::Entity { credit, settle } => RcInstrument::new(Qrc::new(Arc::new(CreditEntity::new(&credit_id(*credit), m.currency(), settle.build())))),
            Instr::Equity(i) => m.equity(*i),
            Instr::Zero { credit, ex, pay, settle } => RcInstrument::new(Qrc::new(Arc::new(ZeroCoupon::new(&self.id(), &credit_id(*credit), m.currency(), moment(*ex), d(*pay), settle.build())))),
            Instr::Opt(o) => o.build(m)?,
            Instr::Basket { credit, settle, parts } => {
                let mut p = Vec::new();
                for (w, i) in parts {
                    p.push((*w, i.build(m)?));
                }
                RcInstrument::new(Qrc::new(Arc::new(Basket::new(&self.id(), &credit_id(*credit), m.currency(), settle.build(), p)?)))
            }
        })
    }
    /// Every leaf, with the product of the weights above it
    pub fn leaves(&self) -> Vec<(f64, &Instr)> {
        match self {
            Instr::Basket { parts, .. } => parts.iter().flat_map(|(w, i)| i.leaves().into_iter().map(move |(v, l)| (w * v, l))).collect(),
            x => vec![(1.0, x)],
        }
    }
    pub fn options(&self) -> Vec<&Opt> {
        self.leaves().into_iter().filter_map(|(_, l)| if let Instr::Opt(o) = l { Some(o) } else { None }).collect()
    }
    pub fn depth(&self) -> usize {
        match self {
            Instr::Basket { parts, .. } => 1 + parts.iter().map(|p| p.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Names on which the price depends
    pub fn names(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .leaves()
            .into_iter()
            .filter_map(|(_, l)| match l {
                Instr::Equity(i) => Some(*i),
                Instr::Opt(o) => Some(o.under),
                _ => None,
            })
            .collect();
        v.sort();
        v.dedup();
        v
    }
}

/// An option living at or after the market's date
pub fn option(m: &Market, forward_starting: bool) -> BoxedStrategy<Opt> {
    let n = m.date;
    let spots: Vec<f64> = m.names.iter().map(|x| x.spot).collect();
    let curves = m.curves.len();
    let when = prop_oneof![1 => Just(0i32), 1 => 1i32..10, 4 => 1i32..700];
    (0..spots.len(), 0..curves, lag(n), (when.clone(), tod()), any::<bool>(), any::<bool>(), 0u8..8)
        .prop_flat_map(move |(under, credit, settle, (days, time), call, cash, k)| {
            let spot = spots[under];
            let expiry = (n + days, time);
            let terms = if forward_starting && k < 3 {
                (dec(0.5, 1.6, 2), 0i32..=days, tod())
                    .prop_map(move |(fraction, s, t)| {
                        // not after the expiry
                        let t = if s == days && t > time { time } else { t };
                        Terms::Start { fraction, date: (n + s, t) }
                    })
                    .boxed()
            } else if k == 7 {
                Just(Terms::Strike(0.0)).boxed()
            } else {
                dec(0.4, 1.8, 2).prop_map(move |x| Terms::Strike((spot * x * 100.0).round() / 100.0)).boxed()
            };
            terms.prop_map(move |terms| Opt { under, credit, settle: settle.clone(), expiry, call, cash, terms })
        })
        .boxed()
}

pub fn leaf(m: &Market) -> BoxedStrategy<Instr> {
    let n = m.date;
    let curves = m.curves.len();
    prop_oneof![
        1 => Just(Instr::Currency),
        1 => (0..curves, lag(n)).prop_map(|(credit, settle)| if credit == 0 { Instr::Currency } else { Instr::Entity { credit, settle } }),
        3 => (0..m.names.len()).prop_map(Instr::Equity),
        2 => (0..curves, 0i32..900, tod(), 0i32..20, lag(n)).prop_map(move |(credit, e, t, g, settle)| Instr::Zero { credit, ex: (n + e, t), pay: n + e + g, settle }),
        8 => option(m, true).prop_map(Instr::Opt),
    ]
    .boxed()
}

pub fn weight() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.0), 2 => Just(1.0), 8 => dec(-3.0, 3.0, 2)].boxed()
}

pub fn basket_of(m: &Market, inner: BoxedStrategy<Instr>, parts: std::ops::Range<usize>) -> BoxedStrategy<Instr> {
    (0..m.curves.len(), lag(m.date), vec((weight(), inner), parts)).prop_map(|(credit, settle, parts)| Instr::Basket { credit, settle, parts }).boxed()
}

/// A leaf or a nested basket; options on the same name often share an expiry.
pub fn instrument(m: &Market) -> BoxedStrategy<Instr> {
    let l = leaf(m);
    let mm = m.clone();
    let tree = l.clone().prop_recursive(3, 10, 4, move |i| basket_of(&mm, i, 0..5)).boxed();
    let mm = m.clone();
    let pair = (option(m, true), any::<bool>(), dec(0.6, 1.5, 1), l.clone())
        .prop_map(move |(o, same, x, other)| {
            let mut p = o.clone();
            p.call = !o.call;
            if !same {
                p.terms = Terms::Strike((mm.names[o.under].spot * x * 10.0).round() / 10.0);
            }
            Instr::Basket { credit: o.credit, settle: o.settle.clone(), parts: vec![(1.0, Instr::Opt(o)), (-1.0, Instr::Opt(p)), (2.0, other)] }
        })
        .boxed();
    prop_oneof![2 => l, 4 => tree, 2 => pair].boxed()
}

// ------------------------------------------------------- reference valuation

impl Opt {
    /// The Black value, discounted on the given curve. `None` where the surface gives an
    /// error. The second number is the size of the error to allow.
    pub fn value(&self, m: &Market, at: Moment, curve: usize) -> Option<(f64, f64)> {
        if at > self.expiry {
            return Some((0.0, 0.0));
        }
        let carry = m.carry(self.under);
        let vol = m.vol(self.under);
        let f = carry.forward(self.expiry.0);
        let mut from = (at.0, fraction(at.1));
        let k = match self.terms {
            Terms::Strike(k) => k,
            Terms::Start { fraction: x, date } => {
                let s = (date.0, fraction(date.1));
                if s > from {
                    from = s;
                }
                x * carry.forward(date.0)
            }
        };
        let c = &m.curves[curve];
        let df = (c.acc(self.settle.apply(at.0)) - c.acc(self.pay())).exp();
        let (v, size, least) = vol.forward_variance(from, self.expiry_time(), k)?;
        // variance gone but for rounding may be refused
        if least < 1e-12 * size {
            return None;
        }
        let disp = vol.displacement(self.expiry.0);
        let (fd, kd) = (f - disp, k - disp);
        if fd < 0.0 {
            return None;
        }
        let price = if kd < 0.0 {
            if self.call {
                df * (fd - kd)
            } else {
                0.0
            }
        } else {
            df * black(self.call, fd, kd, v.max(0.0).sqrt())
        };
        // vega bounds the effect of an error in variance
        let err = 1e-7 * (1e-4 + size);
        let tol = 1e-9 * (1.0 + f + k) + (f + k) * err / (v.max(0.0).sqrt() + err.sqrt());
        Some((price, tol))
    }
}

impl Instr {
    /// Worth at a moment and the error to allow. Options discount on their own credit's
    /// curve, or with `under` on that of the underlying.
    pub fn value(&self, m: &Market, at: Moment, under: bool) -> Option<(f64, f64)> {
        match self {
            Instr::Currency | Instr::Entity { .. } => Some((1.0, 0.0)),
            Instr::Equity(i) => {
                let f = m.carry(*i).forward(at.0);
                Some((f, 1e-10 * (1.0 + f)))
            }
            Instr::Zero { credit, ex, pay, settle } => {
                if at > *ex {
                    return Some((0.0, 0.0));
                }
                let c = &m.curves[*credit];
                Some(((c.acc(settle.apply(at.0)) - c.acc(*pay)).exp(), 1e-11))
            }
            Instr::Opt(o) => o.value(m, at, if under { m.names[o.under].credit } else { o.credit }),
            Instr::Basket { parts, .. } => {
                let (mut v, mut t) = (0.0, 0.0);
                for (w, i) in parts {
                    let (a, b) = i.value(m, at, under)?;
                    v += w * a;
                    t += w.abs() * b + 1e-12 * (w * a).abs();
                }
                Some((v, t))
            }
        }
    }
    /// The outcome once the fixings are known: the remaining instruments, or `None` if
    /// nothing changes. FixTable are by name and moment. `Err` when one that is needed
    /// and in the past is missing.
    pub fn fixed(&self, m: &Market, table: &FixTable) -> Result<Option<Vec<(f64, Instr)>>, String> {
        match self {
            Instr::Opt(o) => o.fixed(table),
            Instr::Basket { credit, settle, parts } => {
                let mut out = Vec::new();
                let mut any = false;
                for (w, i) in parts {
                    match i.fixed(m, table)? {
                        None => out.push((*w, i.clone())),
                        Some(v) => {
                            any = true;
                            out.extend(v.into_iter().map(|(x, i)| (w * x, i)));
                        }
                    }
                }
                Ok(if any { Some(vec![(1.0, Instr::Basket { credit: *credit, settle: settle.clone(), parts: out })]) } else { None })
            }
            _ => Ok(None),
        }
    }
}

impl Opt {
    pub fn fixed(&self, table: &FixTable) -> Result<Option<Vec<(f64, Instr)>>, String> {
        let strike = match self.terms {
            Terms::Strike(k) => k,
            Terms::Start { fraction, date } => match table.get(self.under, date)? {
                None => return Ok(None),
                Some(s) => s * fraction,
            },
        };
        match table.get(self.under, self.expiry)? {
            None => match self.terms {
                Terms::Strike(_) => Ok(None),
                _ => Ok(Some(vec![(1.0, Instr::Opt(Opt { terms: Terms::Strike(strike), ..self.clone() }))])),
            },
            Some(s) => {
                let sign = if self.call { 1.0 } else { -1.0 };
                let gain = sign * (s - strike);
                if gain <= 0.0 {
                    return Ok(Some(vec![]));
                }
                let zc = Instr::Zero { credit: self.credit, ex: self.expiry, pay: self.pay(), settle: self.settle.clone() };
                Ok(Some(if self.cash { vec![(gain, zc)] } else { vec![(-strike * sign, zc), (sign, Instr::Equity(self.under))] }))
            }
        }
    }
}

// ------------------------------------------------------------------ fixings

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FixTable {
    pub until: i32,
    pub list: Vec<(usize, Moment, f64)>,
}
impl FixTable {
    pub fn none(until: i32) -> FixTable {
        FixTable { until, list: Vec::new() }
    }
    pub fn get(&self, name: usize, at: Moment) -> Result<Option<f64>, String> {
        match self.list.iter().find(|f| f.0 == name && f.1 == at) {
            Some(f) => Ok(Some(f.2)),
            None if at.0 < self.until => Err(format!("missing fixing of {} at {}", name_id(name), moment(at).date())),
            None => Ok(None),
        }
    }
    pub fn build(&self) -> Result<FixingTable, qm::Error> {
        let mut t: BTreeMap<String, Vec<(DateTime, f64)>> = BTreeMap::new();
        for (n, at, v) in &self.list {
            t.entry(name_id(*n)).or_default().push((moment(*at), *v));
        }
        let v: Vec<(&str, &[(DateTime, f64)])> = t.iter().map(|(k, v)| (k.as_str(), v.as_slice())).collect();
        FixingTable::from_fixings(d(self.until), &v)
    }
    pub fn rc(&self) -> Result<RcFixingTable, qm::Error> {
        Ok(RcFixingTable::new(Arc::new(self.build()?)))
    }
}

/// A table for some of the fixings an instrument needs, and others it does not
pub fn fixings_for(i: &Instr, m: &Market) -> BoxedStrategy<FixTable> {
    let mut needed: Vec<(usize, Moment, f64)> = Vec::new();
    for o in i.options() {
        let spot = m.names[o.under].spot;
        let mark = match o.terms {
            Terms::Strike(k) => k,
            Terms::Start { date, .. } => {
                needed.push((o.under, date, spot));
                spot
            }
        };
        needed.push((o.under, o.expiry, mark));
    }
    let n = m.date;
    let names = m.names.len();
    let k = needed.len();
    // more often than not every fixing up to some date
    let choice = prop_oneof![1 => vec(any::<bool>(), k..=k).prop_map(Some), 2 => Just(None)];
    let value = prop_oneof![1 => Just(1.0), 6 => dec(0.4, 1.8, 2)];
    let extra = vec((0..names + 1, (prop_oneof![n - 5..n + 10, n - 5..n + 900], tod()), dec(10.0, 200.0, 1)), 0..4);
    (prop_oneof![n - 2..n + 10, n..n + 900], choice, vec(value, k..=k), extra, vec(0u8..6, k..=k))
        .prop_map(move |(until, choice, values, extra, near)| {
            let mut t = FixTable { until, list: Vec::new() };
            let mut add = |x: (usize, Moment, f64)| {
                if !t.list.iter().any(|f| f.0 == x.0 && f.1 == x.1) {
                    t.list.push(x);
                }
            };
            for (j, (name, at, mark)) in needed.iter().enumerate() {
                let take = match &choice {
                    None => at.0 < until,
                    Some(c) => c[j],
                };
                if take {
                    add((*name, *at, ((mark + 0.005) * values[j] * 100.0).floor() / 100.0));
                }
                // the same day at another time
                if near[j] == 0 && at.1 != Tod::EDSP {
                    let other = if at.1 == Tod::Open { Tod::Close } else { Tod::Open };
                    if !needed.iter().any(|x| x.0 == *name && x.1 == (at.0, other)) {
                        add((*name, (at.0, other), mark * 0.9));
                    }
                }
            }
            for x in &extra {
                if !needed.iter().any(|y| y.0 == x.0 && y.1 == x.1) {
                    add(*x);
                }
            }
            t
        })
        .boxed()
}

/// Prices of an instrument at some moments
pub fn prices(i: &RcInstrument, ctx: &dyn PricingContext, at: &[Moment]) -> Result<Vec<f64>, qm::Error> {
    let at: Vec<DateTime> = at.iter().map(|a| moment(*a)).collect();
    let mut out = vec![f64::NAN; at.len()];
    i.as_priceable().ok_or_else(|| qm::Error::new("not priceable"))?.prices(ctx, &at, &mut out)?;
    Ok(out)
}

// -------------------------------------------------------------------- bumps

/// A bump of one market input. Names and credits past the end of the market are absent.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bp {
    Spot(usize, f64),
    SetSpot(usize, f64),
    Divs(usize, f64),
    Borrow(usize, bool, f64),
    Vol(usize, f64),
    VolTime(usize, f64, f64),
    SetVol(usize, f64),
    Yield(usize, bool, f64),
}

impl Bp {
    pub fn kind(&self) -> &'static str {
        match self {
            Bp::Spot(..) | Bp::SetSpot(..) => "spot",
            Bp::Divs(..) => "divs",
            Bp::Borrow(..) => "borrow",
            Bp::Vol(..) | Bp::VolTime(..) | Bp::SetVol(..) => "vol",
            Bp::Yield(..) => "yield",
        }
    }
    pub fn build(&self) -> Bump {
        let y = |annual: bool, s: f64| if annual { BumpYield::new_flat_annualised(s) } else { BumpYield::new_flat_continuously_compounded(s) };
        match *self {
            Bp::Spot(i, b) => Bump::new_spot(&name_id(i), BumpSpot::new_relative(b)),
            Bp::SetSpot(i, s) => Bump::new_spot(&name_id(i), BumpSpot::new_replace(s)),
            Bp::Divs(i, b) => Bump::new_divs(&name_id(i), BumpDivs::new_all_relative(b)),
            Bp::Borrow(i, a, b) => Bump::new_borrow(&name_id(i), y(a, b)),
            Bp::Vol(i, b) => Bump::new_vol(&name_id(i), BumpVol::new_flat_additive(b)),
            Bp::VolTime(i, b, f) => Bump::new_vol(&name_id(i), BumpVol::new_time_scaled(b, f)),
            Bp::SetVol(i, v) => Bump::new_vol(&name_id(i), BumpVol::new_replace(v)),
            Bp::Yield(i, a, b) => Bump::new_yield(&credit_id(i), y(a, b)),
        }
    }
    /// Applies the bump to the description of the market and says whether the item is
    /// there.
    pub fn apply(&self, m: &mut Market) -> bool {
        let i = match *self {
            Bp::Spot(i, _) | Bp::SetSpot(i, _) | Bp::Divs(i, _) | Bp::Borrow(i, ..) | Bp::Vol(i, _) | Bp::VolTime(i, ..) | Bp::SetVol(i, _) | Bp::Yield(i, ..) => i,
        };
        let there = match self {
            Bp::Yield(..) => i < m.curves.len(),
            _ => i < m.names.len(),
        };
        if !there {
            return false;
        }
        let curve = |c: &mut Curve, annual: bool, b: f64| {
            let old = Box::new(c.clone());
            *c = if annual { Curve::Annualised(old, b) } else { Curve::Continuous(old, b) };
        };
        match *self {
            Bp::Spot(_, b) => m.names[i].spot *= 1.0 + b,
            Bp::SetSpot(_, s) => m.names[i].spot = s,
            Bp::Divs(_, b) => m.names[i].divs = m.names[i].divs.scaled(b),
            Bp::Borrow(_, a, b) => curve(&mut m.names[i].borrow, a, b),
            Bp::Vol(_, b) => m.names[i].vol = Vol::Parallel(Box::new(m.names[i].vol.clone()), b),
            Bp::VolTime(_, b, f) => m.names[i].vol = Vol::TimeScaled(Box::new(m.names[i].vol.clone()), b, f),
            Bp::SetVol(_, v) => {
                let old = &m.names[i].vol;
                m.names[i].vol = Vol::Flat { vol: v, cal: old.cal().clone(), base: old.base() };
            }
            Bp::Yield(_, a, b) => curve(&mut m.curves[i], a, b),
        }
        true
    }
}

/// Bumps of a market with this many names and curves, now and then of absent ones
pub fn bump(names: usize, curves: usize) -> BoxedStrategy<Bp> {
    let i = move || prop_oneof![12 => 0..names, 1 => names..names + 2].boxed();
    let c = move || prop_oneof![12 => 0..curves, 1 => curves..curves + 2].boxed();
    // mostly of the usual size, now and then tiny
    let rate = |lo: f64, hi: f64| prop_oneof![4 => dec(lo, hi, 4), 1 => dec(-0.0001, 0.0001, 7)].boxed();
    prop_oneof![
        3 => (i(), prop_oneof![6 => dec(-0.3, 0.4, 3), 1 => dec(-0.001, 0.001, 6), 1 => dec(-0.8, 2.0, 2)]).prop_map(|(i, b)| Bp::Spot(i, b)),
        1 => (i(), dec(10.0, 250.0, 1)).prop_map(|(i, b)| Bp::SetSpot(i, b)),
        2 => (i(), prop_oneof![4 => dec(-0.5, 0.5, 2), 1 => dec(-1.0, 2.0, 1), 1 => dec(-0.001, 0.001, 5)]).prop_map(|(i, b)| Bp::Divs(i, b)),
        2 => (i(), any::<bool>(), rate(-0.02, 0.02)).prop_map(|(i, a, b)| Bp::Borrow(i, a, b)),
        2 => (i(), prop_oneof![4 => dec(-0.05, 0.1, 3), 1 => dec(-0.0001, 0.0001, 6), 1 => dec(0.1, 1.0, 2)]).prop_map(|(i, b)| Bp::Vol(i, b)),
        1 => (i(), dec(0.0, 0.1, 3), dec(0.01, 1.0, 2)).prop_map(|(i, b, f)| Bp::VolTime(i, b, f)),
        1 => (i(), dec(0.0, 0.8, 3)).prop_map(|(i, v)| Bp::SetVol(i, v)),
        3 => (c(), any::<bool>(), rate(-0.02, 0.03)).prop_map(|(i, a, b)| Bp::Yield(i, a, b)),
    ]
    .boxed()
}

// ------------------------------------------------------------------- probes

/// Everything a context says about the market's names and curves at some dates, as
/// numbers; an error is not-a-number. Forwards only of the names given.
pub fn probe(ctx: &dyn PricingContext, m: &Market, forwards: &[usize], at: &[i32]) -> Vec<(String, f64)> {
    let mut out = vec![("spot date".to_string(), ctx.spot_date().truncated_julian() as f64)];
    let hwm = *at.iter().max().unwrap();
    for i in 0..m.names.len() {
        out.push((format!("spot {}", i), ctx.spot(&name_id(i)).unwrap_or(f64::NAN)));
    }
    for i in 0..m.curves.len() {
        let c = ctx.yield_curve(&credit_id(i), d(hwm));
        for n in at {
            let x = match c {
                Ok(ref c) => c.rt(d(*n)).unwrap_or(f64::NAN),
                Err(_) => f64::NAN,
            };
            out.push((format!("rate {} at {}", i, n), x));
        }
    }
    for i in forwards {
        let e = m.equity(*i);
        let f = ctx.forward_curve(&*e, d(hwm));
        for n in at {
            let x = match f {
                Ok(ref f) => f.forward(d(*n)).unwrap_or(f64::NAN),
                Err(_) => f64::NAN,
            };
            out.push((format!("forward {} at {}", i, n), x));
        }
        let v = ctx.vol_surface(&*e, d(hwm), &|| ctx.forward_curve(&*e, d(hwm)));
        let spot = m.names[*i].spot;
        let k = [spot * 0.7, spot, spot * 1.2];
        for n in at {
            let mut x = [f64::NAN; 3];
            let mut t = f64::NAN;
            if let Ok(ref v) = v {
                t = v.volatilities(DateDayFraction::new(d(*n), 0.5), &k, &mut x).unwrap_or(f64::NAN);
            }
            for j in 0..3 {
                out.push((format!("vol {} at {} strike {}", i, n, k[j]), x[j]));
            }
            out.push((format!("vol time {} at {}", i, n), t));
        }
    }
    out
}

/// The first difference between two probes, with relative tolerance `tol` (zero: exact)
pub fn differs(a: &[(String, f64)], b: &[(String, f64)], tol: f64) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} answers, not {}", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        let same = if tol == 0.0 { same_bits(x.1, y.1) } else { same_bits(x.1, y.1) || close(x.1, y.1, tol) };
        if !same {
            return Some(format!("{}: {} not {}", x.0, x.1, y.1));
        }
    }
    None
}
