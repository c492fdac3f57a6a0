//! Market data as plain values: generators, the library objects built from them, and an
//! independent reference for what those objects should answer.

use crate::numeric::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::factories::Qrc;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::forward::*;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::math::interpolation::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// ------------------------------------------------------------ interpolation

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ex {
    Flat,
    Natural,
    NotANumber,
    Zero,
    Throw,
}
impl Ex {
    pub fn build(self) -> Extrap {
        match self {
            Ex::Flat => Extrap::Flat,
            Ex::Natural => Extrap::Natural,
            Ex::NotANumber => Extrap::NotANumber,
            Ex::Zero => Extrap::Zero,
            Ex::Throw => Extrap::Throw,
        }
    }
}
pub fn ex() -> BoxedStrategy<Ex> {
    prop_oneof![Just(Ex::Flat), Just(Ex::Natural), Just(Ex::NotANumber), Just(Ex::Zero), Just(Ex::Throw)].boxed()
}

/// Linear interpolation by date, `None` where an error is due.
pub fn linear(points: &[(i32, f64)], left: Ex, right: Ex, n: i32) -> Option<f64> {
    let k = points.len();
    let line = |a: (i32, f64), b: (i32, f64)| a.1 + (b.1 - a.1) * (n - a.0) as f64 / (b.0 - a.0) as f64;
    let side = |e: Ex, end: f64, a: usize, b: usize| match e {
        Ex::Flat => Some(end),
        Ex::Zero => Some(0.0),
        Ex::NotANumber => Some(f64::NAN),
        Ex::Throw => None,
        Ex::Natural => {
            if k < 2 {
                None
            } else {
                Some(line(points[a], points[b]))
            }
        }
    };
    if let Some(p) = points.iter().find(|p| p.0 == n) {
        return Some(p.1);
    }
    if n < points[0].0 {
        return side(left, points[0].1, 0, 1.min(k - 1));
    }
    if n > points[k - 1].0 {
        return side(right, points[k - 1].1, k.max(2) - 2, k - 1);
    }
    let i = (1..k).find(|i| n < points[*i].0).unwrap();
    Some(line(points[i - 1], points[i]))
}

pub fn build_linear(points: &[(i32, f64)], left: Ex, right: Ex) -> Linear<Date> {
    let p: Vec<(Date, f64)> = points.iter().map(|(n, v)| (d(*n), *v)).collect();
    Linear::new(&p, left.build(), right.build()).expect("generated points are sorted")
}

/// Increasing dates: a first one and the gaps after it.
pub fn dates_from(first: std::ops::Range<i32>, count: std::ops::Range<usize>) -> BoxedStrategy<Vec<i32>> {
    (first, vec(prop_oneof![1i32..20, 1i32..400], count.start.max(1) - 1..count.end - 1))
        .prop_map(|(mut n, gaps)| {
            let mut out = vec![n];
            for g in gaps {
                n += g;
                out.push(n);
            }
            out
        })
        .boxed()
}

// ------------------------------------------------------------------- curves

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Curve {
    Zero { base: i32 },
    Act365 { base: i32, points: Vec<(i32, f64)>, left: Ex, right: Ex },
    Annualised(Box<Curve>, f64),
    Continuous(Box<Curve>, f64),
    Relative(Box<Curve>, f64),
}

impl Curve {
    pub fn base(&self) -> i32 {
        match self {
            Curve::Zero { base } | Curve::Act365 { base, .. } => *base,
            Curve::Annualised(c, _) | Curve::Continuous(c, _) | Curve::Relative(c, _) => c.base(),
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            Curve::Zero { .. } => true,
            _ => false,
        }
    }
    pub fn bumped(&self) -> bool {
        match self {
            Curve::Zero { .. } | Curve::Act365 { .. } => false,
            _ => true,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Curve::Zero { .. } => "zero curve",
            Curve::Act365 { .. } => "pillars",
            Curve::Annualised(..) => "annualised bump",
            Curve::Continuous(..) => "continuous bump",
            Curve::Relative(..) => "relative bump",
        }
    }
    /// The continuously compounded rate at a date, `None` where an error is due.
    pub fn rate(&self, n: i32) -> Option<f64> {
        match self {
            Curve::Zero { .. } => Some(0.0),
            Curve::Act365 { points, left, right, .. } => linear(points, *left, *right, n),
            Curve::Annualised(c, b) => c.rate(n).map(|r| (r.exp() + b).ln()),
            Curve::Continuous(c, b) => c.rate(n).map(|r| r + b),
            Curve::Relative(c, m) => c.rate(n).map(|r| r * m),
        }
    }
    /// The accumulated rate from the base date, on actual days over 365.
    pub fn rt(&self, n: i32) -> Option<f64> {
        if n == self.base() {
            return Some(0.0);
        }
        self.rate(n).map(|r| r * (n - self.base()) as f64 / 365.0)
    }
    /// Accumulated rate of a curve that answers everywhere.
    pub fn acc(&self, n: i32) -> f64 {
        self.rt(n).unwrap_or(f64::NAN)
    }
    pub fn build(&self) -> RcRateCurve {
        match self {
            Curve::Zero { base } => RcRateCurve::new(Arc::new(ZeroRateCurve::new(d(*base)))),
            Curve::Act365 { base, points, left, right } => {
                let p: Vec<(Date, f64)> = points.iter().map(|(n, v)| (d(*n), *v)).collect();
                RcRateCurve::new(Arc::new(RateCurveAct365::new(d(*base), &p, left.build(), right.build()).expect("generated pillars are sorted")))
            }
            Curve::Annualised(c, b) => RcRateCurve::new(Arc::new(AnnualisedFlatBump::new(c.build(), *b))),
            Curve::Continuous(c, b) => RcRateCurve::new(Arc::new(ContinuouslyCompoundedFlatBump::new(c.build(), *b))),
            Curve::Relative(c, m) => RcRateCurve::new(Arc::new(RelativeBump::new(c.build(), *m))),
        }
    }
}

/// A curve on pillars near `base`, with rates between `lo` and `hi`.
pub fn pillar_curve(base: std::ops::Range<i32>, lo: f64, hi: f64, ends: BoxedStrategy<(Ex, Ex)>) -> BoxedStrategy<Curve> {
    (base, ends)
        .prop_flat_map(move |(base, (left, right))| {
            dates_from(base - 20..base + 200, 1..7).prop_flat_map(move |dates| {
                let k = dates.len();
                (Just(dates), vec(dec(lo, hi, 4), k..=k)).prop_map(move |(dates, rates)| Curve::Act365 { base, points: dates.into_iter().zip(rates).collect(), left, right })
            })
        })
        .boxed()
}

/// A curve that answers at every date.
pub fn smooth_curve(base: std::ops::Range<i32>, lo: f64, hi: f64) -> BoxedStrategy<Curve> {
    let b = base.clone();
    prop_oneof![
        1 => b.prop_map(|base| Curve::Zero { base }),
        9 => pillar_curve(base, lo, hi, Just((Ex::Flat, Ex::Flat)).boxed()),
    ]
    .boxed()
}

pub fn bumped_curve(inner: BoxedStrategy<Curve>) -> BoxedStrategy<Curve> {
    let plain = inner.clone();
    let bumped = inner
        .prop_recursive(3, 4, 1, |c| {
            prop_oneof![
                (c.clone(), dec(-0.05, 0.05, 4)).prop_map(|(c, b)| Curve::Annualised(Box::new(c), b)),
                (c.clone(), dec(-0.05, 0.05, 4)).prop_map(|(c, b)| Curve::Continuous(Box::new(c), b)),
                (c, dec(0.0, 2.0, 2)).prop_map(|(c, m)| Curve::Relative(Box::new(c), m)),
            ]
        });
    prop_oneof![1 => plain, 2 => bumped].boxed()
}

// ---------------------------------------------------------------- dividends

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Div {
    pub ex: i32,
    pub pay: i32,
    pub cash: f64,
    pub relative: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Divs {
    pub divs: Vec<Div>,
    pub yld: Curve,
}

impl Divs {
    pub fn none(base: i32) -> Divs {
        Divs { divs: Vec::new(), yld: Curve::Zero { base } }
    }
    pub fn build(&self) -> RcDividendStream {
        let v: Vec<Dividend> = self.divs.iter().map(|x| Dividend::new(x.cash, x.relative, d(x.ex), d(x.pay))).collect();
        RcDividendStream::new(Arc::new(DividendStream::new(&v, self.yld.build())))
    }
    pub fn scaled(&self, bump: f64) -> Divs {
        Divs {
            divs: self.divs.iter().map(|x| Div { cash: x.cash * (1.0 + bump), relative: x.relative * (1.0 + bump), ..*x }).collect(),
            yld: if self.yld.is_zero() { self.yld.clone() } else { Curve::Relative(Box::new(self.yld.clone()), 1.0 + bump) },
        }
    }
}

/// Dividends in order of ex date, some before, on and after `base`; now and then several
/// on one day. A dividend yield, if any, starts after the last of them.
pub fn divs(base: i32, spot: f64, with_yield: bool) -> BoxedStrategy<Divs> {
    let one = (prop_oneof![1 => Just(0i32), 1 => Just(1i32), 4 => 2i32..250], 0i32..30, 0u8..3, dec(0.0, 0.02, 4), dec(0.0, 0.02, 4));
    (prop_oneof![1 => Just(base), 3 => base - 200..base + 200], vec(one, 0..6), 0u8..4, 0i32..100)
        .prop_flat_map(move |(start, list, yk, gap)| {
            let mut ex = start;
            let divs: Vec<Div> = list
                .into_iter()
                .map(|(g, lag, kind, c, r)| {
                    ex += g;
                    let cash = if kind != 1 { (c * spot * 100.0).round() / 100.0 } else { 0.0 };
                    let relative = if kind != 0 { r } else { 0.0 };
                    Div { ex, pay: ex + lag, cash, relative }
                })
                .collect();
            let from = divs.iter().map(|x| x.ex).max().unwrap_or(base).max(base) + if yk == 1 { 0 } else { gap };
            let y = if yk == 0 && with_yield || yk == 1 && with_yield {
                pillar_curve(from..from + 1, 0.0, 0.05, Just((Ex::Zero, Ex::Flat)).boxed())
                    .prop_map(|c| match c {
                        // the yield starts at its base date
                        Curve::Act365 { base, points, left, right } => {
                            let mut p: Vec<(i32, f64)> = points.into_iter().filter(|p| p.0 > base).collect();
                            p.insert(0, (base, 0.01));
                            Curve::Act365 { base, points: p, left, right }
                        }
                        c => c,
                    })
                    .boxed()
            } else {
                Just(Curve::Zero { base }).boxed()
            };
            (Just(divs), y).prop_map(|(divs, yld)| Divs { divs, yld })
        })
        .boxed()
}

// ----------------------------------------------------------------- forwards

/// Reference equity forward.
#[derive(Clone, Debug)]
pub struct Carry<'a> {
    pub base: i32,
    pub spot: f64,
    pub settle: &'a Rule,
    pub rate: &'a Curve,
    pub borrow: &'a Curve,
    pub divs: &'a Divs,
}

impl<'a> Carry<'a> {
    /// Growth of money between two dates, financed at the rate less the borrow cost
    pub fn growth(&self, from: i32, to: i32) -> f64 {
        ((self.rate.acc(to) - self.borrow.acc(to)) - (self.rate.acc(from) - self.borrow.acc(from))).exp()
    }
    /// The spot as of the base date, before the settlement lag
    fn reference(&self) -> f64 {
        self.spot * self.growth(self.settle.apply(self.base), self.base)
    }
    /// Value at the base date of all dividends going ex after it and up to a date
    pub fn dividends(&self, to: i32) -> f64 {
        let mut total = 0.0;
        let mut before = 0.0; // of dividends with an earlier ex date
        let mut last = i32::MIN;
        for x in &self.divs.divs {
            if x.ex <= self.base || x.ex > to {
                continue;
            }
            if x.ex != last {
                before = total;
                last = x.ex;
            }
            let amount = x.cash + x.relative * (self.reference() - before) * self.growth(self.base, x.ex);
            total += amount * self.growth(x.pay, self.base);
        }
        total
    }
    pub fn undiscounted(&self, to: i32) -> f64 {
        let mut total = 0.0;
        for x in &self.divs.divs {
            if x.ex <= self.base || x.ex > to {
                continue;
            }
            total += x.cash + x.relative * (self.reference() - self.dividends(x.ex - 1)) * self.growth(self.base, x.ex);
        }
        total
    }
    pub fn cash_after(&self, date: i32) -> f64 {
        self.divs.divs.iter().filter(|x| x.ex > date && x.ex > self.base).map(|x| x.cash * self.growth(x.pay, self.base)).sum()
    }
    /// The forward without any dividend yield
    pub fn bare(&self, date: i32) -> f64 {
        (self.reference() - self.dividends(date)) * self.growth(self.base, self.settle.apply(date))
    }
    /// The forward with the yield reducing the carry
    pub fn forward(&self, date: i32) -> f64 {
        let y = self.divs.yld.acc(self.settle.apply(date)) - self.divs.yld.acc(self.settle.apply(self.base));
        self.bare(date) * (-y).exp()
    }
    /// What the library does with a dividend yield (see known-findings.txt): the yield
    /// raises the forward, from the base date of the yield curve.
    pub fn forward_as_is(&self, date: i32) -> f64 {
        self.bare(date) * self.divs.yld.acc(self.settle.apply(date)).exp()
    }
    pub fn build(&self, hwm: i32) -> Result<EquityForward, quantmath::core::qm::Error> {
        EquityForward::new(d(self.base), self.spot, self.settle.build(), self.rate.build(), self.borrow.build(), &*self.divs.build(), d(hwm))
    }
}

/// A forward curve for tests that do not need an equity: interpolated by date.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Line {
    pub points: Vec<(i32, f64)>,
    pub left: Ex,
    pub right: Ex,
}
impl Line {
    pub fn at(&self, n: i32) -> f64 {
        linear(&self.points, self.left, self.right, n).unwrap_or(f64::NAN)
    }
    pub fn build(&self) -> Linear<Date> {
        build_linear(&self.points, self.left, self.right)
    }
    pub fn forward(&self) -> Arc<dyn Forward> {
        Arc::new(InterpolatedForward::new(Box::new(self.build())))
    }
}
/// Values within a factor `spread` of `level`.
pub fn line(base: i32, level: f64, spread: f64) -> BoxedStrategy<Line> {
    dates_from(base - 10..base + 60, 1..6)
        .prop_flat_map(move |dates| {
            let k = dates.len();
            (Just(dates), vec(dec(level / spread, level * spread, 2), k..=k)).prop_map(|(dates, v)| Line { points: dates.into_iter().zip(v).collect(), left: Ex::Flat, right: Ex::Flat })
        })
        .boxed()
}

// -------------------------------------------------------------- vol surfaces

thread_local! {
    static NUDGE: std::cell::Cell<f64> = std::cell::Cell::new(0.0);
}

/// Steps of a whole number of days and a half may go either way by rounding. Runs the
/// reference with the step as it is, a little longer and a little shorter, and says
/// whether any of them satisfies the judge; otherwise gives the first failure.
pub fn either_way<F: FnMut() -> crate::frame::R>(mut judge: F) -> crate::frame::R {
    let first = judge();
    if first.is_ok() {
        return first;
    }
    for n in [1e-9, -1e-9] {
        NUDGE.with(|x| x.set(n));
        let r = judge();
        NUDGE.with(|x| x.set(0.0));
        if r.is_ok() {
            return r;
        }
    }
    first
}

/// A partial step in the library's calendar (which C27 judges), open to `either_way`.
fn partial_step(cal: &Cal, from: i32, days: f64, forward: bool) -> i32 {
    let size = days.abs() + NUDGE.with(|x| x.get());
    let size = if size < 0.0 { 0.0 } else { size };
    cal.build().step_partial(d(from), if forward { size } else { -size }, forward).truncated_julian()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Smile {
    Flat(f64),
    Spline(Vec<(f64, f64)>),
}
impl Smile {
    /// Volatility and the size of the terms it is made of
    pub fn vol(&self, k: f64) -> (f64, f64) {
        match self {
            Smile::Flat(v) => (*v, *v),
            Smile::Spline(p) => {
                let m = spline_moments(p, true, true);
                let n = p.len();
                let i = if k < p[0].0 { 1 } else { (1..n).find(|i| k < p[*i].0).unwrap_or(n - 1) };
                let (v, s) = spline_piece(p[i - 1], p[i], m[i - 1], m[i], k);
                // far outside, rounding of the coefficients grows with the cube of the distance
                let far = ((k - p[i - 1].0) / (p[i].0 - p[i - 1].0)).abs().max(1.0);
                (v, s + far.powi(3) * (p[i - 1].1.abs() + p[i].1.abs()) * 1e-3)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum DivModel {
    NoCash,
    Independent,
    Fixed,
    Jump,
}
impl DivModel {
    pub fn build(self) -> DivAssumptions {
        match self {
            DivModel::NoCash => DivAssumptions::NoCashDivs,
            DivModel::Independent => DivAssumptions::IndependentLogNormals,
            DivModel::Fixed => DivAssumptions::FixedDivs,
            DivModel::Jump => DivAssumptions::JumpDivs,
        }
    }
}

/// A surface: flat, by pillars (all flat smiles or all spline smiles), or a decorated one.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Vol {
    Flat { vol: f64, cal: Cal, base: (i32, f64) },
    Pillars { smiles: Vec<((i32, f64), Smile)>, cal: Cal, base: (i32, f64), fwd: Line, cash: Line, model: DivModel },
    Parallel(Box<Vol>, f64),
    TimeScaled(Box<Vol>, f64, f64),
    ConstantExpiry(Box<Vol>, f64, (i32, f64)),
    RollingExpiry(Box<Vol>, f64, (i32, f64)),
    StickyDelta(Box<Vol>, Line),
}

/// Volatilities with the size of the terms each is made of, and the volatility time
#[derive(Clone, Debug)]
pub struct Vols {
    pub vols: Vec<f64>,
    pub size: Vec<f64>,
    pub time: f64,
}

impl Line {
    /// The same line in other units of money
    pub fn in_units(&self, unit: f64) -> Line {
        Line { points: self.points.iter().map(|p| (p.0, p.1 * unit)).collect(), left: self.left, right: self.right }
    }
}

impl Vol {
    /// The same surface over strikes in other units of money
    pub fn in_units(&self, unit: f64) -> Vol {
        let inner = |v: &Vol| Box::new(v.in_units(unit));
        match self {
            Vol::Flat { .. } => self.clone(),
            Vol::Pillars { smiles, cal, base, fwd, cash, model } => Vol::Pillars {
                smiles: smiles
                    .iter()
                    .map(|(at, s)| {
                        let s = match s {
                            Smile::Flat(v) => Smile::Flat(*v),
                            Smile::Spline(p) => Smile::Spline(p.iter().map(|q| (q.0 * unit, q.1)).collect()),
                        };
                        (*at, s)
                    })
                    .collect(),
                cal: cal.clone(),
                base: *base,
                fwd: fwd.in_units(unit),
                cash: cash.in_units(unit),
                model: *model,
            },
            Vol::Parallel(v, b) => Vol::Parallel(inner(v), *b),
            Vol::TimeScaled(v, b, f) => Vol::TimeScaled(inner(v), *b, *f),
            Vol::ConstantExpiry(v, o, b) => Vol::ConstantExpiry(inner(v), *o, *b),
            Vol::RollingExpiry(v, o, b) => Vol::RollingExpiry(inner(v), *o, *b),
            Vol::StickyDelta(v, f) => Vol::StickyDelta(inner(v), f.in_units(unit)),
        }
    }
    pub fn ddf(at: (i32, f64)) -> DateDayFraction {
        DateDayFraction::new(d(at.0), at.1)
    }
    pub fn cal(&self) -> &Cal {
        match self {
            Vol::Flat { cal, .. } | Vol::Pillars { cal, .. } => cal,
            Vol::Parallel(v, _) | Vol::TimeScaled(v, ..) | Vol::ConstantExpiry(v, ..) | Vol::RollingExpiry(v, ..) | Vol::StickyDelta(v, _) => v.cal(),
        }
    }
    pub fn base(&self) -> (i32, f64) {
        match self {
            Vol::Flat { base, .. } | Vol::Pillars { base, .. } => *base,
            Vol::ConstantExpiry(_, _, b) | Vol::RollingExpiry(_, _, b) => *b,
            Vol::Parallel(v, _) | Vol::TimeScaled(v, ..) | Vol::StickyDelta(v, _) => v.base(),
        }
    }
    /// The forward that centres the smile
    pub fn centre(&self) -> Option<&Line> {
        match self {
            Vol::Flat { .. } => None,
            Vol::Pillars { fwd, .. } => Some(fwd),
            Vol::StickyDelta(_, f) => Some(f),
            Vol::Parallel(v, _) | Vol::TimeScaled(v, ..) | Vol::ConstantExpiry(v, ..) | Vol::RollingExpiry(v, ..) => v.centre(),
        }
    }
    pub fn displacement(&self, n: i32) -> f64 {
        match self {
            Vol::Flat { .. } => 0.0,
            Vol::Pillars { cash, model, .. } => match model {
                DivModel::Fixed => cash.at(n),
                DivModel::Jump => f64::NAN,
                _ => 0.0,
            },
            Vol::StickyDelta(..) => f64::NAN,
            Vol::Parallel(v, _) | Vol::TimeScaled(v, ..) | Vol::ConstantExpiry(v, ..) | Vol::RollingExpiry(v, ..) => v.displacement(n),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Vol::Flat { .. } | Vol::Pillars { .. } => 0,
            Vol::Parallel(v, _) | Vol::TimeScaled(v, ..) | Vol::ConstantExpiry(v, ..) | Vol::RollingExpiry(v, ..) | Vol::StickyDelta(v, _) => 1 + v.depth(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Vol::Flat { .. } => "flat",
            Vol::Pillars { smiles, .. } => match smiles[0].1 {
                Smile::Flat(_) => "flat smiles",
                _ => "spline smiles",
            },
            Vol::Parallel(..) => "parallel bump",
            Vol::TimeScaled(..) => "time-scaled bump",
            Vol::ConstantExpiry(..) => "constant expiry",
            Vol::RollingExpiry(..) => "rolling expiry",
            Vol::StickyDelta(..) => "sticky delta",
        }
    }

    /// The reference answer. `None` where the surface has no answer because variance
    /// falls from one pillar to the next.
    pub fn vols(&self, at: (i32, f64), strikes: &[f64]) -> Option<Vols> {
        match self {
            Vol::Flat { vol, cal, base } => {
                let time = cal.year_fraction(*base, at);
                Some(Vols { vols: vec![*vol; strikes.len()], size: vec![*vol; strikes.len()], time })
            }
            Vol::Pillars { smiles, cal, base, fwd, .. } => {
                let time_of = |t: (i32, f64)| cal.year_fraction(*base, t);
                let time = time_of(at);
                let mut vols = Vec::new();
                let mut size = Vec::new();
                let same = |p: &(i32, f64)| p.0 == at.0 && p.1 == at.1;
                if let Some(p) = smiles.iter().find(|p| same(&p.0)) {
                    for k in strikes {
                        let (v, s) = p.1.vol(*k);
                        vols.push(v);
                        size.push(s);
                    }
                    return Some(Vols { vols, size, time });
                }
                let right = smiles.iter().position(|p| p.0 > at);
                let f = fwd.at(at.0);
                let atm = |i: usize| {
                    let f = fwd.at((smiles[i].0).0);
                    (f, smiles[i].1.vol(f).0, time_of(smiles[i].0))
                };
                match right {
                    Some(r) if r > 0 => {
                        let (lf, lv, lt) = atm(r - 1);
                        let (rf, rv, rt) = atm(r);
                        let w = (time - lt) / (rt - lt);
                        let (la, ra) = (lv * lv * lt, rv * rv * rt);
                        let a = la + (ra - la) * w;
                        for k in strikes {
                            let m = (k / f).ln() / a.sqrt();
                            let (v1, s1) = smiles[r - 1].1.vol(lf * (m * la.sqrt()).exp());
                            let (v2, s2) = smiles[r].1.vol(rf * (m * ra.sqrt()).exp());
                            let (x1, x2) = (v1 * v1 * lt, v2 * v2 * rt);
                            if x1 > x2 {
                                return None;
                            }
                            let v = ((x1 + (x2 - x1) * w) / time).sqrt();
                            vols.push(v);
                            // the error of v * v is at most about that of the pillar variances
                            size.push(((s1 * s1 * lt + s2 * s2 * rt) / time) / v.max(1e-8));
                        }
                    }
                    _ => {
                        let i = if right == Some(0) { 0 } else { smiles.len() - 1 };
                        let (pf, pv, pt) = atm(i);
                        for k in strikes {
                            if time <= 0.0 {
                                vols.push(pv);
                                size.push(pv.abs());
                                continue;
                            }
                            let m = (k / f).ln() / time.sqrt();
                            let (v, s) = smiles[i].1.vol(pf * (m * pt.sqrt()).exp());
                            vols.push(v);
                            size.push(s);
                        }
                    }
                }
                Some(Vols { vols, size, time })
            }
            Vol::Parallel(v, b) => {
                let mut r = v.vols(at, strikes)?;
                for x in r.vols.iter_mut() {
                    *x = (*x + b).max(0.0);
                }
                Some(r)
            }
            Vol::TimeScaled(v, b, floor) => {
                let mut r = v.vols(at, strikes)?;
                let add = b / r.time.max(*floor).sqrt();
                for x in r.vols.iter_mut() {
                    *x = (*x + add).max(0.0);
                }
                Some(r)
            }
            Vol::ConstantExpiry(v, offset, _) => {
                let mut r = v.vols(at, strikes)?;
                r.time = (r.time - offset).max(0.0);
                Some(r)
            }
            Vol::RollingExpiry(v, offset, _) => {
                let days = -offset * v.cal().basis();
                let rolled = partial_step(v.cal(), at.0, days, days >= 0.0);
                let mut r = v.vols((rolled, at.1), strikes)?;
                r.time = r.time.max(0.0);
                Some(r)
            }
            Vol::StickyDelta(v, f) => match v.centre() {
                None => v.vols(at, strikes),
                Some(old) => {
                    let k: Vec<f64> = strikes.iter().map(|k| k * old.at(at.0) / f.at(at.0)).collect();
                    v.vols(at, &k)
                }
            },
        }
    }
    pub fn variance(&self, at: (i32, f64), k: f64) -> Option<(f64, f64)> {
        let r = self.vols(at, &[k])?;
        let scale = r.size[0] + r.vols[0].abs();
        Some((r.time * r.vols[0] * r.vols[0], r.time.abs() * r.size[0].max(r.vols[0].abs()) * scale))
    }
    /// Reference forward variance, the size of its terms, and the least it is made of:
    /// the library gives an error if that is negative. `None` if variance falls between
    /// pillars.
    pub fn forward_variance(&self, from: (i32, f64), to: (i32, f64), k: f64) -> Option<(f64, f64, f64)> {
        if from <= self.base() {
            let (v, s) = self.variance(to, k)?;
            return Some((v, s, v));
        }
        match self.centre() {
            None => {
                let (a, s) = self.variance(from, k)?;
                let (b, t) = self.variance(to, k)?;
                Some((b - a, s + t, b - a))
            }
            Some(f) => {
                let (a, s1) = self.variance(from, f.at(from.0))?;
                let (b, s2) = self.variance(to, f.at(to.0))?;
                let days = self.cal().count(from.0, from.1, to.0, to.1);
                let n = partial_step(self.cal(), self.base().0, days, true);
                let smile = (n, to.1);
                let (c, s3) = self.variance(smile, f.at(n))?;
                let (x, s4) = self.variance(smile, k)?;
                let v = x - c + (b - a);
                Some((v, s1 + s2 + s3 + s4, v.min(b - a)))
            }
        }
    }

    pub fn build(&self) -> Result<RcVolSurface, quantmath::core::qm::Error> {
        Ok(match self {
            Vol::Flat { vol, cal, base } => Qrc::new(Arc::new(FlatVolSurface::new(*vol, cal.build(), Vol::ddf(*base)))),
            Vol::Pillars { smiles, cal, base, fwd, cash, model } => match smiles[0].1 {
                Smile::Flat(_) => {
                    let mut s = Vec::new();
                    for (at, x) in smiles {
                        if let Smile::Flat(v) = x {
                            s.push((Vol::ddf(*at), FlatSmile::new(*v)?));
                        }
                    }
                    Qrc::new(Arc::new(VolByProbabilityFlatSmile::new(&s, cal.build(), Vol::ddf(*base), fwd.build(), cash.build(), model.build())?))
                }
                Smile::Spline(_) => {
                    let mut s = Vec::new();
                    for (at, x) in smiles {
                        if let Smile::Spline(p) = x {
                            s.push((Vol::ddf(*at), CubicSplineSmile::new(p)?));
                        }
                    }
                    Qrc::new(Arc::new(VolByProbabilityCubicSplineSmile::new(&s, cal.build(), Vol::ddf(*base), fwd.build(), cash.build(), model.build())?))
                }
            },
            Vol::Parallel(v, b) => Qrc::new(Arc::new(ParallelBumpVol::new(v.build()?, *b))),
            Vol::TimeScaled(v, b, f) => Qrc::new(Arc::new(TimeScaledBumpVol::new(v.build()?, *b, *f))),
            Vol::ConstantExpiry(v, o, b) => Qrc::new(Arc::new(ConstantExpiryTimeEvolution::new(v.build()?, *o, Vol::ddf(*b)))),
            Vol::RollingExpiry(v, o, b) => Qrc::new(Arc::new(RollingExpiryTimeEvolution::new(v.build()?, *o, Vol::ddf(*b)))),
            Vol::StickyDelta(v, f) => Qrc::new(Arc::new(StickyDeltaBumpVol::new(v.build()?, f.forward()))),
        })
    }
}

pub fn flat_vol(base: (i32, f64), cal: BoxedStrategy<Cal>) -> BoxedStrategy<Vol> {
    (dec(0.01, 0.8, 4), cal).prop_map(move |(vol, cal)| Vol::Flat { vol, cal, base }).boxed()
}

/// Pillars whose total variance grows, with smiles around the forward. Pillar times are
/// distinct and positive in volatility time.
pub fn pillar_vol(base: (i32, f64), level: f64, cal: BoxedStrategy<Cal>) -> BoxedStrategy<Vol> {
    let ticks = vec((prop_oneof![5i32..40, 5i32..300], dec(0.0, 0.9, 1)), 1..5);
    let cash = prop_oneof![
        Just(vec![(base.0, 0.0)]),
        Just(vec![(base.0, (level * 0.05 * 100.0).round() / 100.0), (base.0 + 500, 0.0)]),
    ];
    let model = prop_oneof![Just(DivModel::NoCash), Just(DivModel::Independent), Just(DivModel::Fixed)];
    (ticks, any::<bool>(), cal, line(base.0, level, 1.15), cash, model)
        .prop_flat_map(move |(ticks, spline, cal, fwd, cash, model)| {
            let k = ticks.len();
            let shape = (dec(0.15, 0.4, 3), dec(-0.04, 0.02, 3), dec(0.0, 0.03, 3), 4usize..7);
            (Just(ticks), Just(spline), Just(cal), Just(fwd), Just(cash), Just(model), vec(shape, k..=k))
        })
        .prop_map(move |(ticks, spline, cal, fwd, cash, model, shapes)| {
            let mut smiles = Vec::new();
            let mut n = base.0;
            let mut total = 0.0; // at the money variance so far, roughly
            for ((gap, f), (vol, skew, curve, points)) in ticks.into_iter().zip(shapes) {
                let last = cal.year_fraction(base, smiles.last().map(|s: &((i32, f64), Smile)| s.0).unwrap_or(base));
                n += gap;
                while cal.year_fraction(base, (n, f)) < last + 1e-6 {
                    n += 1;
                }
                let t = cal.year_fraction(base, (n, f)).max(1e-3);
                // keep total variance growing by raising the volatility where needed
                let least = (total * 1.05 / t).sqrt();
                let v = ((vol.max(least)) * 1000.0).ceil() / 1000.0;
                total = v * v * t;
                let smile = if spline {
                    let width = (0.25 * t.sqrt()).max(0.05).min(0.6);
                    let p: Vec<(f64, f64)> = (0..points)
                        .map(|i| {
                            let z = -1.0 + 2.0 * i as f64 / (points - 1) as f64;
                            let k = (level * (1.0 + width * z) * 100.0).round() / 100.0;
                            (k, ((v + skew * z + curve * z * z) * 10000.0).round() / 10000.0)
                        })
                        .collect();
                    Smile::Spline(p)
                } else {
                    Smile::Flat(v)
                };
                smiles.push(((n, f), smile));
            }
            Vol::Pillars { smiles, cal: cal.clone(), base, fwd, cash: Line { points: cash, left: Ex::Flat, right: Ex::Flat }, model }
        })
        .boxed()
}
