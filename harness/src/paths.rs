//! What a simulation is to follow: the market at the observations of an option.
use crate::*;
use quantmath::core::qm;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::instruments::*;
use quantmath::data::bump::Bump;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::Date;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::*;
use std::ops::Deref;
use std::sync::Arc;

/// What the market says of the underlying at an observation
#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub forward: f64,
    pub displacement: f64,
    pub variance: f64,
}

pub fn observations(o: &Opt) -> Vec<DateDayFraction> {
    let at = |m: Moment| DateDayFraction::new(d(m.0), fraction(m.1));
    match o.terms {
        Terms::Strike(_) => vec![at(o.expiry)],
        Terms::Start { date, .. } => vec![at(date), at(o.expiry)],
    }
}

pub fn points(ctx: &dyn PricingContext, equity: &RcInstrument, obs: &[DateDayFraction]) -> Result<Vec<Point>, qm::Error> {
    let hwm = obs.last().unwrap().date();
    let fwd = ctx.forward_curve(equity.deref(), hwm)?;
    let vol = ctx.vol_surface(equity.deref(), hwm, &|| Ok(fwd.clone()))?;
    let mut out = Vec::new();
    for o in obs {
        let forward = fwd.forward(o.date())?;
        out.push(Point { forward, displacement: vol.displacement(o.date())?, variance: vol.variance(*o, forward)? });
    }
    Ok(out)
}

/// Variance over each step
pub fn steps(p: &[Point]) -> Vec<f64> {
    let mut last = 0.0;
    p.iter()
        .map(|x| {
            let v = x.variance - last;
            last = x.variance;
            v
        })
        .collect()
}

/// The variance over every step is as it should be, so that a simulation is possible. (One of
/// variance in the thousands needs too much memory.)
pub fn possible(p: &[Point]) -> bool {
    steps(p).iter().all(|v| *v >= 0.0 && *v < 100.0) && p.iter().all(|x| x.forward.is_finite())
}

/// Whether one underlying of an option can be simulated in a market
pub fn simulates(m: &Market, o: &Opt) -> bool {
    match m.build().and_then(|md| points(&md, &m.equity(o.under), &observations(o))) {
        Ok(p) => possible(&p),
        Err(_) => false,
    }
}

/// A market in which any two names have the same correlation. (That of the library has none.)
#[derive(Clone)]
pub struct Together {
    pub inner: PricingContextPrefetch,
    pub rho: f64,
}
impl PricingContext for Together {
    fn spot_date(&self) -> Date {
        self.inner.spot_date()
    }
    fn yield_curve(&self, id: &str, hwm: Date) -> Result<RcRateCurve, qm::Error> {
        self.inner.yield_curve(id, hwm)
    }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> {
        self.inner.spot(id)
    }
    fn forward_curve(&self, i: &dyn Instrument, hwm: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        self.inner.forward_curve(i, hwm)
    }
    fn vol_surface(&self, i: &dyn Instrument, hwm: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        self.inner.vol_surface(i, hwm, f)
    }
    fn correlation(&self, _: &dyn Instrument, _: &dyn Instrument) -> Result<f64, qm::Error> {
        Ok(self.rho)
    }
}
impl Bumpable for Together {
    fn bump(&mut self, b: &Bump, save: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> {
        self.inner.bump(b, save)
    }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> {
        self.inner.dependencies()
    }
    fn context(&self) -> &dyn PricingContext {
        self
    }
    fn new_saveable(&self) -> Box<dyn Saveable> {
        self.inner.new_saveable()
    }
    fn restore(&mut self, saved: &dyn Saveable) -> Result<(), qm::Error> {
        self.inner.restore(saved)
    }
}
impl BumpablePricingContext for Together {
    fn as_bumpable(&self) -> &dyn Bumpable {
        self
    }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable {
        self
    }
    fn as_pricing_context(&self) -> &dyn PricingContext {
        self
    }
    fn raw_market_data(&self) -> &MarketData {
        self.inner.raw_market_data()
    }
}
