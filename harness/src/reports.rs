//! Report generators and reports as plain values.

use crate::frame::Fail;
use crate::portfolio::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::data::bumpvol::BumpVol;
use quantmath::instruments::RcInstrument;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::*;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::timebumped::*;
use quantmath::risk::vegavolga::*;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Gen {
    Delta(f64),
    Vega(f64),
    VegaTime(f64, f64),
    /// the date, sticky forward, and what to report there
    Time(i32, bool, Vec<Gen>),
}

pub fn dynamics(sticky_forward: bool) -> SpotDynamics {
    if sticky_forward {
        SpotDynamics::StickyForward
    } else {
        SpotDynamics::StickySpot
    }
}

impl Gen {
    pub fn vol_bump(&self) -> Option<BumpVol> {
        match *self {
            Gen::Vega(b) => Some(BumpVol::new_flat_additive(b)),
            Gen::VegaTime(b, f) => Some(BumpVol::new_time_scaled(b, f)),
            _ => None,
        }
    }
    pub fn build(&self) -> RcReportGenerator {
        match self {
            Gen::Delta(b) => RcReportGenerator::new(Arc::new(DeltaGammaReportGenerator::new(*b))),
            Gen::Vega(_) | Gen::VegaTime(..) => RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(self.vol_bump().unwrap()))),
            Gen::Time(n, sticky, list) => {
                let mut g = TimeBumpedReportGenerator::new(BumpTime::new(d(*n), d(*n), dynamics(*sticky)));
                for x in list {
                    g.add(x.build());
                }
                RcReportGenerator::new(Arc::new(g))
            }
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Gen::Time(_, _, l) => 1 + l.iter().map(|g| g.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Gen::Time(_, _, l) => 1 + l.iter().map(|g| g.count()).sum::<usize>(),
            _ => 1,
        }
    }
    /// The smallest bump in it
    pub fn least(&self) -> f64 {
        match self {
            Gen::Delta(b) | Gen::Vega(b) | Gen::VegaTime(b, _) => *b,
            Gen::Time(_, _, l) => l.iter().map(|g| g.least()).fold(1.0, f64::min),
        }
    }
    /// Numbers of reports of each kind down the tree
    pub fn any(&self, f: &dyn Fn(&Gen) -> bool) -> bool {
        f(self)
            || match self {
                Gen::Time(_, _, l) => l.iter().any(|g| g.any(f)),
                _ => false,
            }
    }
}

pub fn greek() -> BoxedStrategy<Gen> {
    let size = || prop_oneof![2 => Just(0.01), 2 => Just(0.001), 3 => dec(0.0005, 0.1, 4)].boxed();
    prop_oneof![3 => size().prop_map(Gen::Delta), 2 => size().prop_map(Gen::Vega), 1 => (size(), dec(0.05, 1.0, 2)).prop_map(|(b, f)| Gen::VegaTime(b, f))].boxed()
}

/// Generators for a market on `date`; the moments of interest are dates worth crossing
pub fn generator(date: i32, interest: &[i32]) -> BoxedStrategy<Gen> {
    let mut dates: Vec<i32> = interest.iter().flat_map(|n| vec![*n, n + 1]).filter(|n| *n >= date).collect();
    dates.push(date + 1);
    let when = prop_oneof![3 => prop::sample::select(dates), 2 => date..date + 5, 1 => date..date + 500].boxed();
    greek().prop_recursive(2, 8, 3, move |g| (when.clone(), any::<bool>(), vec(g, 0..3)).prop_map(|(n, s, l)| Gen::Time(n, s, l)).boxed()).boxed()
}

// ------------------------------------------------------------------ reports

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rep {
    Delta(f64, BTreeMap<String, (f64, f64)>),
    Vega(f64, BTreeMap<String, (f64, f64)>),
    Time(f64, f64, Vec<Rep>),
}

impl Rep {
    pub fn json(&self) -> Value {
        let table = |b: &f64, t: &BTreeMap<String, (f64, f64)>, x: &str, y: &str| {
            let r: serde_json::Map<String, Value> = t.iter().map(|(k, v)| (k.clone(), json!({ x: v.0, y: v.1 }))).collect();
            json!({"bumpsize": b, "results": r})
        };
        match self {
            Rep::Delta(b, t) => json!({ "DeltaGammaReport": table(b, t, "delta", "gamma") }),
            Rep::Vega(b, t) => json!({ "VegaVolgaReport": table(b, t, "vega", "volga") }),
            Rep::Time(p, t, s) => json!({ "TimeBumpedReport": {"price": p, "theta": t, "subreports": s.iter().map(|r| r.json()).collect::<Vec<_>>()} }),
        }
    }
    pub fn build(&self) -> Result<BoxReport, Fail> {
        Ok(serde_json::from_value(self.json())?)
    }
    /// Read through the public accessors; bump sizes are not accessible and left at zero
    pub fn of(r: &BoxReport) -> Rep {
        if let Some(x) = r.as_any().downcast_ref::<DeltaGammaReport>() {
            return Rep::Delta(0.0, x.results().iter().map(|(k, v)| (k.clone(), (v.delta(), v.gamma()))).collect());
        }
        if let Some(x) = r.as_any().downcast_ref::<VegaVolgaReport>() {
            return Rep::Vega(0.0, x.results().iter().map(|(k, v)| (k.clone(), (v.vega(), v.volga()))).collect());
        }
        let x = r.as_any().downcast_ref::<TimeBumpedReport>().expect("a known kind of report");
        Rep::Time(x.price(), x.theta(), x.subreports().iter().map(Rep::of).collect())
    }
    /// All numbers with labels
    pub fn numbers(&self, at: &str, out: &mut Vec<(String, f64)>) {
        match self {
            Rep::Delta(_, t) => {
                for (k, v) in t {
                    out.push((format!("{}delta {}", at, k), v.0));
                    out.push((format!("{}gamma {}", at, k), v.1));
                }
            }
            Rep::Vega(_, t) => {
                for (k, v) in t {
                    out.push((format!("{}vega {}", at, k), v.0));
                    out.push((format!("{}volga {}", at, k), v.1));
                }
            }
            Rep::Time(p, t, s) => {
                out.push((format!("{}price", at), *p));
                out.push((format!("{}theta", at), *t));
                for (i, r) in s.iter().enumerate() {
                    r.numbers(&format!("{}{}/", at, i), out);
                }
            }
        }
    }
}

pub fn self_pricer(m: &Market, i: &RcInstrument, t: &FixTable) -> Result<Box<dyn Pricer>, Fail> {
    Ok(SelfPricerFactory::new().new(i.clone(), t.rc()?, RcMarketData::new(Arc::new(m.build()?)))?)
}

/// The sum of weights times the scale of what they multiply, for tolerances
pub fn size(m: &Market, i: &Instr) -> f64 {
    let s: f64 = m.names.iter().map(|n| n.spot).fold(1.0, f64::max);
    1.0 + i.leaves().iter().map(|(w, i)| {
        w.abs() * match i {
            Instr::Opt(Opt { terms: Terms::Strike(k), .. }) => s + k,
            Instr::Opt(_) | Instr::Equity(_) => 3.0 * s,
            _ => 2.0,
        }
    }).sum::<f64>()
}
