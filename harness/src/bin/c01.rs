//! C01: restoring a saved bump brings back every price exactly.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::*;
use quantmath::instruments::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Bump(Bp),
    Restore,
    /// restore, then clear
    Reset,
    /// keep the bumped state as the new starting point
    Clear,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    ops: Vec<Op>,
}

/// What restoring is exercised on
enum Subject {
    Context(Box<dyn BumpablePricingContext>, RcInstrument),
    Pricer(Box<dyn Pricer>),
}
impl Subject {
    fn bumpable(&mut self) -> &mut dyn Bumpable {
        match self {
            Subject::Context(c, _) => c.as_mut_bumpable(),
            Subject::Pricer(p) => p.as_mut_bumpable(),
        }
    }
    /// Everything that can be asked of it
    fn state(&mut self, c: &Case, names: &[usize]) -> Vec<(String, f64)> {
        let n = c.market.date;
        let far = c.instr.options().iter().filter(|o| names.contains(&o.under)).map(|o| o.expiry.0).min().unwrap_or(n);
        let at = [n, n + (far - n) / 2, far];
        let mut s = probe(self.bumpable().context(), &c.market, names, &at);
        let p = match self {
            Subject::Context(ctx, i) => i.as_priceable().unwrap().price(ctx.as_pricing_context(), moment((n, Tod::Open))),
            Subject::Pricer(p) => p.price(),
        };
        s.push(("price".to_string(), p.unwrap_or(f64::NAN)));
        s
    }
}

fn history(c: &Case, mut subject: Subject, names: &[usize], simulated: bool, obs: &mut Obs) -> R {
    let mut start = subject.state(c, names);
    let mut save = subject.bumpable().new_saveable();
    let mut moved = false;
    let mut spec = c.market.clone();
    let mut base = spec.clone();
    for (k, op) in c.ops.iter().chain([Op::Restore].iter()).enumerate() {
        match op {
            Op::Bump(b) => {
                let before = subject.state(c, names);
                let there = b.apply(&mut spec);
                let found = match subject.bumpable().bump(&b.build(), Some(&mut *save)) {
                    Ok(x) => x,
                    Err(e) => {
                        if simulated && !c.instr.options().iter().all(|o| simulates(&spec, o)) {
                            obs.count("bumped market cannot be simulated", 1);
                            return Ok(());
                        }
                        if there {
                            bail!("bump-fails", "bump {} ({:?}) fails: {}", k, b, e);
                        }
                        false
                    }
                };
                let after = subject.state(c, names);
                let change = differs(&after, &before, 0.0);
                moved |= change.is_some();
                ensure!(found == there, "found", "bump {} ({:?}) reports {}", k, b, found);
                if !there {
                    obs.tag("absent");
                    ensure!(change.is_none(), "absent", "bumping the absent {:?} changes {}", b, change.unwrap());
                }
            }
            Op::Restore | Op::Reset => {
                spec = base.clone();
                subject.bumpable().restore(&*save)?;
                if let Some(e) = differs(&subject.state(c, names), &start, 0.0) {
                    bail!("restore", "after restoring at step {}: {}", k, e);
                }
                if let Op::Reset = op {
                    save.clear();
                    subject.bumpable().restore(&*save)?;
                    if let Some(e) = differs(&subject.state(c, names), &start, 0.0) {
                        bail!("cleared", "after restoring from a cleared area at step {}: {}", k, e);
                    }
                }
            }
            Op::Clear => {
                base = spec.clone();
                start = subject.state(c, names);
                save.clear();
            }
        }
    }
    obs.nontrivial_if(moved);
    Ok(())
}

fn option_names(i: &Instr) -> Vec<usize> {
    let mut v: Vec<usize> = i.options().iter().map(|o| o.under).collect();
    v.sort();
    v.dedup();
    v
}

fn collect(m: &Market, i: &RcInstrument) -> Arc<DependencyCollector> {
    let mut c = DependencyCollector::new(d(m.date));
    c.spot(i);
    Arc::new(c)
}

fn raw(c: &Case, obs: &mut Obs) -> R {
    let all: Vec<usize> = (0..c.market.names.len()).collect();
    history(c, Subject::Context(Box::new(c.market.build()?), c.instr.build(&c.market)?), &all, false, obs)
}

fn prefetched(c: &Case, obs: &mut Obs) -> R {
    let i = c.instr.build(&c.market)?;
    let p = PricingContextPrefetch::new(&c.market.build()?, collect(&c.market, &i))?;
    let n = c.instr.options();
    obs.tag_if(n.iter().enumerate().any(|(i, o)| n[..i].iter().any(|x| x.under == o.under)), "several options on one name");
    history(c, Subject::Context(Box::new(p), i), &option_names(&c.instr), false, obs)
}

fn pricer(c: &Case, f: &dyn PricerFactory, simulated: bool, obs: &mut Obs) -> R {
    let md = RcMarketData::new(Arc::new(c.market.build()?));
    let p = f.new(c.instr.build(&c.market)?, FixTable::none(c.market.date).rc()?, md)?;
    history(c, Subject::Pricer(p), &option_names(&c.instr), simulated, obs)
}

fn analytic(c: &Case, obs: &mut Obs) -> R {
    pricer(c, &SelfPricerFactory::new(), false, obs)
}

fn monte_carlo(c: &Case, obs: &mut Obs) -> R {
    let m = RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(1, 0.05, 8)));
    pricer(c, &MonteCarloPricerFactory::new(m), true, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Several {
    market: Market,
    at: Vec<Moment>,
    rho: f64,
    ops: Vec<Op>,
}

/// Paths of several names simulated together
fn several(c: &Several, obs: &mut Obs) -> R {
    let mut spec = c.market.clone();
    let mut base = spec.clone();
    let md = c.market.build()?;
    let names: Vec<RcInstrument> = (0..spec.names.len()).map(|i| spec.equity(i)).collect();
    let at: Vec<DateDayFraction> = c.at.iter().map(|x| DateDayFraction::new(d(x.0), fraction(x.1))).collect();
    let last = at.last().unwrap().date();
    let usable = |m: &Market| m.build().map(|md| names.iter().all(|e| points(&md, e, &at).map(|p| possible(&p)).unwrap_or(false))).unwrap_or(false);
    if !usable(&spec) {
        obs.count("no variance to simulate", 1);
        return Ok(());
    }
    let mut needed = DependencyCollector::new(md.spot_date());
    let mut timeline = MonteCarloTimeline::new(md.spot_date());
    for e in &names {
        needed.forward_curve(e, last);
        needed.vol_surface(e, last);
        for x in &at {
            timeline.observation(e, *x);
        }
    }
    timeline.collate()?;
    let ctx = Box::new(Together { inner: PricingContextPrefetch::new(&md, Arc::new(needed))?, rho: c.rho });
    let mut model = BlackDiffusionFactory::new(1, 0.5, 5).factory(&timeline, ctx)?;
    let list: Vec<usize> = (0..names.len()).collect();
    let fetch = |model: &Box<dyn MonteCarloModel>| {
        let mut s = probe(model.as_bumpable().context(), &c.market, &list, &[c.market.date, last.truncated_julian()]);
        for (i, e) in names.iter().enumerate() {
            if let Ok(p) = model.as_mc_context().paths(e) {
                s.extend(p.iter().map(|x| (format!("path of {}", i), *x)));
            }
        }
        s
    };
    let mut start = fetch(&model);
    let mut save = model.as_bumpable().new_saveable();
    let mut moved = vec![false; names.len()];
    for (k, op) in c.ops.iter().chain([Op::Restore].iter()).enumerate() {
        match op {
            Op::Bump(b) => {
                b.apply(&mut spec);
                let done = model.as_mut_bumpable().bump(&b.build(), Some(&mut *save));
                if !usable(&spec) {
                    obs.count("bumped market cannot be simulated", 1);
                    return Ok(());
                }
                done?;
                let now = fetch(&model);
                for (i, m) in moved.iter_mut().enumerate() {
                    let what = format!("path of {}", i);
                    *m |= now.iter().zip(&start).any(|(x, y)| x.0 == what && !same_bits(x.1, y.1));
                }
            }
            Op::Clear => {
                base = spec.clone();
                start = fetch(&model);
                save.clear();
            }
            Op::Restore | Op::Reset => {
                spec = base.clone();
                model.as_mut_bumpable().restore(&*save)?;
                if let Op::Reset = op {
                    save.clear();
                }
                if let Some(e) = differs(&fetch(&model), &start, 0.0) {
                    bail!("restore", "after restoring at step {}: {}", k, e);
                }
            }
        }
    }
    let n = moved.iter().filter(|x| **x).count();
    obs.nontrivial_if(n > 0);
    obs.tag_if(n > 1, "several names moved");
    Ok(())
}

fn several_cases() -> BoxedStrategy<Several> {
    market(WILD)
        .prop_flat_map(|m| {
            let ops = ops(&m, 7);
            let at = vec((1i32..900, prop_oneof![Just(Tod::Open), Just(Tod::Close)]), 1..4);
            (Just(m), at, dec(-0.4, 0.9, 2), ops)
        })
        .prop_map(|(market, mut at, rho, ops)| {
            at.sort_by_key(|x| x.0);
            at.dedup_by_key(|x| x.0);
            let at = at.into_iter().map(|(n, t)| (market.date + n, t)).collect();
            Several { market, at, rho, ops }
        })
        .boxed()
}

/// Bumps that leave every surface usable: a refusal in mid-bump is no subject here
fn ops(m: &Market, len: usize) -> BoxedStrategy<Vec<Op>> {
    let b = bump(m.names.len(), m.curves.len());
    vec(prop_oneof![8 => b.prop_map(Op::Bump), 1 => Just(Op::Restore), 1 => Just(Op::Reset), 1 => Just(Op::Clear)], 1..len).boxed()
}

fn cases() -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let i = prop_oneof![3 => instrument(&m), 2 => {
                let l = option(&m, true).prop_map(Instr::Opt).boxed();
                basket_of(&m, l, 2..5)
            }];
            let o = ops(&m, 9);
            (Just(m), i, o)
        })
        .prop_map(|(market, instr, ops)| Case { market, instr, ops })
        .boxed()
}

/// One option, on surfaces without smiles so that no bump makes variance fall
fn mc_cases() -> BoxedStrategy<Case> {
    market(Wild { smiles: false, ..WILD })
        .prop_flat_map(|m| {
            let o = option(&m, true).prop_map(Instr::Opt);
            let ops = ops(&m, 7);
            (Just(m), o, ops)
        })
        .prop_map(|(market, instr, ops)| Case { market, instr, ops })
        .boxed()
}

fn main() {
    Check::new("C01")
        .assume("every bump between two clears of the save area is recorded in it; the spot date stays put")
        .sub("raw", 41000, 820000, "some bump changes something", cases, raw)
        .sub("prefetched", 41000, 830000, "some bump changes something", cases, prefetched)
        .sub("analytic", 38000, 770000, "some bump changes something", cases, analytic)
        .sub("monte-carlo", 57000, 1100000, "some bump changes something", mc_cases, monte_carlo)
        .sub("several", 40000, 800000, "some bump changes some path", several_cases, several)
        .main()
}
