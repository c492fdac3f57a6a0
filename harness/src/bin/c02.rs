//! C02: prefetched pricing always equals pricing straight from market data.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspotdate::*;
use quantmath::instruments::*;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Bump(Bp, bool),
    Restore,
    /// days forward, sticky forward
    Date(i32, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    ops: Vec<Op>,
}

fn date_bump(n: i32, sticky_forward: bool) -> BumpSpotDate {
    BumpSpotDate::new(d(n), if sticky_forward { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot })
}

/// The prefetched context against the market data it holds and against market data that
/// went through the same history.
fn same(c: &Case, when: &str, p: &PricingContextPrefetch, twin: &MarketData, deps: &DependencyCollector, i: &RcInstrument) -> R {
    let now = p.spot_date().truncated_julian();
    let mut names: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    names.sort();
    names.dedup();
    for raw in [p.raw_market_data(), twin] {
        for k in &names {
            let far = deps.forward_curve_hwm(&c.market.equity(*k)).unwrap().truncated_julian();
            let at = [now, now + (far - now) / 3, far];
            // on the forward, at dates up to the one declared
            let (a, b) = (probe(p, &c.market, &[*k], &at), probe(raw, &c.market, &[*k], &at));
            if let Some(e) = differs(&a, &b, 0.0) {
                bail!("context", "{}, prefetched: {}", when, e);
            }
        }
        let (a, b) = (probe(p, &c.market, &[], &[now]), probe(raw, &c.market, &[], &[now]));
        if let Some(e) = differs(&a, &b, 0.0) {
            bail!("context", "{}, prefetched: {}", when, e);
        }
        let at = (now, Tod::Open);
        let (a, b) = (prices(i, p, &[at]), prices(i, raw, &[at]));
        match (&a, &b) {
            (Ok(x), Ok(y)) => ensure!(same_bits(x[0], y[0]), "price", "{}: {} prefetched, {} from market data", when, x[0], y[0]),
            (Err(_), Err(_)) => {}
            _ => bail!("price", "{}: {:?} prefetched, {:?} from market data", when, a, b),
        }
    }
    Ok(())
}

fn history(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let i = c.instr.build(&c.market)?;
    let mut deps = DependencyCollector::new(d(c.market.date));
    deps.spot(&i);
    let deps = Arc::new(deps);
    let mut p = PricingContextPrefetch::new(&md, deps.clone())?;
    let mut twin = md.clone();
    let mut pricer = SelfPricerFactory::new().new(i.clone(), FixTable::none(c.market.date).rc()?, RcMarketData::new(Arc::new(md)))?;
    same(c, "at first", &p, &twin, &deps, &i)?;
    let mut saves = (p.new_saveable(), twin.new_saveable(), pricer.as_bumpable().new_saveable());
    let mut spec = c.market.clone();
    // no date may pass a fixing
    let limit = c.instr.options().iter().map(|o| match o.terms {
        Terms::Start { date, .. } => date.0.min(o.expiry.0),
        _ => o.expiry.0,
    }).min().unwrap_or(c.market.date + 1000);
    let (mut moved, mut dated) = (0, false);
    for (k, op) in c.ops.iter().enumerate() {
        let when = format!("after step {} ({:?})", k, op);
        match op {
            Op::Bump(b, save) => {
                let bump = b.build();
                let there = b.apply(&mut spec);
                let found = if *save {
                    [p.bump(&bump, Some(&mut *saves.0))?, twin.bump(&bump, Some(&mut *saves.1))?, pricer.as_mut_bumpable().bump(&bump, Some(&mut *saves.2))?]
                } else {
                    // a restore must not straddle a bump it does not know of
                    saves.0.clear();
                    saves.1.clear();
                    saves.2.clear();
                    [p.bump(&bump, None)?, twin.bump(&bump, None)?, pricer.as_mut_bumpable().bump(&bump, None)?]
                };
                ensure!(found == [there; 3], "found", "{} the prefetched context, market data and pricer report {:?}", when, found);
                moved += there as usize;
            }
            Op::Restore => {
                p.restore(&*saves.0)?;
                twin.restore(&*saves.1)?;
                pricer.as_mut_bumpable().restore(&*saves.2)?;
            }
            Op::Date(days, sticky) => {
                let now = twin.spot_date().truncated_julian();
                let then = (now + days).min(limit);
                let b = date_bump(then, *sticky);
                // the save area holds what belongs to the old date
                saves.0.clear();
                saves.1.clear();
                saves.2.clear();
                let bump = Bump::new_spot_date(date_bump(then, *sticky));
                let found = [p.bump(&bump, None)?, pricer.as_mut_bumpable().bump(&bump, None)?];
                ensure!(found == [then != now; 2], "found", "{} the prefetched context and pricer report {:?}", when, found);
                if then != now {
                    twin.bump_spot_date(&b, &deps)?;
                }
                dated |= then != now;
            }
        }
        same(c, &when, &p, &twin, &deps, &i)?;
        let at = (p.spot_date().truncated_julian(), Tod::Open);
        match (pricer.price(), prices(&i, &twin, &[at])) {
            (Ok(x), Ok(y)) => ensure!(close(x, y[0], 1e-13), "pricer", "{}: the pricer gives {}, market data {}", when, x, y[0]),
            (Err(_), Err(_)) => obs.tag("not priceable"),
            (a, b) => bail!("pricer", "{}: the pricer gives {:?}, market data {:?}", when, a, b),
        }
    }
    obs.nontrivial_if(moved > 1 && !c.instr.options().is_empty());
    obs.tag_if(dated, "spot date moved");
    obs.tag_if(c.ops.iter().any(|o| matches!(o, Op::Restore)), "restored");
    Ok(())
}

/// Quantities the instruments did not ask for are refused, not made up.
fn undeclared(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let i = c.instr.build(&c.market)?;
    let mut deps = DependencyCollector::new(d(c.market.date));
    deps.spot(&i);
    let p = PricingContextPrefetch::new(&md, Arc::new(deps))?;
    let hwm = d(c.market.date + 10);
    for k in 0..c.market.names.len() {
        let e = c.market.equity(k);
        if c.instr.options().iter().any(|o| o.under == k) {
            continue;
        }
        obs.nontrivial();
        if let Ok(f) = p.forward_curve(&*e, hwm) {
            let (a, b) = (f.forward(hwm)?, md.forward_curve(&*e, hwm)?.forward(hwm)?);
            ensure!(same_bits(a, b), "undeclared", "an undeclared forward of {} is {} not {}", k, a, b);
        }
        if let Ok(v) = p.vol_surface(&*e, hwm, &|| md.forward_curve(&*e, hwm)) {
            let w = md.vol_surface(&*e, hwm, &|| md.forward_curve(&*e, hwm))?;
            let at = quantmath::dates::datetime::DateDayFraction::new(hwm, 0.5);
            let (a, b) = (v.variance(at, 90.0)?, w.variance(at, 90.0)?);
            ensure!(same_bits(a, b), "undeclared", "an undeclared variance of {} is {} not {}", k, a, b);
        }
    }
    Ok(())
}

fn cases() -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let i = prop_oneof![2 => instrument(&m), 3 => {
                let l = prop_oneof![3 => option(&m, true).prop_map(Instr::Opt), 1 => leaf(&m)].boxed();
                basket_of(&m, l, 1..5)
            }];
            let b = bump(m.names.len(), m.curves.len());
            let op = prop_oneof![6 => (b, any::<bool>()).prop_map(|(b, s)| Op::Bump(b, s)), 2 => Just(Op::Restore), 2 => (prop_oneof![0..3i32, 0..200i32], any::<bool>()).prop_map(|(n, s)| Op::Date(n, s))];
            (Just(m), i, vec(op, 1..9))
        })
        .prop_map(|(market, instr, ops)| Case { market, instr, ops })
        .boxed()
}

fn main() {
    Check::new("C02")
        .assume("the spot date does not move past a strike or expiry date, which is for time bumps (C05); the save area is cleared when the date moves or a bump is not recorded in it")
        .sub("history", 48000, 960000, "two bumps of items that are there, and an option", cases, history)
        .sub("undeclared", 120000, 2400000, "a name without an option", cases, undeclared)
        .main()
}
