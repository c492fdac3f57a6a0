//! C04: risk reports are finite differences of the price and disturb nothing.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    gens: Vec<Gen>,
    paths: usize,
}

const DOWN: &str = "vega-down-bump-not-opposite";

/// Prices with the name bumped up and down; `None` if one cannot be priced
type Prices = (f64, f64);

/// A report against prices bumped up and down independently
fn judge(g: &Gen, rep: &Rep, names: &BTreeSet<usize>, unbumped: f64, spot: &dyn Fn(usize) -> f64, smile: &dyn Fn(usize) -> bool, bumped: &dyn Fn(usize, f64) -> Option<f64>, size: f64, obs: &mut Obs) -> R {
    let (b, table) = match (g, rep) {
        (Gen::Delta(b), Rep::Delta(_, t)) => (*b, t),
        (Gen::Vega(b), Rep::Vega(_, t)) | (Gen::VegaTime(b, _), Rep::Vega(_, t)) => (*b, t),
        _ => bail!("kind", "{:?} gives a report of another kind: {:?}", g, rep),
    };
    let want: BTreeMap<String, usize> = names.iter().map(|n| (name_id(*n), *n)).collect();
    for k in want.keys() {
        ensure!(table.contains_key(k), "missing", "{:?}: the report does not mention {}", g, k);
    }
    for (k, got) in table {
        let n = match want.get(k) {
            Some(n) => *n,
            None => bail!("extra", "{:?}: the report mentions {}, which is no underlying", g, k),
        };
        let h = if let Gen::Delta(_) = g { b * spot(n) } else { b };
        let first = |(u, d): Prices| (u - d) / (2.0 * h);
        let second = |(u, d): Prices| (u + d - 2.0 * unbumped) / (h * h);
        let e = 1e-12 * size;
        let fits = |p: Prices| (got.0 - first(p)).abs() <= e / h.abs() + 1e-9 * first(p).abs() && (got.1 - second(p)).abs() <= 4.0 * e / (h * h) + 1e-9 * second(p).abs();
        let up = bumped(n, b);
        let down = bumped(n, -b);
        let (u, w) = match (up, down) {
            (Some(u), Some(w)) => (u, w),
            _ => continue,
        };
        // where a smile extrapolates below zero, any volatility bump floors it
        let floored = !matches!(g, Gen::Delta(_)) && bumped(n, 0.0).map_or(true, |x| (x - unbumped).abs() > 100.0 * e);
        if floored && smile(n) {
            obs.tag("negative extrapolated volatility");
            continue;
        }
        obs.count("entries", 1);
        obs.nontrivial_if((u - w).abs() > 1e3 * e);
        obs.tag_if((u - w).abs() > 1e3 * e, if let Gen::Delta(_) = g { "delta moves" } else { "vega moves" });
        obs.tag_if((u + w - 2.0 * unbumped).abs() > 1e3 * e, "curvature");
        if fits((u, w)) {
            continue;
        }
        // a volatility bump has been taken down by 2b/(1+b) where 2b was due
        if let Gen::Delta(_) = g {
        } else {
            let x = match bumped(n, b - 2.0 * b / (1.0 + b)) {
                Some(x) => x,
                None => {
                    obs.tag("cannot be priced between the bumps");
                    continue;
                }
            };
            if fits((u, x)) {
                return obs.finding(DOWN, format!("vega {} and volga {} of {} by {} where central differences are {} and {}", got.0, got.1, k, b, first((u, w)), second((u, w))));
            }
        }
        bail!("difference", "{:?} of {}: {} and {} where prices up {} and down {} of {} give {} and {}", g, k, got.0, got.1, u, w, unbumped, first((u, w)), second((u, w)));
    }
    Ok(())
}

fn undisturbed(p: &mut dyn Pricer, save: &mut dyn Saveable, c: &Case, before: &[(String, f64)], unbumped: f64, after: &str) -> R {
    let names: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    let now = probe(p.as_bumpable().context(), &c.market, &names, &[c.market.date, c.market.date + 1]);
    if let Some(e) = differs(&now, before, 0.0) {
        bail!("disturbed", "after {} the market has changed: {}", after, e);
    }
    let price = p.price()?;
    ensure!(price == unbumped, "disturbed", "after {} the price is {} not {}", after, price, unbumped);
    // an empty save area restores nothing
    let mut twin = p.clone_box();
    twin.as_mut_bumpable().bump(&Bump::new_spot(&name_id(0), BumpSpot::new_relative(0.03)), None)?;
    let moved = (twin.as_bumpable().context().spot(&name_id(0))?, twin.price().ok());
    twin.as_mut_bumpable().restore(save)?;
    let then = (twin.as_bumpable().context().spot(&name_id(0))?, twin.price().ok());
    ensure!(moved == then, "save-area", "after {} the save area still holds something: spot and price {:?} go to {:?}", after, moved, then);
    Ok(())
}

fn analytic(c: &Case, obs: &mut Obs) -> R {
    let i = c.instr.build(&c.market)?;
    let none = FixTable::none(c.market.date);
    let mut p = self_pricer(&c.market, &i, &none)?;
    let unbumped = match p.price() {
        Ok(x) => x,
        Err(_) => {
            obs.tag("not priceable");
            return Ok(());
        }
    };
    let names: BTreeSet<usize> = c.instr.names().into_iter().collect();
    let optioned: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    let before = probe(p.as_bumpable().context(), &c.market, &optioned, &[c.market.date, c.market.date + 1]);
    let mut save = p.as_bumpable().new_saveable();
    for g in &c.gens {
        let r = match g.build().generate(&mut *p, &mut *save, unbumped) {
            Ok(r) => r,
            Err(e) => {
                // bumps may leave a surface that cannot be priced
                // on, within rounding where forward variance vanishes on a smile
                let bare = c.instr.options().iter().all(|o| matches!(o.terms, Terms::Strike(_)) || matches!(c.market.names[o.under].vol, Vol::Flat { .. }));
                let ok = bare && names.iter().all(|n| [1.0, -1.0].iter().all(|s| fresh(c, &i, g, *n, *s).is_some()));
                if let Gen::Time(..) = g {
                } else {
                    ensure!(!ok, "fails", "{:?} fails: {}", g, e);
                }
                obs.tag("report refused");
                return Ok(());
            }
        };
        if !matches!(g, Gen::Time(..)) {
            judge(g, &Rep::of(&r), &names, unbumped, &|n| c.market.names[n].spot, &|n| !matches!(c.market.names[n].vol, Vol::Flat { .. }), &|n, b| fresh_by(c, &i, g, n, b), size(&c.market, &c.instr), obs)?;
        }
        undisturbed(&mut *p, &mut *save, c, &before, unbumped, &format!("{:?}", g))?;
    }
    obs.tag_if(c.gens.len() > 1, "several reports");
    obs.tag_if(names.len() > 1, "several underlyings");
    obs.tag_if(names.is_empty(), "no underlying");
    Ok(())
}

fn fresh(c: &Case, i: &quantmath::instruments::RcInstrument, g: &Gen, n: usize, sign: f64) -> Option<f64> {
    match *g {
        Gen::Delta(b) => fresh_by(c, i, g, n, sign * b),
        // including where the down bump now ends
        Gen::Vega(b) | Gen::VegaTime(b, _) => fresh_by(c, i, g, n, sign * b).and(fresh_by(c, i, g, n, b - 2.0 * b / (1.0 + b))),
        _ => None,
    }
}

/// The price on a fresh market with one input changed by b
fn fresh_by(c: &Case, i: &quantmath::instruments::RcInstrument, g: &Gen, n: usize, b: f64) -> Option<f64> {
    let mut m = c.market.clone();
    match *g {
        Gen::Delta(_) => Bp::Spot(n, b).apply(&mut m),
        Gen::Vega(_) => Bp::Vol(n, b).apply(&mut m),
        Gen::VegaTime(_, f) => Bp::VolTime(n, b, f).apply(&mut m),
        _ => return None,
    };
    self_pricer(&m, i, &FixTable::none(m.date)).ok()?.price().ok()
}

/// The same for the simulation, whose bumped prices come from copies with the same paths
fn monte_carlo(c: &Case, obs: &mut Obs) -> R {
    let i = c.instr.build(&c.market)?;
    let f = MonteCarloPricerFactory::new(RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(1, 0.05, c.paths))));
    let mut p = f.new(i, FixTable::none(c.market.date).rc()?, RcMarketData::new(Arc::new(c.market.build()?)))?;
    let unbumped = p.price()?;
    let names: BTreeSet<usize> = c.instr.names().into_iter().collect();
    let list: Vec<usize> = names.iter().cloned().collect();
    let before = probe(p.as_bumpable().context(), &c.market, &list, &[c.market.date, c.market.date + 1]);
    let mut save = p.as_bumpable().new_saveable();
    for g in &c.gens {
        if let Gen::Time(..) = g {
            continue;
        }
        let start = p.clone_box();
        let r = match g.build().generate(&mut *p, &mut *save, unbumped) {
            Ok(r) => r,
            Err(_) => {
                obs.tag("report refused");
                return Ok(());
            }
        };
        let bumped = |n: usize, b: f64| {
            let mut x = start.clone_box();
            let bump = match *g {
                Gen::Delta(_) => Bp::Spot(n, b),
                Gen::VegaTime(_, f) => Bp::VolTime(n, b, f),
                _ => Bp::Vol(n, b),
            };
            x.as_mut_bumpable().bump(&bump.build(), None).ok()?;
            x.price().ok()
        };
        judge(g, &Rep::of(&r), &names, unbumped, &|n| c.market.names[n].spot, &|n| !matches!(c.market.names[n].vol, Vol::Flat { .. }), &bumped, 10.0 * size(&c.market, &c.instr), obs)?;
        undisturbed(&mut *p, &mut *save, c, &before, unbumped, &format!("{:?}", g))?;
    }
    Ok(())
}

/// Spot bumps of either sign and of any size
fn some_greek() -> BoxedStrategy<Gen> {
    let far = prop_oneof![dec(-0.1, -0.0005, 4), dec(0.1, 0.6, 2), dec(0.00001, 0.0005, 6)];
    prop_oneof![3 => greek(), 1 => far.prop_map(Gen::Delta)].boxed()
}

fn cases() -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let i = prop_oneof![2 => instrument(&m), 2 => {
                let l = prop_oneof![3 => option(&m, true).prop_map(Instr::Opt), 1 => leaf(&m)].boxed();
                basket_of(&m, l, 1..4)
            }];
            (Just(m), i)
        })
        .prop_flat_map(|(m, i)| {
            let g = generator(m.date, &i.options().iter().map(|o| o.expiry.0).collect::<Vec<_>>());
            (Just(m), Just(i), vec(prop_oneof![3 => some_greek(), 1 => g], 1..4), Just(0usize))
        })
        .prop_map(|(market, instr, gens, paths)| Case { market, instr, gens, paths })
        .boxed()
}

fn mc_cases() -> BoxedStrategy<Case> {
    market(Wild { smiles: false, ..WILD })
        .prop_flat_map(|m| {
            let o = option(&m, true).prop_map(Instr::Opt);
            (Just(m), o, vec(some_greek(), 1..4), 1usize..20)
        })
        .prop_map(|(market, instr, gens, paths)| Case { market, instr, gens, paths })
        .boxed()
}

fn main() {
    Check::new("C04")
        .assume("the pricer can price the portfolio; bump sizes from 0.0005 to 0.1")
        .sub("analytic", 77000, 1500000, "some first difference is well above rounding", cases, analytic)
        .sub("monte-carlo", 100000, 2000000, "some first difference is well above rounding", mc_cases, monte_carlo)
        .main()
}
