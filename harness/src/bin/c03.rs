//! C03: bumping equals rebuilding the market with the bumped input.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::instruments::*;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    bumps: Vec<Bp>,
    save: bool,
    at: Vec<i32>,
}

fn pricer(m: &Market, i: &RcInstrument) -> Result<Box<dyn Pricer>, Fail> {
    Ok(SelfPricerFactory::new().new(i.clone(), FixTable::none(m.date).rc()?, RcMarketData::new(Arc::new(m.build()?)))?)
}

/// Bumped against rebuilt, through raw market data, prefetched data and the pricer.
fn rebuilt(c: &Case, obs: &mut Obs) -> R {
    let i = c.instr.build(&c.market)?;
    let mut md = c.market.build()?;
    let mut deps = DependencyCollector::new(d(c.market.date));
    deps.spot(&i);
    let mut pre = PricingContextPrefetch::new(&md, Arc::new(deps))?;
    let mut pr = pricer(&c.market, &i)?;
    let mut saves = (md.new_saveable(), pre.new_saveable(), pr.as_bumpable().new_saveable());
    let mut spec = c.market.clone();
    let all: Vec<usize> = (0..c.market.names.len()).collect();
    let mut names: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    names.sort();
    names.dedup();
    let n = c.market.date;
    let far = c.instr.options().iter().map(|o| o.expiry.0).min().unwrap_or(n);
    let near = [n, n + (far - n) / 2, far];
    let first = md.clone();
    for (k, b) in c.bumps.iter().enumerate() {
        let bump = b.build();
        let there = b.apply(&mut spec);
        let before = (probe(&md, &c.market, &all, &c.at), pr.price().ok());
        let found = if c.save {
            [md.bump(&bump, Some(&mut *saves.0))?, pre.bump(&bump, Some(&mut *saves.1))?, pr.as_mut_bumpable().bump(&bump, Some(&mut *saves.2))?]
        } else {
            [md.bump(&bump, None)?, pre.bump(&bump, None)?, pr.as_mut_bumpable().bump(&bump, None)?]
        };
        ensure!(found == [there; 3], "found", "bump {} ({:?}): market data, prefetched data and pricer report {:?}", k, b, found);
        obs.tag(if there { b.kind() } else { "absent" });
        let now = probe(&md, &c.market, &all, &c.at);
        if there {
            // what it does not name stays exactly as it was
            for (x, y) in before.0.iter().zip(&now) {
                if !touches(b, &x.0, &c.market) {
                    ensure!(same_bits(x.1, y.1), "unnamed", "bump {} ({:?}) changes {} from {} to {}", k, b, x.0, x.1, y.1);
                }
            }
            obs.nontrivial_if(differs(&now, &before.0, 0.0).is_some());
        } else {
            if let Some(e) = differs(&now, &before.0, 0.0) {
                bail!("absent", "bump {} ({:?}) of an absent item changes {}", k, b, e);
            }
            ensure!(pr.price().ok() == before.1, "absent", "bump {} ({:?}) of an absent item changes the price", k, b);
        }
        let fresh = spec.build()?;
        let want = probe(&fresh, &c.market, &all, &c.at);
        if let Some(e) = differs(&now, &want, 1e-11) {
            bail!("raw", "after bump {} ({:?}), market data: {}", k, b, e);
        }
        let (got, want) = (probe(&pre, &c.market, &names, &near), probe(&fresh, &c.market, &names, &near));
        if let Some(e) = differs(&got, &want, 1e-11) {
            bail!("prefetched", "after bump {} ({:?}), prefetched data: {}", k, b, e);
        }
        let size = 1e3 * c.instr.leaves().iter().map(|x| x.0.abs()).sum::<f64>();
        let today = [(n, Tod::Open)];
        let want = prices(&i, &fresh, &today);
        let fresh_pricer = pricer(&spec, &i)?.price();
        for (what, got) in [("market data", prices(&i, &md, &today).map(|x| x[0])), ("prefetched data", prices(&i, &pre, &today).map(|x| x[0])), ("the pricer", pr.price())] {
            for want in [want.as_ref().map(|x| x[0]), fresh_pricer.as_ref().map(|x| *x)] {
                match (&got, want) {
                    (Ok(g), Ok(w)) => ensure!((g - w).abs() <= 1e-10 * (1.0 + size) || same_bits(*g, w), "price", "after bump {} ({:?}), {} gives {}, a fresh market {}", k, b, what, g, w),
                    (Err(_), Err(_)) => obs.tag("not priceable"),
                    (g, w) => bail!("price", "after bump {} ({:?}), {} gives {:?}, a fresh market {:?}", k, b, what, g, w),
                }
            }
        }
    }
    // clones taken before are untouched
    let again = c.market.build()?;
    if let Some(e) = differs(&probe(&first, &c.market, &all, &c.at), &probe(&again, &c.market, &all, &c.at), 0.0) {
        bail!("clone", "a copy taken before the bumps has changed: {}", e);
    }
    Ok(())
}

/// Whether a bump can change the quantity with this label
fn touches(b: &Bp, label: &str, m: &Market) -> bool {
    let own = |i: usize, kinds: &[&str]| kinds.iter().any(|k| label == format!("{} {}", k, i) || label.starts_with(&format!("{} {} ", k, i)));
    match *b {
        Bp::Spot(i, _) | Bp::SetSpot(i, _) => own(i, &["spot", "forward"]),
        Bp::Divs(i, _) | Bp::Borrow(i, ..) => own(i, &["forward"]),
        Bp::Vol(i, _) | Bp::VolTime(i, ..) | Bp::SetVol(i, _) => own(i, &["vol", "vol time"]),
        Bp::Yield(i, ..) => own(i, &["rate"]) || (0..m.names.len()).any(|k| m.names[k].credit == i && own(k, &["forward"])),
    }
}

/// Bumped prices against an independent valuation of the bumped description.
fn reference(c: &Case, obs: &mut Obs) -> R {
    let i = c.instr.build(&c.market)?;
    let mut pr = pricer(&c.market, &i)?;
    let mut spec = c.market.clone();
    let at = (c.market.date, Tod::Open);
    for (k, b) in c.bumps.iter().enumerate() {
        let old = c.instr.value(&spec, at, true);
        b.apply(&mut spec);
        pr.as_mut_bumpable().bump(&b.build(), None)?;
        if let Some((want, tol)) = c.instr.value(&spec, at, true) {
            if tol > 0.1 {
                continue;
            }
            obs.nontrivial_if(old.map_or(false, |o| (o.0 - want).abs() > 10.0 * tol));
            match pr.price() {
                Ok(got) => ensure!((got - want).abs() <= tol + 1e-9, "reference", "after bump {} ({:?}) the price is {}, the reference {} within {}", k, b, got, want, tol),
                Err(e) => bail!("reference", "after bump {} ({:?}) the price fails ({}), the reference is {}", k, b, e, want),
            }
        }
    }
    Ok(())
}

fn cases(w: Wild) -> BoxedStrategy<Case> {
    market(w)
        .prop_flat_map(|m| {
            let i = prop_oneof![2 => instrument(&m), 2 => {
                let l = prop_oneof![3 => option(&m, true).prop_map(Instr::Opt), 1 => leaf(&m)].boxed();
                basket_of(&m, l, 1..4)
            }];
            let b = vec(bump(m.names.len(), m.curves.len()), 1..5);
            let n = m.date;
            (Just(m), i, b, any::<bool>(), vec(prop_oneof![n..n + 10, n..n + 800], 1..4))
        })
        .prop_map(|(market, instr, bumps, save, mut at)| {
            at.sort();
            Case { market, instr, bumps, save, at }
        })
        .boxed()
}

fn main() {
    Check::new("C03")
        .assume("markets and options as in C11; prices compared within 1e-10 of the size of the portfolio")
        .sub("rebuilt", 55000, 1100000, "some bump changes some quantity of the market", || cases(WILD), rebuilt)
        .sub("reference", 140000, 2900000, "some bump moves the reference price", || cases(TAME), reference)
        .main()
}
