//! C06: simulated prices are discounted averages over paths that follow the market.
use ndarray::{Array2, Axis};
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::qm;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::*;
use quantmath::dates::Date;
use quantmath::instruments::*;
use quantmath::models::blackdiffusion::*;
use quantmath::models::*;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::*;
use quantmath::risk::Bumpable;
use serde::{Deserialize, Serialize};
use std::ops::Deref;
use std::sync::Arc;
use vh::*;

fn simulation(o: &RcInstrument, m: &MarketData, substep: f64, paths: usize) -> Result<Box<dyn MonteCarloModel>, qm::Error> {
    let mut needed = DependencyCollector::new(m.spot_date());
    let mut timeline = MonteCarloTimeline::new(m.spot_date());
    needed.spot(o);
    o.as_mc_priceable().ok_or_else(|| qm::Error::new("no simulation"))?.mc_dependencies(&[], &mut timeline)?;
    timeline.collate()?;
    let ctx = Box::new(PricingContextPrefetch::new(m, Arc::new(needed))?);
    BlackDiffusionFactory::new(1, substep, paths).factory(&timeline, ctx)
}

/// The discounted average over the paths there are, from the contract alone
fn average(o: &Opt, m: &Market, paths: &Array2<f64>) -> (f64, f64) {
    let sign = if o.call { 1.0 } else { -1.0 };
    let c = &m.curves[o.credit];
    let df = (c.acc(o.settle.apply(m.date)) - c.acc(o.pay())).exp();
    let (mut sum, mut size) = (0.0, 0.0);
    for p in paths.outer_iter() {
        let (s, k) = match o.terms {
            Terms::Strike(k) => (p[0], k),
            Terms::Start { fraction, .. } => (p[1], fraction * p[0]),
        };
        sum += (sign * (s - k)).max(0.0);
        size += s.abs() + k.abs();
    }
    let n = paths.shape()[0] as f64;
    (df * sum / n, df * size / n)
}

// ---------------------------------------------------------- prices and bumps

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    opt: Opt,
    substep: f64,
    paths: usize,
    bumps: Vec<Bp>,
}

/// Whether two sets of paths have the same random numbers behind them: as far as can be told
/// from paths alone, for exact and for simple steps.
fn same_numbers(a: (&[Point], &Array2<f64>), b: (&[Point], &Array2<f64>), one_step: bool) -> Option<Result<(), String>> {
    let (va, vb) = (steps(a.0), steps(b.0));
    if !possible(a.0) || !possible(b.0) {
        return None;
    }
    let level = |p: &[Point], i: usize| p[i].forward - p[i].displacement;
    let alike = va.iter().zip(&vb).all(|(x, y)| close(*x, *y, 1e-12 * (1.0 + x.abs())));
    if !alike && !one_step {
        return None;
    }
    let n = va.len();
    if (0..n).any(|i| level(a.0, i).abs() < 1e-6 || level(b.0, i).abs() < 1e-6) {
        return None;
    }
    let mut simple = Ok(());
    let mut exact = Ok(());
    for (k, (p, q)) in a.1.outer_iter().zip(b.1.outer_iter()).enumerate() {
        let (mut lx, mut ly) = (1.0f64, 1.0f64);
        for i in 0..n {
            let x = (p[i] - a.0[i].displacement) / level(a.0, i);
            let y = (q[i] - b.0[i].displacement) / level(b.0, i);
            let (rx, ry) = (x / lx, y / ly);
            let (sx, sy) = (va[i].sqrt(), vb[i].sqrt());
            // a path near zero says little of the next step
            let loss = 1e-11 * (1.0 + 1.0 / lx.abs().min(ly.abs()));
            lx = x;
            ly = y;
            let what = || format!("path {} at observation {}: {} times the level before and {} after, for deviations {} and {}", k, i, rx, ry, sx, sy);
            if alike {
                if !close(rx, ry, loss * (1.0 + rx.abs()) * 10.0) {
                    return Some(Err(what()));
                }
                continue;
            }
            // the same random number times the deviation
            if simple.is_ok() && !close((rx - 1.0) * sy, (ry - 1.0) * sx, loss * (1.0 + rx.abs() + ry.abs())) {
                simple = Err(what());
            }
            if exact.is_ok() && !(rx > 0.0 && ry > 0.0 && close((rx.ln() + va[i] / 2.0) * sy, (ry.ln() + vb[i] / 2.0) * sx, loss * (1.0 + rx.ln().abs() + ry.ln().abs()))) {
                exact = Err(what());
            }
        }
    }
    Some(if exact.is_ok() { exact } else { simple })
}

fn bumped(c: &Case, obs: &mut Obs) -> R {
    let mut m = c.market.clone();
    let md = m.build()?;
    let opt = c.opt.build(&m)?;
    let equity = m.equity(c.opt.under);
    let at = observations(&c.opt);
    let first = match points(&md, &equity, &at) {
        Ok(p) if possible(&p) => p,
        _ => {
            obs.count("no variance to simulate", 1);
            return Ok(());
        }
    };
    let mut model = simulation(&opt, &md, c.substep, c.paths)?;
    let fetch = |model: &Box<dyn MonteCarloModel>| -> Result<Array2<f64>, qm::Error> { Ok(model.as_mc_context().paths(&equity)?.to_owned()) };
    let judge = |model: &Box<dyn MonteCarloModel>, m: &Market, when: &str| -> Result<Array2<f64>, Fail> {
        let paths = fetch(model)?;
        ensure!(paths.shape() == [c.paths, at.len()], "shape", "{:?} paths and observations, not {} and {}", paths.shape(), c.paths, at.len());
        let price = opt.as_mc_priceable().unwrap().mc_price(model.as_mc_context())?;
        let (v, size) = average(&c.opt, m, &paths);
        ensure!(close(price, v, 1e-11 * (1.0 + size)), "average", "{} the price is {} but the paths average {}", when, price, v);
        Ok(paths)
    };
    let base = judge(&model, &m, "at first")?;
    let cut = calculate_substepping(&at, &md, &vec![equity.clone()], c.substep)?;
    let one_step = cut.iter().all(|k| *k == 1);
    obs.tag_if(!one_step, "several steps between observations");
    obs.tag_if(at.len() > 1, "forward-starting");
    obs.nontrivial_if(first.iter().any(|p| p.variance > 1e-6));

    let mut save = model.as_bumpable().new_saveable();
    for b in &c.bumps {
        b.apply(&mut m);
        let p = m.build().and_then(|md| points(&md, &equity, &at));
        let done = model.as_mut_bumpable().bump(&b.build(), Some(&mut *save));
        let p = match p {
            Ok(p) if possible(&p) => {
                done?;
                p
            }
            _ => {
                obs.count("bumped market cannot be simulated", 1);
                return Ok(());
            }
        };
        let paths = judge(&model, &m, "after bumps")?;
        match same_numbers((&first, &base), (&p, &paths), one_step) {
            None => obs.count("bumps with other steps", 1),
            Some(Err(e)) => bail!("bumped-paths", "after {:?} the paths do not follow the market with the same random numbers: {}", b, e),
            Some(Ok(())) => obs.count("bumps followed", 1),
        }
    }
    // restored
    model.as_mut_bumpable().restore(&*save)?;
    let back = fetch(&model)?;
    ensure!(back.iter().zip(base.iter()).all(|(x, y)| same_bits(*x, *y)), "restore", "restoring does not give the paths of before");
    judge(&model, &c.market, "restored")?;
    Ok(())
}

fn case() -> BoxedStrategy<Case> {
    market(Wild { names: 2, yields: true, smiles: true, old_vols: true })
        .prop_flat_map(|m| {
            let (names, curves) = (m.names.len(), m.curves.len());
            (Just(m.clone()), option(&m, true), prop_oneof![2 => Just(10.0), 1 => dec(0.01, 0.2, 2)], 1usize..12, vec(bump(names, curves), 0..4))
        })
        .prop_map(|(market, opt, substep, paths, bumps)| Case { market, opt, substep, paths, bumps })
        .boxed()
}

// ------------------------------------------------------------- several assets

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Several {
    market: Market,
    at: Vec<Moment>,
    rho: f64,
    substep: f64,
    paths: usize,
    bumps: Vec<Option<Bp>>,
}

/// A bump changes the paths of the names it concerns, a missing one restores and clears.
fn several(c: &Several, obs: &mut Obs) -> R {
    let mut m = c.market.clone();
    let md = m.build()?;
    let names: Vec<RcInstrument> = (0..m.names.len()).map(|i| m.equity(i)).collect();
    let at: Vec<DateDayFraction> = c.at.iter().map(|x| DateDayFraction::new(d(x.0), fraction(x.1))).collect();
    let last = at.last().unwrap().date();
    let all = |m: &Market| -> Option<Vec<Vec<Point>>> {
        let md = m.build().ok()?;
        names.iter().map(|e| points(&md, e, &at).ok().filter(|p| possible(p))).collect()
    };
    let first = match all(&m) {
        Some(p) => p,
        None => {
            obs.count("no variance to simulate", 1);
            return Ok(());
        }
    };
    let mut needed = DependencyCollector::new(md.spot_date());
    let mut timeline = MonteCarloTimeline::new(md.spot_date());
    for e in &names {
        needed.forward_curve(e, last);
        needed.vol_surface(e, last);
        for x in &at {
            timeline.observation(e, *x);
        }
    }
    timeline.collate()?;
    let ctx = Box::new(Together { inner: PricingContextPrefetch::new(&md, Arc::new(needed))?, rho: c.rho });
    let mut model = BlackDiffusionFactory::new(1, c.substep, c.paths).factory(&timeline, ctx)?;
    let fetch = |model: &Box<dyn MonteCarloModel>| -> Result<Vec<Array2<f64>>, qm::Error> { names.iter().map(|e| Ok(model.as_mc_context().paths(e)?.to_owned())).collect() };
    let same = |a: &Array2<f64>, b: &Array2<f64>| a.iter().zip(b.iter()).all(|(x, y)| same_bits(*x, *y));
    let base = fetch(&model)?;
    let cut = calculate_substepping(&at, &md, &names, c.substep)?;
    let one_step = cut.iter().all(|k| *k == 1);
    obs.tag_if(!one_step, "several steps between observations");
    for (i, p) in base.iter().enumerate() {
        ensure!(p.shape() == [c.paths, at.len()], "shape", "asset {}: {:?} paths and observations, not {} and {}", i, p.shape(), c.paths, at.len());
    }
    let mut save = model.as_bumpable().new_saveable();
    let mut before = base.clone();
    let mut moved = vec![false; names.len()];
    for b in c.bumps.iter().chain([None].iter()) {
        let b = match b {
            Some(b) => b,
            None => {
                model.as_mut_bumpable().restore(&*save)?;
                save.clear();
                m = c.market.clone();
                before = fetch(&model)?;
                for i in 0..names.len() {
                    ensure!(same(&before[i], &base[i]), "restore", "restoring does not give the paths of before for asset {}", i);
                }
                continue;
            }
        };
        let was = all(&m);
        b.apply(&mut m);
        let p = all(&m);
        let done = model.as_mut_bumpable().bump(&b.build(), Some(&mut *save));
        let p = match p {
            Some(p) => {
                done?;
                p
            }
            None => {
                obs.count("bumped market cannot be simulated", 1);
                return Ok(());
            }
        };
        let now = fetch(&model)?;
        for i in 0..names.len() {
            match same_numbers((&first[i], &base[i]), (&p[i], &now[i]), one_step) {
                None => obs.count("bumps with other steps", 1),
                Some(Err(e)) => bail!("bumped-paths", "after {:?} the paths of asset {} do not follow the market with the same random numbers: {}", b, i, e),
                Some(Ok(())) => obs.count("bumps followed", 1),
            }
            if same(&now[i], &before[i]) {
                continue;
            }
            moved[i] = true;
            // one of which the market says the same as before has the same paths as before
            if let Some(was) = &was {
                let alike = was[i].iter().zip(&p[i]).all(|(x, y)| same_bits(x.forward, y.forward) && same_bits(x.variance, y.variance) && same_bits(x.displacement, y.displacement));
                ensure!(!alike, "unconcerned", "{:?} changes the paths of asset {}", b, i);
            }
        }
        before = now;
    }
    obs.nontrivial_if(names.len() > 1 && moved.iter().any(|x| *x));
    obs.tag_if(moved.iter().filter(|x| **x).count() > 1, "several assets moved");
    Ok(())
}

fn several_case() -> BoxedStrategy<Several> {
    market(Wild { names: 3, yields: true, smiles: true, old_vols: true })
        .prop_flat_map(|m| {
            let (names, curves) = (m.names.len(), m.curves.len());
            let times = prop_oneof![Just(Tod::Open), Just(Tod::Close)];
            let at = vec((1i32..900, times), 1..4);
            (Just(m), at, dec(-0.4, 0.9, 2), prop_oneof![2 => Just(10.0), 1 => dec(0.01, 0.2, 2)], 1usize..8, vec(prop::option::weighted(0.85, bump(names, curves)), 1..5))
        })
        .prop_map(|(market, mut at, rho, substep, paths, bumps)| {
            at.sort_by_key(|x| x.0);
            at.dedup_by_key(|x| x.0);
            let at = at.into_iter().map(|(n, t)| (market.date + n, t)).collect();
            Several { market, at, rho, substep, paths, bumps }
        })
        .boxed()
}

// ------------------------------------------------------- moments of the paths

/// Roots and weights for averages over a standard normal variable
fn normal_points(n: usize) -> Vec<(f64, f64)> {
    // polynomials He_k by their recurrence; roots by bisection between those of the one before
    let he = |n: usize, x: f64| {
        let (mut a, mut b) = (1.0, x);
        for k in 1..n {
            let c = x * b - k as f64 * a;
            a = b;
            b = c;
        }
        (if n == 0 { 1.0 } else { b }, a)
    };
    let mut roots: Vec<f64> = vec![0.0];
    for k in 2..=n {
        let far = 2.0 * (k as f64).sqrt() + 1.0;
        let mut ends = vec![-far];
        ends.extend(roots.iter());
        ends.push(far);
        roots = ends
            .windows(2)
            .map(|w| {
                let (mut lo, mut hi) = (w[0], w[1]);
                let up = he(k, hi).0 > 0.0;
                for _ in 0..200 {
                    let x = (lo + hi) / 2.0;
                    if (he(k, x).0 > 0.0) == up {
                        hi = x;
                    } else {
                        lo = x;
                    }
                }
                (lo + hi) / 2.0
            })
            .collect();
    }
    let fact: f64 = (1..n).map(|k| k as f64).product();
    roots
        .into_iter()
        .map(|x| {
            let below = he(n, x).1;
            (x, fact / (n as f64 * below * below))
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moments {
    market: Market,
    opt: Opt,
    substeps: Vec<usize>,
}

fn moments(c: &Moments, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let equity = c.market.equity(c.opt.under);
    let at = observations(&c.opt);
    let p = match points(&md, &equity, &at) {
        Ok(p) if possible(&p) => p,
        _ => return Ok(()),
    };
    let v = steps(&p);
    let cut: Vec<usize> = (0..at.len()).map(|i| c.substeps[i]).collect();
    if p.last().unwrap().variance > 1.0 {
        obs.count("variance above one", 1);
        return Ok(());
    }
    let all: usize = cut.iter().sum();
    let nodes = normal_points(10);
    let n = nodes.len().pow(all as u32);
    let mut draws = Array2::<f64>::zeros((n, all));
    let mut weight = vec![1.0; n];
    for k in 0..n {
        let mut r = k;
        for j in 0..all {
            let (x, w) = nodes[r % nodes.len()];
            draws[(k, j)] = x;
            weight[k] *= w;
            r /= nodes.len();
        }
    }
    let mut paths = Array2::<f64>::zeros((n, at.len()));
    fetch_path(equity.deref(), &md, &at, draws.view(), &cut, paths.view_mut())?;
    obs.nontrivial_if(p.iter().any(|x| x.variance > 1e-6));
    obs.tag_if(at.len() > 1, "two observations");
    obs.tag_if(p.iter().any(|x| x.displacement != 0.0), "displaced");
    let mean = |f: &dyn Fn(usize) -> f64| (0..n).map(|k| weight[k] * f(k)).sum::<f64>();
    // deviations from the displacement, before scaling
    let x = |k: usize, i: usize| paths[(k, i)] - p[i].displacement;
    let (mut least, mut most) = (1.0, 1.0);
    for i in 0..at.len() {
        let level = p[i].forward - p[i].displacement;
        let e = mean(&|k| paths[(k, i)]);
        ensure!(close(e, p[i].forward, 1e-6 * (1.0 + p[i].forward.abs())), "mean", "observation {}: paths average {}, the forward is {}", i, e, p[i].forward);
        // simple steps fall a little short of the exact second moment
        least *= (1.0 + v[i] / cut[i] as f64).powi(cut[i] as i32);
        most *= v[i].exp();
        let second = mean(&|k| x(k, i) * x(k, i));
        let unit = level * level;
        ensure!(second >= unit * least * (1.0 - 1e-5) - 1e-9 && second <= unit * most * (1.0 + 1e-5) + 1e-9, "variance", "observation {}: second moment {} of the forward squared for a variance of {}", i, second / unit, p[i].variance);
    }
    if at.len() == 2 {
        // the step in between neither helps nor hurts
        let (la, lb) = (p[0].forward - p[0].displacement, p[1].forward - p[1].displacement);
        let cross = mean(&|k| x(k, 0) * x(k, 1));
        let own = mean(&|k| x(k, 0) * x(k, 0));
        ensure!(close(cross * la, own * lb, 1e-5 * (1.0 + (own * lb).abs())), "increments", "the observations move together by {}, expected {}", cross * la, own * lb);
    }
    Ok(())
}

fn moment_case() -> BoxedStrategy<Moments> {
    market(Wild { names: 1, yields: true, smiles: true, old_vols: true })
        .prop_flat_map(|m| (Just(m.clone()), option(&m, true), prop_oneof![Just(vec![1usize, 1]), Just(vec![1, 2]), Just(vec![2, 1]), Just(vec![2, 1])]))
        .prop_map(|(market, opt, substeps)| Moments { market, opt, substeps })
        .boxed()
}

// ------------------------------------------------------ correlated gaussians

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Correlated {
    /// directions of the assets, whose angles are the correlations
    rays: Vec<Vec<f64>>,
    substeps: Vec<usize>,
}

struct Angles {
    rays: Vec<Vec<f64>>,
}
impl Angles {
    fn between(&self, i: usize, j: usize) -> f64 {
        let dot = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
        let (a, b) = (&self.rays[i], &self.rays[j]);
        dot(a, b) / (dot(a, a) * dot(b, b)).sqrt()
    }
}
impl PricingContext for Angles {
    fn spot_date(&self) -> Date {
        d(40000)
    }
    fn yield_curve(&self, _: &str, _: Date) -> Result<RcRateCurve, qm::Error> {
        Err(qm::Error::new("no curve"))
    }
    fn spot(&self, _: &str) -> Result<f64, qm::Error> {
        Err(qm::Error::new("no spot"))
    }
    fn forward_curve(&self, _: &dyn Instrument, _: Date) -> Result<Arc<dyn Forward>, qm::Error> {
        Err(qm::Error::new("no forward"))
    }
    fn vol_surface(&self, _: &dyn Instrument, _: Date, _: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> {
        Err(qm::Error::new("no surface"))
    }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> {
        let n = |x: &dyn Instrument| x.id()[2..].parse::<usize>().unwrap();
        Ok(self.between(n(a), n(b)))
    }
}

const DRAWS: usize = 4000;

fn correlated(c: &Correlated, obs: &mut Obs) -> R {
    let n = c.rays.len();
    let ctx = Angles { rays: c.rays.clone() };
    let blank = Market { date: 40000, curves: vec![Curve::Zero { base: 40000 }], names: vec![], settle: Rule::Null };
    let assets: Vec<RcInstrument> = (0..n)
        .map(|i| {
            let e = quantmath::instruments::assets::Equity::new(&name_id(i), "USD", blank.currency(), Rule::Null.build());
            RcInstrument::new(quantmath::core::factories::Qrc::new(Arc::new(e)))
        })
        .collect();
    let g = fetch_correlated_gaussians(&ctx, &assets, 1, &c.substeps, DRAWS)?;
    let all: usize = c.substeps.iter().sum();
    ensure!(g.shape() == [DRAWS, all, n], "shape", "{:?} numbers for {} draws, {} steps and {} assets", g.shape(), DRAWS, all, n);
    obs.nontrivial_if(n > 1);
    obs.tag(["", "one asset", "two assets", "three assets"][n]);
    let many = (DRAWS * all) as f64;
    for i in 0..n {
        let x: Vec<f64> = g.subview(Axis(2), i).iter().cloned().collect();
        let mean = x.iter().sum::<f64>() / many;
        ensure!(mean.abs() < 8.0 / many.sqrt(), "mean", "asset {}: {} numbers average {}", i, many, mean);
        let beyond = x.iter().filter(|x| x.abs() > 1.0).count() as f64 / many;
        ensure!((beyond - 0.317310507863).abs() < 8.0 * (0.3173f64 * 0.6827 / many).sqrt(), "shape", "asset {}: {} of the numbers are beyond one", i, beyond);
        for j in 0..=i {
            let y: Vec<f64> = g.subview(Axis(2), j).iter().cloned().collect();
            let cov = x.iter().zip(&y).map(|(a, b)| a * b).sum::<f64>() / many;
            let rho = if i == j { 1.0 } else { ctx.between(i, j) };
            // the variance of a product of such numbers is one and the correlation squared
            let sd = ((1.0 + rho * rho) / many).sqrt();
            ensure!((cov - rho).abs() < 8.0 * sd + 1e-9, "correlation", "assets {} and {}: covariance {} for a correlation of {}", i, j, cov, rho);
        }
        // steps have nothing to do with each other
        for s in 1..all {
            for j in 0..n {
                let mut sum = 0.0;
                for k in 0..DRAWS {
                    sum += g[(k, s, i)] * g[(k, s - 1, j)];
                }
                ensure!((sum / DRAWS as f64).abs() < 8.0 / (DRAWS as f64).sqrt(), "steps", "assets {} and {} in successive steps: covariance {}", i, j, sum / DRAWS as f64);
            }
        }
    }
    Ok(())
}

fn correlated_case() -> BoxedStrategy<Correlated> {
    let ray = |i: usize| {
        // never quite in the plane of the others
        vec(dec(-1.0, 1.0, 2), 3..=3).prop_map(move |mut v| {
            v[i] += if v[i] < 0.0 { -0.3 } else { 0.3 };
            v
        })
    };
    (1usize..4, ray(0), ray(1), ray(2), vec(1usize..4, 1..3))
        .prop_filter_map("angles", |(n, a, b, c, substeps)| {
            let t = Angles { rays: vec![a, b, c] };
            let (x, y, z) = (t.between(0, 1), t.between(0, 2), t.between(1, 2));
            // well within what is possible
            if x * x > 0.99 || 1.0 + 2.0 * x * y * z - x * x - y * y - z * z < 0.01 {
                return None;
            }
            Some(Correlated { rays: t.rays[..n].to_vec(), substeps })
        })
        .boxed()
}

// ------------------------------------------------- agreement with the formula

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agree {
    market: Market,
    opt: Opt,
    bumps: Vec<Bp>,
    days: Option<(i32, bool)>,
}

const MANY: usize = 8000;

fn agree(c: &Agree, obs: &mut Obs) -> R {
    let m = &c.market;
    let opt = c.opt.build(m)?;
    let fixings = FixTable::none(m.date).rc()?;
    let market = RcMarketData::new(Arc::new(m.build()?));
    let substep = 0.004;
    let model = RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(1, substep, MANY)));
    let mut a = SelfPricerFactory::new().new(opt.clone(), fixings.clone(), market.clone())?;
    let mut b = MonteCarloPricerFactory::new(model).new(opt, fixings, market)?;
    let mut now = m.clone();
    for x in &c.bumps {
        x.apply(&mut now);
        a.as_mut_bumpable().bump(&x.build(), None)?;
        b.as_mut_bumpable().bump(&x.build(), None)?;
    }
    if let Some((days, sticky)) = c.days {
        let to = d(m.date + days);
        let t = BumpTime::new(to, to, dynamics(sticky));
        a.as_mut_time_bumpable().bump_time(&t)?;
        b.as_mut_time_bumpable().bump_time(&t)?;
        obs.tag("time moved");
    }
    let (x, y) = (a.price()?, b.price()?);
    // how far an average may stray: a payoff moves by no more than the levels it is made of
    let equity = m.equity(c.opt.under);
    let ctx = b.as_bumpable().context();
    let p = points(ctx, &equity, &observations(&c.opt))?;
    let spread = |p: &Point| p.forward.abs() * (p.variance.exp() - 1.0).max(0.0).sqrt();
    let (sd, level) = match c.opt.terms {
        Terms::Strike(_) => (spread(&p[0]), p[0].forward),
        Terms::Start { fraction, .. } => (spread(&p[1]) + fraction * spread(&p[0]), p[1].forward + fraction * p[0].forward),
    };
    let tol = 1.2 * (9.0 * sd / (MANY as f64).sqrt() + level * substep) + 1e-6;
    ensure!(close(x, y, tol), "agree", "{} simulated, {} by the formula: apart by more than {} allows ({:?})", y, x, tol, p);
    obs.nontrivial_if(x > tol);
    Ok(())
}

fn agree_case() -> BoxedStrategy<Agree> {
    market(Wild { names: 2, yields: true, smiles: false, old_vols: true })
        .prop_flat_map(|m| {
            let (names, curves) = (m.names.len(), m.curves.len());
            let gentle = bump(names, curves).prop_map(|b| match b {
                // variance is bounded to bound the work
                Bp::SetVol(i, v) => Bp::SetVol(i, v.min(0.4)),
                b => b,
            });
            (Just(m.clone()), option(&m, true), vec(gentle, 0..3), prop::option::weighted(0.3, (0i32..100, any::<bool>())))
        })
        .prop_map(|(market, mut opt, bumps, days)| {
            // options are discounted on the curve of the underlying (see known-findings.txt)
            opt.credit = market.names[opt.under].credit;
            // not as far as the first fixing
            let first = match opt.terms {
                Terms::Start { date, .. } => date.0,
                _ => opt.expiry.0,
            };
            let days = days.and_then(|(n, s)| if first > market.date { Some((n % (first - market.date), s)) } else { None });
            Agree { market, opt, bumps, days }
        })
        .boxed()
}

fn main() {
    Check::new("C06")
        .assume("prices of one option at a time, paths of up to three assets with the same correlation between any two; the random numbers are the library's own, so statistical thresholds are eight deviations or more; surfaces without smile where prices are compared with the formula")
        .sub("bumped", 100000, 2000000, "the underlying has variance", case, bumped)
        .sub("several", 50000, 1000000, "several assets, and some bump moves paths", several_case, several)
        .sub("moments", 77000, 1500000, "the underlying has variance", moment_case, moments)
        .sub("correlated", 10000, 200000, "two assets or more", correlated_case, correlated)
        .sub("agree", 1000, 19000, "the price is beyond the sampling error", agree_case, agree)
        .main()
}
