//! C16: yield curves discount consistently.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::qm;
use quantmath::data::curves::RcRateCurve;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    curve: Curve,
    chain: Vec<i32>,
}

fn shown(r: &Result<f64, qm::Error>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("error {}", e),
    }
}

fn agree(what: &str, at: i32, got: Result<f64, qm::Error>, want: Option<f64>, tol: f64) -> R {
    let ok = match (&got, want) {
        (Ok(g), Some(w)) => (g.is_nan() && w.is_nan()) || close(*g, w, tol),
        (Err(_), None) => true,
        _ => false,
    };
    ensure!(ok, "value", "{} at {} is {}, expected {:?}", what, d(at), shown(&got), want);
    Ok(())
}

/// Continuing a steep first or last segment soon gives absurd rates; those are not judged.
fn sane(c: &Curve, n: i32) -> bool {
    let r = c.rate(n).unwrap_or(0.0);
    let inner = match c {
        Curve::Annualised(i, _) | Curve::Continuous(i, _) | Curve::Relative(i, _) => sane(i, n),
        _ => true,
    };
    inner && !(r.abs() > 1.0)
}

/// A factor between two dates from accumulated rates; equal dates need no rate.
fn factor(c: &Curve, a: i32, b: i32) -> Option<f64> {
    if a == b {
        return Some(1.0);
    }
    Some((c.rt(b)? - c.rt(a)?).exp())
}

fn curve(c: &Case, obs: &mut Obs) -> R {
    let lib: RcRateCurve = c.curve.build();
    obs.tag(c.curve.kind());
    let mut stack = &c.curve;
    let mut depth = 0;
    while let Curve::Annualised(i, _) | Curve::Continuous(i, _) | Curve::Relative(i, _) = stack {
        stack = i;
        depth += 1;
    }
    obs.tag_if(depth > 1, "stacked bumps");
    obs.tag_if(depth > 0 && stack.is_zero(), "bump of a zero curve");
    ensure!(lib.base_date() == d(c.curve.base()), "base", "base date is {} not {}", lib.base_date(), d(c.curve.base()));
    if lib.is_zero() {
        for n in &c.chain {
            ensure!(lib.rt(d(*n))? == 0.0, "zero", "the curve claims to be zero but is not at {}", d(*n));
        }
    }
    let mut at = c.chain.clone();
    let nontrivial;
    if let Curve::Act365 { points, left, right, .. } = stack {
        let (first, last) = (points[0].0, points[points.len() - 1].0);
        nontrivial = at.iter().any(|n| points.windows(2).any(|w| w[0].0 < *n && *n < w[1].0)) || depth > 0;
        obs.tag_if(at.iter().any(|n| *n < first), "left of the pillars");
        obs.tag_if(at.iter().any(|n| *n > last), "right of the pillars");
        obs.tag_if(at.iter().any(|n| *n < first) && *left == Ex::Throw || at.iter().any(|n| *n > last) && *right == Ex::Throw, "outside is an error");
        at.extend(points.iter().map(|p| p.0));
        for w in points.windows(2) {
            at.push((w[0].0 + w[1].0) / 2);
        }
    } else {
        nontrivial = depth > 0;
    }
    at.push(c.curve.base());
    if !at.iter().all(|n| sane(&c.curve, *n)) {
        obs.count("absurd rates, not judged", 1);
        return Ok(());
    }
    obs.nontrivial_if(nontrivial);
    for n in &at {
        let n = *n;
        agree("accumulated rate", n, lib.rt(d(n)), c.curve.rt(n), 1e-12)?;
        agree("factor to itself", n, lib.df(d(n), d(n)), Some(1.0), 0.0)?;
    }
    // chains of factors
    let mut product = 1.0;
    let mut whole = true;
    for w in c.chain.windows(2) {
        let got = lib.df(d(w[0]), d(w[1]));
        let want = factor(&c.curve, w[0], w[1]);
        agree("factor", w[1], got.clone(), want, 1e-12)?;
        let back = lib.df(d(w[1]), d(w[0]));
        agree("factor back", w[0], back.clone(), factor(&c.curve, w[1], w[0]), 1e-12)?;
        match (got, back) {
            (Ok(a), Ok(b)) if !a.is_nan() => {
                ensure!(close(a * b, 1.0, 1e-12), "inverse", "the factor from {} to {} is {} and back {}", d(w[0]), d(w[1]), a, b);
                product *= a;
            }
            _ => whole = false,
        }
    }
    if whole {
        let n = c.chain.len();
        if let Ok(direct) = lib.df(d(c.chain[0]), d(c.chain[n - 1])) {
            ensure!(close(direct, product, 1e-11) || direct.is_nan(), "chain", "along {:?} the factors multiply to {}, the whole is {}", c.chain, product, direct);
            obs.tag("chain complete");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bump {
    curve: Curve,
    by: f64,
    annual: bool,
    at: i32,
}

/// A flat bump adds exactly its size to the annualised or continuous rate.
fn bump(c: &Bump, obs: &mut Obs) -> R {
    use quantmath::data::bump::Bumper;
    use quantmath::data::bumpyield::BumpYield;
    let old = c.curve.build();
    let b = if c.annual { BumpYield::new_flat_annualised(c.by) } else { BumpYield::new_flat_continuously_compounded(c.by) };
    let new = b.apply(old.clone());
    obs.tag(if c.annual { "annualised" } else { "continuous" });
    obs.tag(c.curve.kind());
    obs.nontrivial_if(c.by != 0.0 && c.at != c.curve.base());
    let t = (c.at - c.curve.base()) as f64 / 365.0;
    let (was, is) = (old.rt(d(c.at))?, new.rt(d(c.at))?);
    if t == 0.0 {
        ensure!(is == 0.0, "base", "the accumulated rate on the base date became {}", is);
        return Ok(());
    }
    let added = if c.annual { (is / t).exp() - (was / t).exp() } else { is / t - was / t };
    ensure!((added - c.by).abs() <= 1e-11, "added", "a bump of {} added {} at {}", c.by, added, d(c.at));
    ensure!(new.base_date() == old.base_date(), "base", "the bump moved the base date");
    Ok(())
}

fn near(base: i32) -> BoxedStrategy<i32> {
    prop_oneof![2 => base - 60..base + 400, 3 => base - 60..base + 1800, 1 => base..base + 5].boxed()
}

fn main() {
    Check::new("C16")
        .assume("rates between -10% and 30%, pillars from 20 days before to about six years after the base date, bumps within 5% stacked up to three deep, the last from a millionth to 100%")
        .sub("curve", 1900000, 20000000, "a date strictly between two pillars, or a bumped curve",
            || (3000i32..60000).prop_flat_map(|n| {
                let c = prop_oneof![1 => Just(Curve::Zero { base: n }).boxed(), 6 => pillar_curve(n..n + 1, -0.1, 0.3, (ex(), ex()).boxed())].boxed();
                (bumped_curve(c), vec(near(n), 2..6))
            }).prop_map(|(curve, chain)| Case { curve, chain }), curve)
        .sub("bump", 2000000, 20000000, "a bump of non-zero size seen away from the base date",
            || (3000i32..60000).prop_flat_map(|n| (bumped_curve(smooth_curve(n..n + 1, -0.1, 0.3)), prop_oneof![3 => dec(-0.05, 0.05, 4), 1 => dec(-0.0001, 0.0001, 8), 1 => dec(-0.4, 1.0, 3)], any::<bool>(), near(n)))
                .prop_map(|(curve, by, annual, at)| Bump { curve, by, annual, at }), bump)
        .main()
}
