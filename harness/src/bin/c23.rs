//! C23: the root finder returns a bracketed root or an error.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::qm;
use quantmath::math::brent::zbrent;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum F {
    /// product of (x - root) times an amplitude
    Poly(Vec<f64>, f64),
    /// continuous, straight between knots at equal spacing over the bracket
    Piecewise(Vec<f64>),
    /// atan(steepness * (x - root)) + tilt * (x - root)
    Steep(f64, f64, f64),
    /// exp(rate * x) - exp(rate * root)
    Exp(f64, f64),
    /// (x - root)^odd
    Power(f64, u32),
    /// sine of frequency, less a level
    Sine(f64, f64),
}

fn eval(f: &F, lo: f64, hi: f64, x: f64) -> f64 {
    match f {
        F::Poly(roots, amp) => roots.iter().fold(*amp, |v, r| v * (x - r)),
        F::Piecewise(ys) => {
            let n = ys.len() - 1;
            let t = (x - lo) / (hi - lo) * n as f64;
            let i = (t.floor() as i64).clamp(0, n as i64 - 1) as usize;
            let w = t - i as f64;
            ys[i] * (1.0 - w) + ys[i + 1] * w
        }
        F::Steep(k, r, tilt) => (k * (x - r)).atan() + tilt * (x - r),
        F::Exp(rate, r) => (rate * x).exp() - (rate * r).exp(),
        F::Power(r, n) => (x - r).powi(*n as i32),
        F::Sine(w, level) => (w * x).sin() - level,
    }
}

fn kind(f: &F) -> &'static str {
    match f {
        F::Poly(..) => "polynomial",
        F::Piecewise(_) => "piecewise",
        F::Steep(..) => "steep",
        F::Exp(..) => "exponential",
        F::Power(..) => "power",
        F::Sine(..) => "sine",
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    f: F,
    lo: f64,
    hi: f64,
    swap: bool,
    tol_exp: i32,
}

/// Functions for the bracket lo to lo + w. Mostly there is a sign change inside it.
fn functions(lo: f64, w: f64) -> BoxedStrategy<F> {
    let at = move || dec(-0.05, 1.05, 4).prop_map(move |t| ((lo + t * w) * 1e6).round() / 1e6);
    prop_oneof![
        2 => (vec(at(), 1..6), prop_oneof![dec(0.01, 20.0, 2), dec(-20.0, -0.01, 2)]).prop_map(|(r, a)| F::Poly(r, a)),
        5 => (vec(prop_oneof![dec(-1.0, 1.0, 4), dec(-1000.0, 1000.0, 1), Just(0.0)], 2..9), 0u32..8).prop_map(|(mut ys, keep)| {
            let n = ys.len() - 1;
            if keep > 0 && ys[0] * ys[n] > 0.0 {
                ys[n] = -ys[n];
            }
            F::Piecewise(ys)
        }),
        2 => (prop_oneof![dec(0.5, 50.0, 2), dec(50.0, 100000.0, 0)], at(), dec(0.0, 1.0, 3)).prop_map(|(k, r, t)| F::Steep(k, r, t)),
        2 => (prop_oneof![dec(0.05, 4.0, 2), dec(-4.0, -0.05, 2)], at()).prop_map(|(a, r)| F::Exp(a, r)),
        1 => (at(), prop_oneof![Just(1u32), Just(3), Just(5), Just(9)]).prop_map(|(r, n)| F::Power(r, n)),
        1 => (dec(0.1, 6.0, 2), dec(-0.99, 0.99, 3)).prop_map(|(w, l)| F::Sine(w, l)),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (dec(-12.0, 12.0, 3), dec(0.001, 24.0, 3))
        .prop_flat_map(|(lo, w)| (functions(lo, w), Just(lo), Just(lo + w), any::<bool>(), 2i32..13))
        .prop_map(|(f, lo, hi, swap, tol_exp)| Case { f, lo, hi, swap, tol_exp })
        .boxed()
}

fn test(c: &Case, obs: &mut Obs) -> R {
    let tol = 10f64.powi(-c.tol_exp);
    let (x1, x2) = if c.swap { (c.hi, c.lo) } else { (c.lo, c.hi) };
    let g = |x: f64| eval(&c.f, c.lo, c.hi, x);
    let (f1, f2) = (g(x1), g(x2));
    let bracketed = !((f1 > 0.0 && f2 > 0.0) || (f1 < 0.0 && f2 < 0.0));
    obs.tag(kind(&c.f));
    obs.tag_if(!bracketed, "not bracketed");
    let mut seen: Vec<(f64, f64)> = Vec::new();
    let got = zbrent(x1, x2, tol, 100_000, &mut |x| {
        let y = g(x);
        seen.push((x, y));
        Ok(y)
    });
    if !bracketed {
        ensure!(got.is_err(), "unbracketed", "no sign change between {} ({}) and {} ({}) but the result is {:?}", x1, f1, x2, f2, got.ok());
        return Ok(());
    }
    let root = match got {
        Ok(r) => r,
        Err(e) => bail!("error", "sign change between {} ({}) and {} ({}) but error {}", x1, f1, x2, f2, e),
    };
    let n = ((c.hi - c.lo) / tol).log2().max(0.0).ceil() + 2.0;
    obs.nontrivial_if(f1 != 0.0 && f2 != 0.0 && seen.len() > 4);
    obs.count("function evaluations", seen.len() as u64);
    let slack = 1e-13 * (1.0 + c.lo.abs() + c.hi.abs());
    for (x, _) in &seen {
        ensure!(*x >= c.lo - slack && *x <= c.hi + slack, "outside", "evaluated at {} outside {} to {}", x, c.lo, c.hi);
    }
    ensure!(root >= c.lo - slack && root <= c.hi + slack, "outside", "root {} outside {} to {}", root, c.lo, c.hi);
    // Brent's bound is of the order of the square of bisection's
    let bound = n * n + 10.0;
    obs.tag_if(seen.len() as f64 > 2.0 * n + 4.0, "more than twice bisection");
    ensure!((seen.len() as f64) <= bound, "slow", "{} evaluations where bisection takes {}", seen.len(), n);
    // a sign change within tolerance of the root
    let fr = g(root);
    let reach = tol + 4.0 * f64::EPSILON * root.abs() + 1e-15;
    let opposite = |y: f64| y == 0.0 || (y > 0.0) != (fr > 0.0);
    let near = fr == 0.0
        || seen.iter().any(|(x, y)| (x - root).abs() <= reach && opposite(*y))
        || (-8..=8).any(|i| opposite(g((root + reach * i as f64 / 8.0).max(c.lo).min(c.hi))));
    ensure!(near, "not-root", "{} with value {} is not within {} of a sign change", root, fr, tol);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    case: Case,
    /// the function fails at this evaluation
    at: usize,
}

fn failing(c: &Failing, obs: &mut Obs) -> R {
    let g = |x: f64| eval(&c.case.f, c.case.lo, c.case.hi, x);
    let mut count = 0;
    let mut failed = false;
    let got = zbrent(c.case.lo, c.case.hi, 1e-12, 100_000, &mut |x| {
        count += 1;
        if count == c.at {
            failed = true;
            return Err(qm::Error::new("deliberate failure"));
        }
        Ok(g(x))
    });
    obs.nontrivial_if(failed);
    if failed {
        match got {
            Ok(r) => bail!("swallowed", "the function failed at evaluation {} but the result is {}", c.at, r),
            Err(e) => ensure!(e.to_string().contains("deliberate failure"), "message", "the failure became {}", e),
        }
        ensure!(count == c.at, "continued", "evaluated {} times after failing at {}", count, c.at);
    }
    // too few iterations is an error, and enough iterations is not
    let mut evals = 0;
    let full = zbrent(c.case.lo, c.case.hi, 1e-12, 100_000, &mut |x| {
        evals += 1;
        Ok(g(x))
    });
    if let Ok(root) = full {
        if evals > 4 {
            let few = zbrent(c.case.lo, c.case.hi, 1e-12, (evals / 2 - 1) as u32, &mut |x| Ok(g(x)));
            ensure!(few.is_err(), "iterations", "needs {} evaluations but {} iterations gave {:?}", evals, evals / 2 - 1, few.ok());
            let enough = zbrent(c.case.lo, c.case.hi, 1e-12, evals as u32, &mut |x| Ok(g(x)));
            ensure!(enough.ok() == Some(root), "iterations", "{} evaluations are enough, but not as the limit", evals);
        }
    }
    Ok(())
}

fn main() {
    Check::new("C23")
        .assume("functions are finite and continuous on the bracket; tolerance from 1e-2 to 1e-12")
        .sub("roots", 2000000, 20000000, "neither end is a root and more than four evaluations were needed", cases, test)
        .sub("failures", 2000000, 20000000, "the function was made to fail", || (cases(), 1usize..14).prop_map(|(case, at)| Failing { case, at }), failing)
        .main()
}
