//! C21: Black prices obey parity, bounds, monotonicity and limits.
use proptest::prelude::*;
use quantmath::math::optionpricing::Black76;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    df: f64,
    f: f64,
    k: f64,
    s: f64,
    /// other strikes and volatilities, as amounts above k and s
    dk: f64,
    ds: f64,
    scale: f64,
}

fn cases() -> BoxedStrategy<Case> {
    let size = || prop_oneof![3 => dec(50.0, 150.0, 2), 2 => dec(0.01, 10.0, 4), 1 => dec(1.0, 20000.0, 1)];
    let vol = prop_oneof![1 => Just(0.0), 2 => dec(0.00001, 0.01, 6), 5 => dec(0.01, 1.0, 4), 1 => dec(1.0, 8.0, 3)];
    let usual = (dec(0.05, 1.3, 4), size(), prop_oneof![1 => Just(-1.0), 1 => Just(-2.0), 8 => size()], vol, dec(0.001, 40.0, 3), dec(0.0001, 1.0, 4), dec(0.1, 10.0, 2))
        .prop_map(|(df, f, k, s, dk, ds, scale)| {
            let k = if k == -1.0 { f } else if k == -2.0 { 0.0 } else { k };
            Case { df, f, k, s, dk, ds, scale }
        });
    // strikes within a few deviations of the forward, however small the deviation
    let near = (usual.clone(), -9i32..0, dec(1.0, 10.0, 2), dec(-4.0, 4.0, 2)).prop_map(|(c, e, m, x)| {
        let s = m * 10f64.powi(e);
        Case { s, k: c.f * (x * s).exp(), ..c }
    });
    prop_oneof![4 => usual, 1 => near].boxed()
}

fn test(c: &Case, obs: &mut Obs) -> R {
    let b = Black76::new()?;
    let Case { df, f, k, s, dk, ds, scale } = *c;
    let call = |f: f64, k: f64, s: f64| b.call_price(df, f, k, s);
    let put = |f: f64, k: f64, s: f64| b.put_price(df, f, k, s);
    let tol = 2e-10 * df * (f + k + 2.0 * dk).max(1.0);
    let (cp, pp) = (call(f, k, s), put(f, k, s));
    obs.tag_if(s == 0.0, "no volatility");
    obs.tag_if(k == 0.0, "zero strike");
    obs.tag_if(k == f, "at the money");
    let tv = black(k > f, f, k, s);
    obs.nontrivial_if(tv > 1e-6 * f && s > 0.0);
    for (what, got, want) in [("call", cp, df * black(true, f, k, s)), ("put", pp, df * black(false, f, k, s))] {
        ensure!((got - want).abs() <= tol, "value", "{} with df {} forward {} strike {} vol {} is {}, reference {}", what, df, f, k, s, got, want);
    }
    ensure!((cp - pp - df * (f - k)).abs() <= tol, "parity", "call {} less put {} is not {} for {:?}", cp, pp, df * (f - k), c);
    ensure!(cp >= df * (f - k).max(0.0) - tol && cp <= df * f + tol, "call-bounds", "call {} for {:?}", cp, c);
    ensure!(pp >= df * (k - f).max(0.0) - tol && pp <= df * k + tol, "put-bounds", "put {} for {:?}", pp, c);
    // monotone and convex in strike
    let (c1, c2) = (call(f, k + dk, s), call(f, k + 2.0 * dk, s));
    let (p1, p2) = (put(f, k + dk, s), put(f, k + 2.0 * dk, s));
    ensure!(c1 <= cp + tol && p1 >= pp - tol, "strike-monotone", "call {} then {}, put {} then {} for {:?}", cp, c1, pp, p1, c);
    ensure!(cp - c1 <= df * dk + tol && p1 - pp <= df * dk + tol, "strike-slope", "call {} then {}, put {} then {} for {:?}", cp, c1, pp, p1, c);
    ensure!(cp + c2 >= 2.0 * c1 - 2.0 * tol && pp + p2 >= 2.0 * p1 - 2.0 * tol, "convex", "calls {} {} {} puts {} {} {} for {:?}", cp, c1, c2, pp, p1, p2, c);
    // monotone in volatility
    ensure!(call(f, k, s + ds) >= cp - tol && put(f, k, s + ds) >= pp - tol, "vol-monotone", "call {} then {} for {:?}", cp, call(f, k, s + ds), c);
    // homogeneous
    ensure!((call(scale * f, scale * k, s) - scale * cp).abs() <= tol * (1.0 + scale) && (put(scale * f, scale * k, s) - scale * pp).abs() <= tol * (1.0 + scale),
        "homogeneous", "{:?}", c);
    // discounting is a factor
    ensure!((b.call_price(1.0, f, k, s) * df - cp).abs() <= tol && (b.put_price(1.0, f, k, s) * df - pp).abs() <= tol, "discount", "{:?}", c);
    // vanishing volatility
    let tiny = 1e-9;
    ensure!((call(f, k, tiny) - df * (f - k).max(0.0)).abs() <= tol + df * f * tiny, "limit", "call at vanishing volatility {} for {:?}", call(f, k, tiny), c);
    Ok(())
}

fn main() {
    Check::new("C21")
        .assume("tolerance 2e-10 of forward plus strike, the accuracy of the normal distribution the library uses being about 3e-11; the reference normal distribution is evaluated by series and continued fraction")
        .sub("black", 2000000, 20000000, "positive volatility and time value above 1e-6 of the forward", cases, test)
        .sub("normal", 2000000, 20000000, "between -8 and 8", || dec(-12.0, 12.0, 5), |x: &f64, obs: &mut Obs| {
            obs.nontrivial_if(x.abs() < 8.0);
            let b = Black76::new()?;
            let got = b.cdf(*x);
            ensure!((got - norm_cdf(*x)).abs() <= 2e-10, "cdf", "normal distribution at {} is {}, reference {}", x, got, norm_cdf(*x));
            ensure!((got + b.cdf(-x) - 1.0).abs() <= 2e-10, "cdf-symmetry", "at {}", x);
            Ok(())
        })
        .main()
}
