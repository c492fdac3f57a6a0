//! C17: interpolators hit their points and honour each side's extrapolation.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::qm;
use quantmath::dates::Date;
use quantmath::math::interpolation::*;
use serde::{Deserialize, Serialize};
use vh::*;

/// What a query should give: a value and the size of its terms, not-a-number, or an error.
#[derive(Debug)]
enum Want {
    Exact(f64),
    Near(f64, f64),
    Nan,
    Error,
}

fn outside(e: Ex, end: f64) -> Want {
    match e {
        Ex::Flat => Want::Exact(end),
        Ex::Zero => Want::Exact(0.0),
        Ex::NotANumber => Want::Nan,
        Ex::Throw | Ex::Natural => Want::Error,
    }
}

fn line(a: (f64, f64), b: (f64, f64), x: f64) -> Want {
    let s = (b.1 - a.1) / (b.0 - a.0);
    Want::Near(a.1 + s * (x - a.0), a.1.abs() + b.1.abs() + (s * (x - a.0)).abs())
}

fn linear_want(p: &[(f64, f64)], l: Ex, r: Ex, x: f64) -> Want {
    let n = p.len();
    if let Some(q) = p.iter().find(|q| q.0 == x) {
        return Want::Exact(q.1);
    }
    if x < p[0].0 {
        if l == Ex::Natural && n > 1 {
            return line(p[0], p[1], x);
        }
        return outside(l, p[0].1);
    }
    if x > p[n - 1].0 {
        if r == Ex::Natural && n > 1 {
            return line(p[n - 2], p[n - 1], x);
        }
        return outside(r, p[n - 1].1);
    }
    let i = (1..n).find(|i| x < p[*i].0).unwrap();
    line(p[i - 1], p[i], x)
}

fn spline_want(p: &[(f64, f64)], m: &[f64], l: Ex, r: Ex, x: f64) -> Want {
    let n = p.len();
    if let Some(q) = p.iter().find(|q| q.0 == x) {
        return Want::Exact(q.1);
    }
    let i = if x < p[0].0 {
        if l != Ex::Natural {
            return outside(l, p[0].1);
        }
        1
    } else if x > p[n - 1].0 {
        if r != Ex::Natural {
            return outside(r, p[n - 1].1);
        }
        n - 1
    } else {
        (1..n).find(|i| x < p[*i].0).unwrap()
    };
    let (v, s) = spline_piece(p[i - 1], p[i], m[i - 1], m[i], x);
    Want::Near(v, s)
}

fn judge(what: &str, x: f64, got: Result<f64, qm::Error>, want: &Want) -> R {
    let ok = match (want, &got) {
        (Want::Exact(v), Ok(g)) => v == g,
        (Want::Near(v, s), Ok(g)) => (v - g).abs() <= 1e-10 * (1.0 + s),
        (Want::Nan, Ok(g)) => g.is_nan(),
        (Want::Error, Err(_)) => true,
        _ => false,
    };
    ensure!(ok, "value", "{} at {} gives {:?}, expected {:?}", what, x, got.map_err(|e| e.to_string()), want);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    start: i32,
    gaps: Vec<i32>,
    ys: Vec<f64>,
    left: Ex,
    right: Ex,
    queries: Vec<i32>,
}

impl Case {
    fn xs(&self) -> Vec<i32> {
        let mut x = self.start;
        let mut out = vec![x];
        for g in &self.gaps {
            x += g;
            out.push(x);
        }
        out
    }
    /// Query positions: the generated offsets, every point, and every midpoint.
    fn at(&self) -> Vec<i32> {
        let xs = self.xs();
        let mut q: Vec<i32> = self.queries.iter().map(|q| self.start + q).collect();
        q.extend(&xs);
        q.push(xs[0] - 1);
        q.push(xs[xs.len() - 1] + 1);
        for w in xs.windows(2) {
            q.push((w[0] + w[1]) / 2);
        }
        q
    }
}

fn cases(min_points: usize) -> BoxedStrategy<Case> {
    (2000i32..60000, vec(prop_oneof![1i32..4, 1i32..400], min_points - 1..9), ex(), ex(), vec(-800i32..2400, 0..8))
        .prop_flat_map(|(start, gaps, left, right, queries)| {
            let n = gaps.len() + 1;
            (Just(start), Just(gaps), vec(dec(-50.0, 50.0, 3), n..=n), Just(left), Just(right), Just(queries))
        })
        .prop_map(|(start, gaps, ys, left, right, queries)| {
            let span: i32 = gaps.iter().sum();
            // keep natural continuations within a few spans of the points
            let queries = queries.into_iter().map(|q| q.clamp(-2 * span - 10, 3 * span + 10)).collect();
            Case { start, gaps, ys, left, right, queries }
        })
        .boxed()
}

fn classify(c: &Case, obs: &mut Obs) {
    let xs = c.xs();
    let at = c.at();
    let l = at.iter().any(|q| *q < xs[0]);
    let r = at.iter().any(|q| *q > xs[xs.len() - 1]);
    obs.tag(&format!("left {:?}", c.left));
    obs.tag(&format!("right {:?}", c.right));
    obs.tag_if(xs.len() == 1, "one point");
    obs.nontrivial_if(l && r && c.left != c.right && xs.len() > 1);
}

fn linear(c: &Case, obs: &mut Obs) -> R {
    classify(c, obs);
    let xs = c.xs();
    let pf: Vec<(f64, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (*x as f64, *y)).collect();
    let pi: Vec<(i32, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (*x, *y)).collect();
    let pd: Vec<(Date, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (d(*x), *y)).collect();
    let (l, r) = (c.left.build(), c.right.build());
    let of = Linear::new(&pf, l, r)?;
    let oi = Linear::new(&pi, l, r)?;
    let od = Linear::new(&pd, l, r)?;
    let fly_f = FlyweightLinear::new(l, r);
    let fly_d = FlyweightLinear::new(l, r);
    let back: Linear<f64> = serde_json::from_str(&serde_json::to_string(&of)?)?;
    for q in c.at() {
        let x = q as f64;
        let want = linear_want(&pf, c.left, c.right, x);
        judge("linear over numbers", x, of.interpolate(x), &want)?;
        judge("linear over integers", x, oi.interpolate(q), &want)?;
        judge("linear over dates", x, od.interpolate(d(q)), &want)?;
        judge("flyweight linear over numbers", x, fly_f.interpolate(x, &pf), &want)?;
        judge("flyweight linear over dates", x, fly_d.interpolate(d(q), &pd), &want)?;
        judge("linear read back from json", x, back.interpolate(x), &want)?;
        obs.count("queries", 1);
    }
    // numbers that are not whole, only between and outside the points
    for w in c.at().windows(2) {
        let x = w[0] as f64 + 0.37 * (w[1] - w[0]) as f64;
        judge("linear over numbers", x, of.interpolate(x), &linear_want(&pf, c.left, c.right, x))?;
    }
    Ok(())
}

fn spline(c: &Case, obs: &mut Obs) -> R {
    classify(c, obs);
    let xs = c.xs();
    let pf: Vec<(f64, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (*x as f64, *y)).collect();
    let pi: Vec<(i32, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (*x, *y)).collect();
    let pd: Vec<(Date, f64)> = xs.iter().zip(&c.ys).map(|(x, y)| (d(*x), *y)).collect();
    let (l, r) = (c.left.build(), c.right.build());
    let of = CubicSpline::new(&pf, l, r)?;
    let oi = CubicSpline::new(&pi, l, r)?;
    let od = CubicSpline::new(&pd, l, r)?;
    let back: CubicSpline<f64> = serde_json::from_str(&serde_json::to_string(&of)?)?;
    let m = spline_moments(&pf, c.left == Ex::Natural, c.right == Ex::Natural);
    for q in c.at() {
        let x = q as f64;
        let want = spline_want(&pf, &m, c.left, c.right, x);
        judge("spline over numbers", x, of.interpolate(x), &want)?;
        judge("spline over integers", x, oi.interpolate(q), &want)?;
        judge("spline over dates", x, od.interpolate(d(q)), &want)?;
        judge("spline read back from json", x, back.interpolate(x), &want)?;
        obs.count("queries", 1);
    }
    for w in c.at().windows(2) {
        let x = w[0] as f64 + 0.37 * (w[1] - w[0]) as f64;
        judge("spline over numbers", x, of.interpolate(x), &spline_want(&pf, &m, c.left, c.right, x))?;
    }
    Ok(())
}

/// Points an interpolator must refuse. `None` is not-a-number.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    xs: Vec<Option<f64>>,
    ys: Vec<f64>,
    kind: String,
    left: Ex,
    right: Ex,
}

fn bad_strategy() -> BoxedStrategy<Bad> {
    (vec(1i32..200, 0..7), vec(dec(-5.0, 5.0, 2), 8..=8), 0usize..5, any::<prop::sample::Index>(), any::<prop::sample::Index>(), ex(), ex())
        .prop_map(|(gaps, ys, kind, i, j, left, right)| {
            let mut x = 100.0;
            let mut xs: Vec<Option<f64>> = vec![Some(x)];
            for g in &gaps {
                x += *g as f64 / 8.0;
                xs.push(Some(x));
            }
            let n = xs.len();
            let kind = match kind {
                0 if n > 1 => {
                    // repeat one of the positions
                    let k = 1 + i.index(n - 1);
                    xs[k] = xs[k - 1];
                    "repeated"
                }
                1 if n > 1 => {
                    let (a, b) = (i.index(n), j.index(n));
                    let (a, b) = if a == b { (0, n - 1) } else { (a, b) };
                    xs.swap(a, b);
                    "unsorted"
                }
                2 => {
                    xs.clear();
                    "none"
                }
                3 => {
                    xs[i.index(n)] = None;
                    "not a number"
                }
                _ => {
                    xs.truncate(1);
                    "one"
                }
            };
            let ys = ys[..xs.len()].to_vec();
            Bad { xs, ys, kind: kind.to_string(), left, right }
        })
        .boxed()
}

fn bad(c: &Bad, obs: &mut Obs) -> R {
    obs.tag(&c.kind);
    obs.nontrivial();
    let p: Vec<(f64, f64)> = c.xs.iter().zip(&c.ys).map(|(x, y)| (x.unwrap_or(f64::NAN), *y)).collect();
    let (l, r) = (c.left.build(), c.right.build());
    let lin = no_panic(|| Linear::new(&p, l, r).is_err());
    let spl = no_panic(|| CubicSpline::new(&p, l, r).is_err());
    // linear interpolation is content with one point
    let lin_expected = c.kind != "one";
    ensure!(lin == Ok(lin_expected), "linear-accepts", "linear on {} points {:?}: rejected {:?}", c.kind, p, lin);
    ensure!(spl == Ok(true), "spline-accepts", "spline on {} points {:?}: rejected {:?}", c.kind, p, spl);
    ensure!(validate_abscissae(&p).is_err() == lin_expected, "validate", "validation of {} points {:?}", c.kind, p);
    if c.xs.iter().all(|x| x.is_some()) {
        let json = serde_json::json!({ "left": format!("{:?}", c.left), "right": format!("{:?}", c.right), "points": p }).to_string();
        let lin = no_panic(|| serde_json::from_str::<Linear<f64>>(&json).is_err());
        let spl = no_panic(|| serde_json::from_str::<CubicSpline<f64>>(&json).is_err());
        ensure!(lin == Ok(lin_expected), "linear-reads", "reading linear {}: rejected {:?}", json, lin);
        ensure!(spl == Ok(true), "spline-reads", "reading spline {}: rejected {:?}", json, spl);
    }
    Ok(())
}

fn main() {
    Check::new("C17")
        .assume("positions are at least 1/8 apart; queries are numbers; the tolerance is 1e-10 of the terms summed")
        .assume("a spline has zero second derivative at an end with natural extrapolation and zero slope at any other end")
        .sub("linear", 1600000, 20000000, "two or more points, asked on both sides, with different rules for the two sides", || cases(1), linear)
        .sub("spline", 1600000, 20000000, "asked on both sides, with different rules for the two sides", || cases(2), spline)
        .sub("rejected points", 2000000, 20000000, "every case", bad_strategy, bad)
        .main()
}
