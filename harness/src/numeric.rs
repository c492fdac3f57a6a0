//! Independent numerical reference code.

/// Complementary error function, accurate to about 1e-15 relative: a power series near
/// zero and a continued fraction further out.
pub fn erfc(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    if x < 0.0 {
        return 2.0 - erfc(-x);
    }
    if x > 27.5 {
        return 0.0;
    }
    if x < 2.0 {
        // erf(x) = 2/sqrt(pi) exp(-x^2) sum 2^n x^(2n+1) / (2n+1)!!
        let mut term = x;
        let mut sum = x;
        let mut n = 0.0;
        while term.abs() > 1e-18 * sum.abs() {
            n += 1.0;
            term *= 2.0 * x * x / (2.0 * n + 1.0);
            sum += term;
            if n > 500.0 {
                break;
            }
        }
        return 1.0 - 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp() * sum;
    }
    // continued fraction, evaluated from the far end
    let mut f = 0.0;
    for k in (1..=200).rev() {
        f = (k as f64 / 2.0) / (x + f);
    }
    (-x * x).exp() / std::f64::consts::PI.sqrt() / (x + f)
}

pub fn norm_cdf(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}

/// Undiscounted Black value with every limit handled.
pub fn black(call: bool, f: f64, k: f64, s: f64) -> f64 {
    let intrinsic = if call { (f - k).max(0.0) } else { (k - f).max(0.0) };
    if s == 0.0 || k <= 0.0 || f <= 0.0 {
        return intrinsic;
    }
    let d1 = (f / k).ln() / s + 0.5 * s;
    let d2 = d1 - s;
    if call {
        f * norm_cdf(d1) - k * norm_cdf(d2)
    } else {
        k * norm_cdf(-d2) - f * norm_cdf(-d1)
    }
}

/// Second derivatives at the knots of the C2 cubic through the points, by elimination on
/// the full matrix. At each end either the second derivative or the slope is zero.
pub fn spline_moments(p: &[(f64, f64)], natural_left: bool, natural_right: bool) -> Vec<f64> {
    let n = p.len();
    let mut a = vec![vec![0.0; n + 1]; n];
    for i in 0..n {
        if i == 0 {
            if natural_left {
                a[0][0] = 1.0;
            } else {
                let h = p[1].0 - p[0].0;
                a[0][0] = h / 3.0;
                a[0][1] += h / 6.0;
                a[0][n] = (p[1].1 - p[0].1) / h;
            }
        } else if i == n - 1 {
            if natural_right {
                a[i][i] = 1.0;
            } else {
                let h = p[i].0 - p[i - 1].0;
                a[i][i - 1] += h / 6.0;
                a[i][i] += h / 3.0;
                a[i][n] = -(p[i].1 - p[i - 1].1) / h;
            }
        } else {
            let h0 = p[i].0 - p[i - 1].0;
            let h1 = p[i + 1].0 - p[i].0;
            a[i][i - 1] = h0 / 6.0;
            a[i][i] = (h0 + h1) / 3.0;
            a[i][i + 1] = h1 / 6.0;
            a[i][n] = (p[i + 1].1 - p[i].1) / h1 - (p[i].1 - p[i - 1].1) / h0;
        }
    }
    for i in 0..n {
        let mut best = i;
        for r in i + 1..n {
            if a[r][i].abs() > a[best][i].abs() {
                best = r;
            }
        }
        a.swap(i, best);
        for r in i + 1..n {
            let m = a[r][i] / a[i][i];
            if m != 0.0 {
                for c in i..=n {
                    let v = a[i][c];
                    a[r][c] -= m * v;
                }
            }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        let mut v = a[i][n];
        for c in i + 1..n {
            v -= a[i][c] * x[c];
        }
        x[i] = v / a[i][i];
    }
    x
}

/// Value of the cubic piece between two knots, which may be continued outside them; also
/// the sum of the magnitudes of the terms, for the tolerance.
pub fn spline_piece(lo: (f64, f64), hi: (f64, f64), m_lo: f64, m_hi: f64, x: f64) -> (f64, f64) {
    let h = hi.0 - lo.0;
    // Newton form about the left knot
    let t = x - lo.0;
    let slope = (hi.1 - lo.1) / h - h * (2.0 * m_lo + m_hi) / 6.0;
    let third = (m_hi - m_lo) / h;
    let terms = [lo.1, slope * t, m_lo * t * t / 2.0, third * t * t * t / 6.0];
    (terms.iter().sum(), terms.iter().map(|v| v.abs()).sum())
}
