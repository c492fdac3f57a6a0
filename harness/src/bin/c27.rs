//! C27: volatility time is additive, weighted by holiday and inverted by stepping.
use proptest::prelude::*;
use quantmath::dates::datetime::DateDayFraction;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Time {
    cal: Cal,
    at: Vec<(i32, f64)>,
}

fn time(c: &Time, obs: &mut Obs) -> R {
    let cal = c.cal.build();
    let mut at = c.at.clone();
    at.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let m: Vec<DateDayFraction> = at.iter().map(|(n, f)| DateDayFraction::new(d(*n), *f)).collect();
    obs.tag(c.cal.kind());
    ensure!(close(cal.standard_basis(), c.cal.basis(), 1e-13), "basis", "basis is {} not {}", cal.standard_basis(), c.cal.basis());
    let (a, b) = (at[0], at[at.len() - 1]);
    obs.nontrivial_if((a.0..=b.0).any(|n| c.cal.is_holiday(n)) && a.0 < b.0);
    let whole = cal.year_fraction(m[0], m[m.len() - 1]);
    let want = c.cal.year_fraction(a, b);
    ensure!((whole - want).abs() <= 1e-10, "time", "volatility time from {:?} to {:?} is {}, day by day it is {}", m[0], m[m.len() - 1], whole, want);
    let mut sum = 0.0;
    let mut last = 0.0;
    for i in 1..m.len() {
        let part = cal.year_fraction(m[i - 1], m[i]);
        ensure!(part >= -1e-15, "negative", "volatility time from {:?} to {:?} is {}", m[i - 1], m[i], part);
        sum += part;
        let upto = cal.year_fraction(m[0], m[i]);
        ensure!(upto >= last - 1e-13, "increasing", "volatility time to {:?} is {} after {}", m[i], upto, last);
        last = upto;
    }
    ensure!((sum - whole).abs() <= 1e-10, "additive", "the parts sum to {} not {}", sum, whole);
    ensure!(cal.year_fraction(m[0], m[0]).abs() <= 1e-15, "empty", "an empty interval has time {}", cal.year_fraction(m[0], m[0]));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    cal: Cal,
    from: i32,
    step: f64,
    forward: bool,
}

fn step(c: &Step, obs: &mut Obs) -> R {
    let cal = c.cal.build();
    let dir = if c.forward { 1.0 } else { -1.0 };
    let got = cal.step_partial(d(c.from), c.step * dir, c.forward).truncated_julian();
    obs.tag(c.cal.kind());
    obs.tag(if c.forward { "forward" } else { "back" });
    let covered = |n: i32| if c.forward { c.cal.count(c.from, 0.0, n, 0.0) } else { c.cal.count(n, 1.0, c.from, 1.0) };
    // running from the start, the best distance any date achieves
    let mut best = f64::MAX;
    let mut n = c.from;
    loop {
        let v = covered(n);
        best = best.min((v - c.step).abs());
        if v > c.step + 1.0 || (n - c.from).abs() > 4000 {
            break;
        }
        n += if c.forward { 1 } else { -1 };
    }
    ensure!(if c.forward { got >= c.from } else { got <= c.from }, "direction", "went from {} to {}", d(c.from), d(got));
    let off = (covered(got) - c.step).abs();
    obs.nontrivial_if(got != c.from && (c.from.min(got)..=c.from.max(got)).any(|n| c.cal.is_holiday(n)));
    obs.tag_if(c.step.fract() != 0.0, "fractional step");
    ensure!(off <= best + 1e-9, "closest", "a step of {} from {} lands on {}, which covers {}; some date is within {}", c.step, d(c.from), d(got), covered(got), best);
    Ok(())
}

fn main() {
    Check::new("C27")
        .assume("holiday weights are between zero and one; a holiday-weighted calendar wraps a plain one")
        .sub("time", 2000000, 20000000, "the interval contains a holiday and covers at least two dates",
            || (3000i32..70000).prop_flat_map(|n| (any_cal(n, 300), proptest::collection::vec((prop_oneof![n..n + 10, n..n + 700], dec(0.0, 0.999, 3)), 2..6))).prop_map(|(cal, at)| Time { cal, at }), time)
        .sub("steps", 410000, 8200000, "the step passes over or touches a holiday and moves",
            || (6000i32..66000).prop_flat_map(|n| (any_cal(n, 300), Just(n), prop_oneof![2 => dec(0.0, 8.0, 3), 1 => dec(0.0, 8.0, 0), 2 => dec(0.0, 300.0, 2)], any::<bool>(), (0u8..3, 0i32..60, dec(0.0, 0.99, 2), 0i32..60)))
                .prop_map(|(cal, from, step, forward, (how, a, f, n))| {
                    // one third of the steps are the time between two moments elsewhere, so
                    // that they land on a date exactly or miss it by rounding only
                    let step = if how == 0 { cal.count(from + a, f, from + a + n, f) } else { step };
                    Step { cal, from, step, forward }
                }), step)
        .main()
}
