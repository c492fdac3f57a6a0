//! C25: business-day counts and steps agree with the calendar's holidays.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Count {
    cal: Cal,
    from: i32,
    mid: i32,
    to: i32,
    ff: f64,
    mf: f64,
    tf: f64,
}

fn fraction() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.0), 2 => Just(1.0), 3 => dec(0.0, 1.0, 3)].boxed()
}

fn counts(spread: i32) -> BoxedStrategy<Count> {
    (1000i32..72000 - spread)
        .prop_flat_map(move |from| {
            (any_cal(from + spread / 2, spread), Just(from), prop_oneof![3 => 0i32..12, 3 => 0i32..spread, 1 => -12i32..0], 0u32..=1000, fraction(), fraction(), fraction())
        })
        .prop_map(|(cal, from, len, at, ff, mf, tf)| {
            let to = from + len;
            let mid = if len > 0 { from + (len as i64 * at as i64 / 1000) as i32 } else { from };
            let (mut ff, mut mf, mut tf) = (ff, mf, tf);
            // the three moments are in order of time
            if from == mid && ff > mf {
                std::mem::swap(&mut ff, &mut mf);
            }
            if mid == to && mf > tf {
                std::mem::swap(&mut mf, &mut tf);
            }
            if from == mid && ff > mf {
                std::mem::swap(&mut ff, &mut mf);
            }
            Count { cal, from, mid, to, ff, mf, tf }
        })
        .boxed()
}

fn count(c: &Count, obs: &mut Obs) -> R {
    let cal = c.cal.build();
    let got = cal.count_business_days(d(c.from), c.ff, d(c.to), c.tf);
    let want = c.cal.count(c.from, c.ff, c.to, c.tf);
    obs.tag(c.cal.kind());
    obs.tag_if(c.from > c.to, "end before start");
    obs.nontrivial_if(c.from < c.to && (c.from..=c.to).any(|n| c.cal.is_holiday(n)) && want != 0.0);
    let slack = 1e-9;
    ensure!((got - want).abs() <= slack, "count", "counted {} from {} {} to {} {}, day by day it is {}", got, d(c.from), c.ff, d(c.to), c.tf, want);
    if c.from <= c.to {
        let left = cal.count_business_days(d(c.from), c.ff, d(c.mid), c.mf);
        let right = cal.count_business_days(d(c.mid), c.mf, d(c.to), c.tf);
        ensure!((left + right - got).abs() <= slack, "additive", "{} + {} is not {} when splitting at {} {}", left, right, got, d(c.mid), c.mf);
    } else {
        ensure!(got == 0.0, "reversed", "counted {} with the end before the start", got);
    }
    for n in [c.from, c.mid, c.to] {
        ensure!(cal.is_holiday(d(n)) == c.cal.is_holiday(n), "holiday", "{} holiday is {}", d(n), cal.is_holiday(d(n)));
        ensure!(close(cal.day_weight(d(n)), c.cal.weight(n), 1e-15), "weight", "{} has weight {}", d(n), cal.day_weight(d(n)));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    cal: Cal,
    from: i32,
    step: i32,
    forward: bool,
}

fn step(c: &Step, obs: &mut Obs) -> R {
    let cal = c.cal.build();
    let got = cal.step(d(c.from), c.step, c.forward);
    let want = c.cal.step(c.from, c.step, c.forward);
    obs.tag(c.cal.kind());
    obs.tag_if(c.cal.is_holiday(c.from), "from a holiday");
    obs.tag_if(c.step != 0 && (c.step > 0) != c.forward, "slipping against the step");
    let (a, b) = (c.from.min(want), c.from.max(want));
    obs.nontrivial_if((a..=b).any(|n| c.cal.is_holiday(n)));
    ensure!(got == d(want), "step", "{} business days from {} (forward {}) is {}, one at a time it is {}", c.step, d(c.from), c.forward, got, d(want));
    ensure!(!cal.is_holiday(got), "lands", "step lands on the holiday {}", got);
    // the same number back again returns to the business day it set off from
    let start = cal.step(d(c.from), 0, c.forward);
    let back = cal.step(got, -c.step, c.step < 0);
    ensure!(back == start, "back", "stepping back from {} gives {} not {}", got, back, start);
    let whole = cal.step_partial(d(c.from), c.step as f64, c.forward);
    ensure!(whole == got, "whole-partial", "a partial step of a whole number {} gives {} not {}", c.step, whole, got);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slip {
    cal: Cal,
    from: i32,
}

fn main() {
    Check::new("C25")
        .assume("holiday lists are sorted, without repeats and without weekend dates, as the calendar requires")
        .assume("fractions are between zero and one, and the end is not before the start within one day")
        .sub("counts", 1300000, 20000000, "the end is after the start, a holiday lies in between, and the count is not zero", || counts(500), count)
        .sub("long counts", 600000, 12000000, "as for counts, up to 30 years", || counts(11000), count)
        .sub("steps", 2000000, 20000000, "a holiday lies on the way",
            || (3000i32..70000).prop_flat_map(|from| (plain_cal(from, 400), Just(from), prop_oneof![6 => -15i32..=15, 4 => -260i32..=260], any::<bool>(), 0u32..4)
                .prop_map(|(cal, from, step, any, w)| Step { cal, from, step, forward: if w == 0 { any } else if step == 0 { any } else { step > 0 } })), step)
        .sub("long steps", 60000, 1200000, "a holiday lies on the way",
            || (12000i32..60000).prop_flat_map(|from| (plain_cal(from, 9000), Just(from), -6000i32..=6000, any::<bool>())).prop_map(|(cal, from, step, forward)| Step { cal, from, step, forward }), step)
        .sub("slips", 2000000, 20000000, "starts on a holiday",
            || (3000i32..70000).prop_flat_map(|from| (plain_cal(from, 20), Just(from))).prop_map(|(cal, from)| Slip { cal, from }),
            |c: &Slip, obs: &mut Obs| {
                obs.nontrivial_if(c.cal.is_holiday(c.from));
                let cal = c.cal.build();
                for forward in [true, false] {
                    let got = cal.step(d(c.from), 0, forward);
                    ensure!(got == d(c.cal.slip(c.from, forward)), "slip", "{} slips to {}", d(c.from), got);
                    ensure!(cal.step(got, 0, forward) == got, "idempotent", "slipping twice from {}", d(c.from));
                }
                Ok(())
            })
        .main()
}
