//! C26: date rules give the business day their convention names.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    rule: Rule,
    date: i32,
    span: i32,
}

fn test(c: &Case, obs: &mut Obs) -> R {
    let rule = c.rule.build();
    obs.tag(c.rule.kind());
    let mut moved = false;
    let mut last: Option<(i32, i32)> = None;
    for n in c.date..c.date + c.span {
        let got = rule.apply(d(n)).truncated_julian();
        let want = c.rule.apply(n);
        ensure!(got == want, "rule", "{:?} takes {} to {}, the convention gives {}", c.rule.kind(), d(n), d(got), d(want));
        moved |= got != n;
        if let Some(cal) = c.rule.cal() {
            ensure!(!cal.is_holiday(got), "holiday", "{} goes to the holiday {}", d(n), d(got));
        }
        match c.rule {
            Rule::Null => ensure!(got == n, "null", "{} moved", d(n)),
            Rule::Next(_) | Rule::Step(..) => ensure!(got >= n, "direction", "{} went back to {}", d(n), d(got)),
            Rule::Prev(_) | Rule::Back(..) => ensure!(got <= n, "direction", "{} went on to {}", d(n), d(got)),
            Rule::ModifiedFollowing(_) => {
                if civil(got).1 != civil(n).1 {
                    // only if the whole month up to the date is holiday: no order then
                    last = None;
                    obs.tag("month of holidays");
                    continue;
                }
                if got != n && civil(got) < civil(n) {
                    obs.tag("modified following went back");
                }
            }
        }
        if let Some((m, prev)) = last {
            ensure!(prev <= got, "order", "{} goes to {} but {} goes to {}", d(m), d(prev), d(n), d(got));
        }
        last = Some((n, got));
    }
    obs.nontrivial_if(moved);
    Ok(())
}

fn main() {
    Check::new("C26")
        .assume("holiday lists are sorted, without repeats and without weekend dates, as the calendar requires")
        .sub("rules", 2000000, 20000000, "the rule moves at least one of the dates",
            || (3000i32..70000).prop_flat_map(|n| (any_rule(n, 40), Just(n), 2i32..30)).prop_map(|(rule, date, span)| Case { rule, date, span }), test)
        .main()
}
