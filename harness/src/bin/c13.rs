//! C13: fixing an option turns it into exactly the outcome its terms promise.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::InstanceId;
use quantmath::instruments::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    opt: Opt,
    at: Vec<Moment>,
    table: FixTable,
}

type Pieces = Vec<(f64, RcInstrument)>;

/// The pieces against those of the reference: weights, nature and prices.
fn same(c: &Case, what: &str, got: &Pieces, want: &[(f64, Instr)], obs: &mut Obs) -> R {
    let md = c.market.build()?;
    ensure!(got.len() == want.len(), what, "{}: {} pieces where {} are due", what, got.len(), want.len());
    let mut left: Vec<&(f64, Instr)> = want.iter().collect();
    for (w, i) in got {
        let pos = left.iter().position(|(x, r)| {
            close(*w, *x, 1e-12)
                && match r {
                    Instr::Equity(k) => i.id() == name_id(*k),
                    // of the pieces of an option only the strike payment is a bond
                    Instr::Zero { .. } => i.is_pure_rates(),
                    _ => !i.is_pure_rates() && !i.id().starts_with("EQ"),
                }
        });
        let pos = match pos {
            Some(p) => p,
            None => bail!(what, "{}: no {} of {} is due", what, w, i.id()),
        };
        let (_, r) = left.remove(pos);
        let r = r.build(&c.market)?;
        ensure!(i.payoff_currency().id() == r.payoff_currency().id(), "currency", "{}: a piece pays {}", what, i.payoff_currency().id());
        ensure!(i.credit_id() == r.credit_id(), "credit", "{}: a piece has the credit {} not {}", what, i.credit_id(), r.credit_id());
        for a in &c.at {
            let s = (i.settlement().apply(d(a.0)), r.settlement().apply(d(a.0)));
            ensure!(s.0 == s.1, "settlement", "{}: a piece settles on {} not {}", what, s.0, s.1);
        }
        for at in [vec![(c.market.date, Tod::Open)], c.at.clone(), vec![c.opt.expiry]] {
            match (prices(i, &md, &at), prices(&r, &md, &at)) {
                (Ok(g), Ok(w)) => {
                    for j in 0..g.len() {
                        ensure!(close(g[j], w[j], 1e-11), "worth", "{}: a piece is worth {} on {}, not {}", what, g[j], d(at[j].0), w[j]);
                    }
                }
                (Err(_), Err(_)) => {}
                (g, w) => bail!("worth", "{}: a piece is worth {:?} not {:?}", what, g, w),
            }
        }
        obs.count("pieces", 1);
    }
    Ok(())
}

fn outcome(c: &Case, obs: &mut Obs) -> R {
    let i = c.opt.build(&c.market)?;
    let table = c.table.build()?;
    match (i.fix(&table), c.opt.fixed(&c.table)) {
        (Err(_), Err(_)) => obs.tag("missing fixing"),
        (Ok(None), Ok(None)) => obs.tag("no change"),
        (Ok(Some(g)), Ok(Some(w))) => {
            obs.nontrivial();
            obs.tag(match (w.len(), c.opt.cash, &w.first().map(|x| &x.1)) {
                (0, _, _) => "worthless",
                (_, _, Some(Instr::Opt(_))) => "strike fixed",
                (_, true, _) => "cash payment",
                (_, false, _) => "physical delivery",
            });
            same(c, "fixing", &g, &w, obs)?;
        }
        (g, w) => bail!("outcome", "fixing gives {:?} where {:?} is due", g.map(|x| x.map(|v| v.len())), w),
    }
    Ok(())
}

/// First the fixings before some date, then the rest, give what all at once give.
fn in_steps(c: &Case, obs: &mut Obs) -> R {
    let i = c.opt.build(&c.market)?;
    let mut dates: Vec<i32> = c.table.list.iter().map(|f| f.1 .0).collect();
    dates.push(c.opt.expiry.0);
    dates.sort();
    dates.dedup();
    let all = match c.opt.fixed(&c.table) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    for n in dates {
        let n = n.min(c.table.until);
        let early = FixTable { until: n, list: c.table.list.iter().filter(|f| f.1 .0 < n).cloned().collect() };
        let first: Pieces = i.fix(&early.build()?)?.unwrap_or(vec![(1.0, i.clone())]);
        let changed = !(first.len() == 1 && first[0].1.id() == i.id() && matches!(c.opt.fixed(&early), Ok(None)));
        // the later table need not repeat what is already fixed
        let late = FixTable { until: c.table.until, list: c.table.list.iter().filter(|f| f.1 .0 >= n).cloned().collect() };
        for t in [&c.table, &late] {
            let fixed = match fix_all(&first, &t.build()?) {
                Ok(x) => x.unwrap_or(first.clone()),
                Err(e) => {
                    // an option whose strike is fixed by then no longer needs it
                    if t.list.len() == c.table.list.len() || changed {
                        bail!("steps", "fixing in steps fails: {}", e);
                    }
                    continue;
                }
            };
            let want = match &all {
                None => vec![(1.0, Instr::Opt(c.opt.clone()))],
                Some(v) => v.clone(),
            };
            obs.nontrivial_if(changed && all.is_some());
            obs.tag_if(changed && fixed.len() != first.len(), "both steps change it");
            same(c, "fixing in steps", &fixed, &want, obs)?;
        }
    }
    Ok(())
}

/// Whatever else the table holds does not matter.
fn unrelated(c: &Case, obs: &mut Obs) -> R {
    let i = c.opt.build(&c.market)?;
    let mut own = vec![c.opt.expiry];
    if let Terms::Start { date, .. } = c.opt.terms {
        own.push(date);
    }
    let relevant = |f: &(usize, Moment, f64)| f.0 == c.opt.under && own.contains(&f.1);
    let only = FixTable { until: c.table.until, list: c.table.list.iter().filter(|f| relevant(f)).cloned().collect() };
    obs.nontrivial_if(only.list.len() < c.table.list.len() && !only.list.is_empty());
    let (a, b) = (i.fix(&c.table.build()?), i.fix(&only.build()?));
    match (a, b) {
        (Err(_), Err(_)) | (Ok(None), Ok(None)) => Ok(()),
        (Ok(Some(a)), Ok(Some(b))) => {
            ensure!(a.len() == b.len(), "unrelated", "{} pieces with unrelated fixings, {} without", a.len(), b.len());
            for (x, y) in a.iter().zip(&b) {
                ensure!(x.0 == y.0 && x.1.id() == y.1.id(), "unrelated", "{} of {} with unrelated fixings, {} of {} without", x.0, x.1.id(), y.0, y.1.id());
            }
            Ok(())
        }
        (a, b) => bail!("unrelated", "{:?} with unrelated fixings, {:?} without", a.map(|x| x.map(|v| v.len())), b.map(|x| x.map(|v| v.len()))),
    }
}

fn cases() -> BoxedStrategy<Case> {
    market(TAME)
        .prop_flat_map(|m| {
            let o = option(&m, true);
            (Just(m), o)
        })
        .prop_flat_map(|(m, o)| {
            let t = fixings_for(&Instr::Opt(o.clone()), &m);
            let n = m.date;
            (Just(m), Just(o), vec((prop_oneof![n..n + 10, n..n + 800], tod()), 1..4), t).prop_map(|(market, opt, mut at, table)| {
                at.sort();
                Case { market, opt, at, table }
            })
        })
        .boxed()
}

fn main() {
    Check::new("C13")
        .assume("the strike date is not after the expiry; names are priced from complete market data")
        .sub("outcome", 280000, 5600000, "the fixings change the option", cases, outcome)
        .sub("in-steps", 150000, 3100000, "the first step changes the option", cases, in_steps)
        .sub("unrelated", 330000, 6700000, "the table holds both a fixing of the option and others", cases, unrelated)
        .main()
}
