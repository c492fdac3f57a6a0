//! C28: report comparison accepts exactly what is within tolerance.
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use quantmath::core::factories::Qbox;
use quantmath::facade::assert_approx_eq_reports;
use quantmath::risk::timebumped::TimeBumpedReport;
use quantmath::risk::BoxReport;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    /// moves the i-th number by this many tolerances
    Number(usize, f64),
    /// removes the i-th entry or report
    Drop(usize),
    /// adds to the i-th table or list
    Add(usize),
    /// renames the i-th entry
    Rename(usize),
    /// gives the i-th report another kind
    Kind(usize),
    /// swaps the i-th report with the one after it
    Swap(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    reports: Vec<Rep>,
    changes: Vec<Change>,
    tol: (f64, f64, f64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
    at: Vec<usize>,
    theta: bool,
    value: u8,
    tol: f64,
    price: f64,
}

/// What the comparison must say; the strings name what differs
enum Verdict {
    Same,
    Different(Vec<&'static str>),
    /// within rounding of the tolerance
    Unsure,
}

#[derive(Default)]
struct Found {
    numbers: Vec<&'static str>,
    structure: bool,
    unsure: bool,
}

/// The tolerance by either side's bump size: they differ when reports have been shuffled
fn number(f: &mut Found, what: &'static str, a: f64, b: f64, tol: (f64, f64)) {
    let x = (a - b).abs();
    if x >= tol.0.max(tol.1) * (1.0 + 1e-9) {
        f.numbers.push(what);
    } else if x > tol.0.min(tol.1) * (1.0 - 1e-9) {
        f.unsure = true;
    }
}

fn compare(a: &[Rep], b: &[Rep], tol: (f64, f64, f64), f: &mut Found) {
    if a.len() != b.len() {
        f.structure = true;
    }
    for (x, y) in a.iter().zip(b) {
        let tables = |f: &mut Found, s: &std::collections::BTreeMap<String, (f64, f64)>, t: &std::collections::BTreeMap<String, (f64, f64)>, w: [&'static str; 2], tol: f64, h: (f64, f64)| {
            if s.keys().ne(t.keys()) {
                f.structure = true;
            }
            for (k, v) in s {
                if let Some(u) = t.get(k) {
                    number(f, w[0], v.0, u.0, (tol / h.0, tol / h.1));
                    number(f, w[1], v.1, u.1, (tol / h.0 / h.0, tol / h.1 / h.1));
                }
            }
        };
        match (x, y) {
            (Rep::Delta(h, s), Rep::Delta(g, t)) => tables(f, s, t, ["delta", "gamma"], tol.2, (*h, *g)),
            (Rep::Vega(h, s), Rep::Vega(g, t)) => tables(f, s, t, ["vega", "volga"], tol.1, (*h, *g)),
            (Rep::Time(p, t, s), Rep::Time(q, u, r)) => {
                number(f, "price", *p, *q, (tol.0, tol.0));
                number(f, "theta", *t, *u, (tol.0, tol.0));
                compare(s, r, tol, f);
            }
            _ => f.structure = true,
        }
    }
}

fn verdict(a: &[Rep], b: &[Rep], tol: (f64, f64, f64)) -> Verdict {
    let mut f = Found::default();
    compare(a, b, tol, &mut f);
    if f.structure || !f.numbers.is_empty() {
        Verdict::Different(if f.structure { vec![] } else { f.numbers })
    } else if f.unsure {
        Verdict::Unsure
    } else {
        Verdict::Same
    }
}

// ------------------------------------------------------------------ changes

fn each_number<'a>(r: &'a mut [Rep], tol: (f64, f64, f64), out: &mut Vec<(&'a mut f64, f64)>) {
    for x in r {
        match x {
            Rep::Delta(h, t) => {
                for v in t.values_mut() {
                    out.push((&mut v.0, tol.2 / *h));
                    out.push((&mut v.1, tol.2 / *h / *h));
                }
            }
            Rep::Vega(h, t) => {
                for v in t.values_mut() {
                    out.push((&mut v.0, tol.1 / *h));
                    out.push((&mut v.1, tol.1 / *h / *h));
                }
            }
            Rep::Time(p, t, s) => {
                out.push((p, tol.0));
                out.push((t, tol.0));
                each_number(s, tol, out);
            }
        }
    }
}

/// Every list of reports
fn lists(r: &mut Vec<Rep>, f: &mut dyn FnMut(&mut Vec<Rep>)) {
    f(r);
    for x in r.iter_mut() {
        if let Rep::Time(_, _, s) = x {
            lists(s, f);
        }
    }
}

fn extra() -> Rep {
    Rep::Time(1.0, 0.0, vec![])
}

fn apply(r: &mut Vec<Rep>, c: &Change, tol: (f64, f64, f64)) {
    match *c {
        Change::Number(i, x) => {
            let mut all = Vec::new();
            each_number(r, tol, &mut all);
            if !all.is_empty() {
                let n = all.len();
                let (v, t) = &mut all[i % n];
                **v += x * *t;
            }
        }
        Change::Drop(i) | Change::Add(i) | Change::Rename(i) | Change::Kind(i) | Change::Swap(i) => {
            // sites are counted first, so that any number picks one
            for pass in 0..2 {
                let mut n = 0usize;
                let mut total = 0usize;
                let mut site = |do_it: &mut dyn FnMut()| {
                    if pass == 1 && n == i {
                        do_it();
                    }
                    n += 1;
                };
                lists(r, &mut |l: &mut Vec<Rep>| {
                    let len = l.len();
                    match c {
                        Change::Drop(_) => {
                            for k in 0..len {
                                site(&mut || {
                                    l.remove(k);
                                });
                                if l.len() < len {
                                    return;
                                }
                            }
                        }
                        Change::Add(_) => site(&mut || l.push(extra())),
                        Change::Kind(_) => {
                            for k in 0..len {
                                site(&mut || {
                                    l[k] = match &l[k] {
                                        Rep::Delta(h, t) => Rep::Vega(*h, t.clone()),
                                        Rep::Vega(h, t) => Rep::Delta(*h, t.clone()),
                                        Rep::Time(..) => Rep::Delta(0.01, Default::default()),
                                    }
                                });
                            }
                        }
                        Change::Swap(_) => {
                            for k in 1..len {
                                site(&mut || l.swap(k - 1, k));
                            }
                        }
                        _ => {}
                    }
                    for x in l.iter_mut() {
                        if let Rep::Delta(_, t) | Rep::Vega(_, t) = x {
                            match c {
                                Change::Add(_) => site(&mut || {
                                    t.insert("NEW".to_string(), (0.0, 0.0));
                                }),
                                Change::Drop(_) => {
                                    for k in t.keys().cloned().collect::<Vec<_>>() {
                                        site(&mut || {
                                            t.remove(&k);
                                        });
                                    }
                                }
                                Change::Rename(_) => {
                                    for k in t.keys().cloned().collect::<Vec<_>>() {
                                        site(&mut || {
                                            let v = t.remove(&k).unwrap();
                                            t.insert(format!("{}X", k), v);
                                        });
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                });
                total += n;
                if pass == 0 {
                    if total == 0 {
                        return;
                    }
                    if i >= total {
                        let j = i % total;
                        let c = match c {
                            Change::Drop(_) => Change::Drop(j),
                            Change::Add(_) => Change::Add(j),
                            Change::Rename(_) => Change::Rename(j),
                            Change::Kind(_) => Change::Kind(j),
                            _ => Change::Swap(j),
                        };
                        return apply(r, &c, tol);
                    }
                }
            }
        }
    }
}

fn build(r: &[Rep]) -> Result<Vec<BoxReport>, Fail> {
    r.iter().map(|x| x.build()).collect()
}

fn check(c: &Case, obs: &mut Obs) -> R {
    let a = &c.reports;
    let mut b = a.clone();
    for x in &c.changes {
        apply(&mut b, x, c.tol);
    }
    let (ra, rb) = (build(a)?, build(&b)?);
    let t = c.tol;
    for r in [&ra, &rb] {
        if let Err(e) = assert_approx_eq_reports(r, r, t.0, t.1, t.2) {
            bail!("itself", "a report is not accepted against itself: {}", e);
        }
    }
    let there = assert_approx_eq_reports(&ra, &rb, t.0, t.1, t.2);
    let back = assert_approx_eq_reports(&rb, &ra, t.0, t.1, t.2);
    match verdict(a, &b, t) {
        Verdict::Same => {
            for x in [&there, &back] {
                if let Err(e) = x {
                    bail!("rejected", "{:?} and {:?} differ by less than {:?} but are rejected: {}", a, b, t, e);
                }
            }
            obs.nontrivial_if(*a != b);
            obs.tag_if(*a != b, "within tolerance");
        }
        Verdict::Different(names) => {
            for x in [&there, &back] {
                match x {
                    Ok(()) => bail!("accepted", "{:?} and {:?} differ by more than {:?} but are accepted (one way {:?}, the other {:?})", a, b, t, there.is_ok(), back.is_ok()),
                    Err(e) => {
                        let s = e.to_string().to_lowercase();
                        for n in &names {
                            ensure!(s.contains(n), "not-named", "{:?} and {:?} differ by more than {:?} in {} which is not mentioned: {}", a, b, t, n, e);
                        }
                    }
                }
            }
            obs.nontrivial();
            obs.tag(if names.is_empty() { "structure differs" } else { "numbers differ" });
            obs.tag_if(names.len() == 1, "one number differs");
        }
        Verdict::Unsure => {
            // reports with different bump sizes have no common tolerance
            let shuffled = c.changes.iter().any(|x| matches!(x, Change::Drop(_) | Change::Swap(_)));
            ensure!(shuffled || there.is_ok() == back.is_ok(), "order", "{:?} against {:?}: {:?} but the other way {:?}", a, b, there.is_ok(), back.is_ok());
            obs.tag("at the tolerance");
        }
    }
    obs.tag_if(a.iter().any(|r| if let Rep::Time(_, _, s) = r { !s.is_empty() } else { false }), "nested");
    Ok(())
}

/// Numbers that cannot be written as text but can be compared
fn odd(c: &Odd, obs: &mut Obs) -> R {
    let value = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][c.value as usize % 3];
    // reports within reports, one of which holds the odd number
    fn tree(at: &[usize], price: f64, hit: &dyn Fn() -> (f64, f64)) -> BoxReport {
        let mut subs: Vec<BoxReport> = Vec::new();
        let (mut p, mut t) = (price, 0.0);
        match at.split_first() {
            None => {
                let h = hit();
                p = h.0;
                t = h.1;
            }
            Some((k, rest)) => {
                for _ in 0..*k {
                    subs.push(Qbox::new(Box::new(TimeBumpedReport::new(price, 1.0, vec![]))));
                }
                subs.push(tree(rest, price, hit));
            }
        }
        Qbox::new(Box::new(TimeBumpedReport::new(p, t, subs)))
    }
    let a = vec![tree(&c.at, c.price, &|| (c.price, 0.0))];
    let b = vec![tree(&c.at, c.price, &|| if c.theta { (c.price, value) } else { (value, 0.0) })];
    for (x, y) in [(&a, &b), (&b, &a)] {
        ensure!(assert_approx_eq_reports(x, y, c.tol, c.tol, c.tol).is_err(), "accepted-odd", "{} passes for a number with tolerance {}", value, c.tol);
    }
    obs.nontrivial();
    obs.tag_if(!c.at.is_empty(), "nested");
    Ok(())
}

fn value() -> BoxedStrategy<f64> {
    prop_oneof![1 => Just(0.0), 4 => dec(-100.0, 100.0, 3), 1 => -1e6f64..1e6].boxed()
}

fn report() -> BoxedStrategy<Rep> {
    let id = || prop::sample::select(vec!["EQ0", "EQ1", "BP.L", "GSK.L", "a", ""]).prop_map(|s| s.to_string());
    let h = || prop_oneof![2 => Just(0.01), 1 => Just(1.0), 3 => dec(0.0005, 0.2, 4)];
    let table = move || (h(), btree_map(id(), (value(), value()), 0..4));
    let leaf = prop_oneof![table().prop_map(|(h, t)| Rep::Delta(h, t)), table().prop_map(|(h, t)| Rep::Vega(h, t)), (value(), value()).prop_map(|(p, t)| Rep::Time(p, t, vec![]))];
    leaf.prop_recursive(3, 10, 3, |r| (value(), value(), vec(r, 0..4)).prop_map(|(p, t, s)| Rep::Time(p, t, s))).boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let k = || prop_oneof![0usize..4, 0usize..60];
    let x = prop_oneof![2 => prop_oneof![Just(0.99), Just(-0.99), Just(1.01), Just(-1.01)], 2 => -0.95f64..0.95, 2 => prop_oneof![1.05f64..3.0, -3.0f64..-1.05], 1 => 3.0f64..1e6];
    let small = -0.4f64..0.4;
    let change = prop_oneof![
        8 => (k(), x).prop_map(|(i, x)| Change::Number(i, x)),
        1 => k().prop_map(Change::Drop),
        1 => k().prop_map(Change::Add),
        1 => k().prop_map(Change::Rename),
        1 => k().prop_map(Change::Kind),
        1 => k().prop_map(Change::Swap),
    ];
    let changes = prop_oneof![
        1 => Just(vec![]),
        5 => vec(change.clone(), 1..2),
        2 => vec((k(), small.clone()).prop_map(|(i, x)| Change::Number(i, x)), 1..5),
        2 => (vec((k(), small).prop_map(|(i, x)| Change::Number(i, x)), 1..4), change.clone()).prop_map(|(mut v, c)| { v.push(c); v }),
        1 => vec(change, 2..4),
    ];
    let tol = || prop_oneof![Just(1e-6), Just(1e-3), Just(1.0), dec(0.001, 10.0, 3)];
    (vec(report(), 0..4), changes, (tol(), tol(), tol())).prop_map(|(reports, changes, tol)| Case { reports, changes, tol }).boxed()
}

fn odds() -> BoxedStrategy<Odd> {
    (vec(0usize..3, 0..4), any::<bool>(), 0u8..3, prop_oneof![Just(1e-6), Just(1.0), Just(1e300)], dec(-10.0, 10.0, 1)).prop_map(|(at, theta, value, tol, price)| Odd { at, theta, value, tol, price }).boxed()
}

fn main() {
    Check::new("C28")
        .assume("bump sizes are positive and the same in both reports; tolerances are positive; differences within 1e-9 of the tolerance are only judged for symmetry")
        .sub("pairs", 550000, 11000000, "the second report differs from the first", cases, check)
        .sub("odd", 2000000, 20000000, "always: one number is infinite or not a number", odds, odd)
        .main()
}
