//! C05: a time-forward report equals valuing afresh at the later date.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::instruments::{PricingContext, RcInstrument};
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    instr: Instr,
    /// known on or before the market's date
    known: FixTable,
    /// bumps that have happened to the pricer before it is asked
    bumps: Vec<Bp>,
    gens: Vec<Gen>,
}

fn moments(i: &Instr) -> Vec<(usize, Moment)> {
    let mut v = Vec::new();
    for o in i.options() {
        if let Terms::Start { date, .. } = o.terms {
            v.push((o.under, date));
        }
        v.push((o.under, o.expiry));
    }
    v
}

/// The market and fixings at a later date
fn later(m: &Market, i: &Instr, t: &FixTable, to: i32, sticky_forward: bool) -> Result<(Market, FixTable, usize), quantmath::core::qm::Error> {
    let old = m.build()?;
    let mut next = m.clone();
    next.date = to;
    let forward = |n: usize, at: i32| -> Result<f64, quantmath::core::qm::Error> {
        // not moving at all keeps the spot, whatever the forward curve says of its base date
        if sticky_forward && to > m.date {
            old.forward_curve(&*m.equity(n), d(to))?.forward(d(at))
        } else {
            Ok(m.names[n].spot)
        }
    };
    for n in i.names() {
        next.names[n].spot = forward(n, to)?;
    }
    let mut table = FixTable { until: to, list: t.list.clone() };
    let mut added = 0;
    for (n, at) in moments(i) {
        if at.0 >= m.date && at.0 < to && !table.list.iter().any(|f| f.0 == n && f.1 == at) {
            table.list.push((n, at, forward(n, at.0)?));
            added += 1;
        }
    }
    Ok((next, table, added))
}

struct Ctx<'a> {
    c: &'a Case,
    rc: RcInstrument,
}

impl<'a> Ctx<'a> {
    /// Judges a report made on the market and fixings
    fn judge(&self, m: &Market, t: &FixTable, g: &Gen, rep: Result<Rep, String>, unbumped: f64, obs: &mut Obs) -> R {
        let (to, sticky, subs) = match g {
            Gen::Time(to, s, l) => (*to, *s, l),
            _ => return Ok(()),
        };
        let made = later(m, &self.c.instr, t, to, sticky).map_err(Fail::from).and_then(|(m2, t2, n)| self_pricer(&m2, &self.rc, &t2).and_then(|p| p.price().map_err(Fail::from).map(|x| (m2, t2, n, p, x))));
        let (m2, t2, added, mut p, price) = match made {
            Ok(x) => x,
            Err(e) => {
                ensure!(rep.is_err(), "not-refused", "{:?} gives {:?} though valuing afresh fails: {}", g, rep.unwrap(), e.msg);
                obs.tag("fails afresh");
                return Ok(());
            }
        };
        // what the same reports say of a pricer made there
        let mut save = p.as_bumpable().new_saveable();
        let mut fresh = Vec::new();
        for s in subs {
            match s.build().generate(&mut *p, &mut *save, price) {
                Ok(r) => fresh.push(Rep::of(&r)),
                Err(e) => {
                    ensure!(rep.is_err(), "not-refused", "{:?} gives {:?} though {:?} fails afresh: {}", g, rep.unwrap(), s, e);
                    obs.tag("report fails afresh");
                    return Ok(());
                }
            }
        }
        let rep = match rep {
            Ok(r) => r,
            Err(e) => bail!("refused", "{:?} fails: {}, though afresh the price is {} and the reports {:?}", g, e, price, fresh),
        };
        let (gp, gt, gs) = match &rep {
            Rep::Time(p, t, s) => (*p, *t, s),
            _ => bail!("kind", "{:?} gives {:?}", g, rep),
        };
        let tol = 1e-11 * size(m, &self.c.instr) + 1e-11 * size(&m2, &self.c.instr);
        ensure!((gp - price).abs() <= tol, "price", "{:?}: price {} though valued afresh {}", g, gp, price);
        ensure!((gt - (gp - unbumped)).abs() <= tol, "theta", "{:?}: theta {} though the price goes from {} to {}", g, gt, unbumped, gp);
        ensure!(gs.len() == fresh.len(), "sub-reports", "{:?}: {} sub-reports", g, gs.len());
        for ((s, a), b) in subs.iter().zip(gs).zip(&fresh) {
            let (mut x, mut y) = (Vec::new(), Vec::new());
            a.numbers("", &mut x);
            b.numbers("", &mut y);
            ensure!(x.len() == y.len(), "sub-reports", "{:?} within {:?}: {:?} not {:?}", s, g, a, b);
            let h = s.least();
            for (u, v) in x.iter().zip(&y) {
                let scale = if u.0.contains("gamma") || u.0.contains("volga") { 4.0 / (h * h) } else if u.0.contains("delta") || u.0.contains("vega") { 1.0 / h } else { 1.0 };
                ensure!(u.0 == v.0 && ((u.1 - v.1).abs() <= tol * scale + 1e-8 * v.1.abs() || same_bits(u.1, v.1)), "sub-reports", "{:?} within {:?}: {} {} though afresh {} {}", s, g, u.0, u.1, v.0, v.1);
            }
            obs.count("sub-reports", 1);
            // further time moves are judged from scratch too
            self.judge(&m2, &t2, s, Ok(a.clone()), price, obs)?;
        }
        obs.nontrivial_if(to > m.date && (price - unbumped).abs() > 100.0 * tol);
        obs.tag_if(added > 0, "crosses fixings");
        obs.tag_if(added > 1, "crosses several fixings");
        obs.tag_if(to == m.date, "same date");
        obs.tag_if(m.date > self.c.market.date, "nested");
        obs.tag(if sticky { "sticky forward" } else { "sticky spot" });
        Ok(())
    }
}

fn check(c: &Case, obs: &mut Obs) -> R {
    let rc = c.instr.build(&c.market)?;
    let mut m = c.market.clone();
    let mut p = match self_pricer(&m, &rc, &c.known) {
        Ok(p) => p,
        Err(_) => {
            obs.tag("no pricer");
            return Ok(());
        }
    };
    for b in &c.bumps {
        if p.as_mut_bumpable().bump(&b.build(), None).is_err() {
            obs.tag("bump refused");
            return Ok(());
        }
        b.apply(&mut m);
    }
    let unbumped = match p.price() {
        Ok(x) => x,
        Err(_) => {
            obs.tag("not priceable");
            return Ok(());
        }
    };
    let x = Ctx { c, rc };
    let names: Vec<usize> = c.instr.options().iter().map(|o| o.under).collect();
    let at = [m.date, m.date + 1];
    let before = probe(p.as_bumpable().context(), &m, &names, &at);
    let mut save = p.as_bumpable().new_saveable();
    for g in &c.gens {
        let r = g.build().generate(&mut *p, &mut *save, unbumped);
        let r = match r {
            Ok(r) => Ok(Rep::of(&r)),
            Err(e) => {
                // a report that fails part way may leave its bump in place
                x.judge(&m, &c.known, g, Err(e.to_string()), unbumped, obs)?;
                return Ok(());
            }
        };
        x.judge(&m, &c.known, g, r, unbumped, obs)?;
        let after = probe(p.as_bumpable().context(), &m, &names, &at);
        if let Some(e) = differs(&after, &before, 0.0) {
            bail!("disturbed", "after {:?} the market has changed: {}", g, e);
        }
        let again = p.price()?;
        ensure!(again == unbumped, "disturbed", "after {:?} the price is {} not {}", g, again, unbumped);
    }
    obs.tag_if(!c.known.list.is_empty(), "known fixings");
    obs.tag_if(!c.bumps.is_empty(), "after bumps");
    Ok(())
}

fn cases() -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let i = prop_oneof![2 => instrument(&m), 2 => option(&m, true).prop_map(Instr::Opt), 2 => {
                let l = prop_oneof![3 => option(&m, true).prop_map(Instr::Opt), 1 => leaf(&m)].boxed();
                basket_of(&m, l, 1..4)
            }];
            (Just(m), i)
        })
        .prop_flat_map(|(m, i)| {
            let when: Vec<i32> = moments(&i).iter().map(|x| x.1 .0).collect();
            let g = generator(m.date, &when).prop_filter_map("", |g| if let Gen::Time(..) = g { Some(g) } else { None });
            let t = prop_oneof![2 => Just(FixTable::none(m.date)), 1 => fixings_for(&i, &m)];
            let b = bump(m.names.len(), m.curves.len());
            let n = m.date;
            let wrap = (n..n + 40, any::<bool>(), vec(greek(), 0..3)).prop_map(|(n, s, l)| Gen::Time(n, s, l));
            (Just(m), Just(i), t, vec(b, 0..3), vec(prop_oneof![3 => g, 1 => wrap], 1..3))
        })
        .prop_map(|(market, instr, mut known, bumps, gens)| {
            known.until = market.date;
            // nothing is known at a moment unless everything needed before it is
            let all = moments(&instr);
            let list = known.list.clone();
            let knows = |x: &(usize, Moment)| list.iter().any(|f| (f.0, f.1) == *x);
            known.list.retain(|f| f.1 .0 <= market.date && all.iter().filter(|x| x.1 <= f.1 && x.1 .0 <= market.date).all(knows));
            let gens = gens.into_iter().map(|g| ordered(g, market.date)).collect();
            Case { market, instr, known, bumps, gens }
        })
        .boxed()
}

/// Nested moves go forward in time
fn ordered(g: Gen, from: i32) -> Gen {
    match g {
        Gen::Time(n, s, l) => {
            let n = n.max(from);
            Gen::Time(n, s, l.into_iter().map(|g| ordered(g, n)).collect())
        }
        g => g,
    }
}

fn main() {
    Check::new("C05")
        .assume("dates move forwards; fixings known beforehand are dated up to the market's date, and include all those of earlier moments; a report that fails may leave a bump in place")
        .sub("afresh", 150000, 3000000, "the date moves and the price changes well above rounding", cases, check)
        .main()
}
