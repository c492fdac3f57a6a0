//! C12: baskets price, fix and depend as the weighted sum of their components.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::instruments::*;
use quantmath::risk::dependencies::DependencyCollector;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    basket: Instr,
    at: Vec<Moment>,
    table: FixTable,
}

fn parts(b: &Instr) -> &[(f64, Instr)] {
    match b {
        Instr::Basket { parts, .. } => parts,
        _ => panic!("generated as a basket"),
    }
}

/// Sum of components priced one by one, and the size of its terms; an error if any fails.
fn sum(parts: &[(f64, RcInstrument)], ctx: &dyn PricingContext, at: &[Moment]) -> Result<(Vec<f64>, Vec<f64>), quantmath::core::qm::Error> {
    let mut total = vec![0.0; at.len()];
    let mut size = vec![1.0; at.len()];
    for (w, i) in parts {
        for (j, p) in prices(i, ctx, at)?.into_iter().enumerate() {
            total[j] += w * p;
            size[j] += (w * p).abs();
        }
    }
    Ok((total, size))
}

fn same_sum(what: &str, got: Result<Vec<f64>, quantmath::core::qm::Error>, want: Result<(Vec<f64>, Vec<f64>), quantmath::core::qm::Error>) -> R {
    match (got, want) {
        (Err(_), Err(_)) => {}
        (Ok(g), Ok((w, s))) => {
            for j in 0..g.len() {
                ensure!((g[j] - w[j]).abs() <= 1e-11 * s[j] || same_bits(g[j], w[j]), what, "{}: worth {}, the components {}", what, g[j], w[j]);
            }
        }
        (g, w) => bail!(what, "{}: {:?} where the components give {:?}", what, g, w.map(|x| x.0)),
    }
    Ok(())
}

fn price(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let b = c.basket.build(&c.market)?;
    let mut p = Vec::new();
    for (w, i) in parts(&c.basket) {
        p.push((*w, i.build(&c.market)?));
    }
    obs.nontrivial_if(p.len() > 1);
    obs.tag_if(p.is_empty(), "empty");
    obs.tag_if(c.basket.depth() > 1, "nested");
    obs.tag_if(p.iter().any(|x| x.0 < 0.0), "negative weight");
    obs.tag_if(p.iter().enumerate().any(|(i, x)| p[..i].iter().any(|y| y.1.id() == x.1.id())), "repeated component");
    let today = [(c.market.date, Tod::Open)];
    same_sum("price", prices(&b, &md, &today), sum(&p, &md, &today))?;
    same_sum("prices", prices(&b, &md, &c.at), sum(&p, &md, &c.at))?;
    // down to the leaves
    let mut l = Vec::new();
    for (w, i) in c.basket.leaves() {
        l.push((w, i.build(&c.market)?));
    }
    same_sum("leaves", prices(&b, &md, &c.at), sum(&l, &md, &c.at))?;
    // as the reference has it
    for a in today.iter() {
        if let Some((want, tol)) = c.basket.value(&c.market, *a, true) {
            if c.market.names.iter().all(|n| n.divs.yld.is_zero()) {
                let got = prices(&b, &md, &[*a])?[0];
                if !tol.is_nan() && tol < 1e-3 {
                    obs.tag("against the reference");
                    ensure!((got - want).abs() <= tol + 1e-9, "reference", "worth {}, the reference gives {} within {}", got, want, tol);
                }
            }
        }
    }
    Ok(())
}

/// Everything an instrument set depends on, in a comparable form
fn needs(m: &Market, list: &[RcInstrument]) -> Vec<String> {
    let mut c = DependencyCollector::new(d(m.date));
    for i in list {
        c.spot(i);
    }
    let mut out = Vec::new();
    for i in 0..m.names.len() {
        let e = m.equity(i);
        out.push(format!("{}: spot {} forward {:?} vol {:?} known {}", name_id(i), c.has_spot(&e), c.forward_curve_hwm(&e), c.vol_surface_hwm(&e), c.instrument_by_id(&name_id(i)).is_some()));
        let mut f: Vec<_> = c.fixings(&name_id(i)).iter().map(|x| format!("{} {:?}", x.date(), x.time_of_day())).collect();
        f.sort();
        f.dedup();
        out.push(format!("{} fixings {:?}", name_id(i), f));
    }
    for i in 0..m.curves.len() {
        let mut ids = c.forward_id_by_credit_id(&credit_id(i)).to_vec();
        ids.sort();
        ids.dedup();
        out.push(format!("{}: rate {:?} forwards {:?}", credit_id(i), c.yield_curve_hwm(&credit_id(i)), ids));
    }
    let mut ids = c.instruments_clone();
    ids.sort();
    out.push(format!("instruments {:?}", ids));
    out
}

fn depend(c: &Case, obs: &mut Obs) -> R {
    let b = c.basket.build(&c.market)?;
    let mut p = Vec::new();
    for (_, i) in parts(&c.basket) {
        p.push(i.build(&c.market)?);
    }
    obs.nontrivial_if(!c.basket.names().is_empty() && p.len() > 1);
    let (got, want) = (needs(&c.market, &[b.clone()]), needs(&c.market, &p));
    for (g, w) in got.iter().zip(&want) {
        ensure!(g == w, "dependencies", "the basket depends on {} where its components depend on {}", g, w);
    }
    ensure!(got.len() == want.len(), "dependencies", "{} dependencies, not {}", got.len(), want.len());
    // down to the leaves
    let mut l = Vec::new();
    for (_, i) in c.basket.leaves() {
        l.push(i.build(&c.market)?);
    }
    let want = needs(&c.market, &l);
    for (g, w) in got.iter().zip(&want) {
        ensure!(g == w, "dependencies", "the basket depends on {} where its leaves depend on {}", g, w);
    }
    // and the leaves on exactly what is said of each
    for i in 0..c.market.names.len() {
        let e = c.market.equity(i);
        let mut dc = DependencyCollector::new(d(c.market.date));
        dc.spot(&b);
        let opts: Vec<&Opt> = c.basket.options().into_iter().filter(|o| o.under == i).collect();
        let far = opts.iter().map(|o| o.expiry.0).max().map(d);
        ensure!(dc.forward_curve_hwm(&e) == far, "forward", "forward of {} needed to {:?} not {:?}", i, dc.forward_curve_hwm(&e), far);
        ensure!(dc.vol_surface_hwm(&e) == far, "vol", "volatility of {} needed to {:?} not {:?}", i, dc.vol_surface_hwm(&e), far);
        ensure!(dc.has_spot(&e) == c.basket.names().contains(&i), "spot", "spot of {} needed: {}", i, dc.has_spot(&e));
        let mut want: Vec<Moment> = Vec::new();
        for o in &opts {
            want.push(o.expiry);
            if let Terms::Start { date, .. } = o.terms {
                want.push(date);
            }
        }
        let got = dc.fixings(&name_id(i));
        for w in &want {
            ensure!(got.contains(&moment(*w)), "fixing", "the fixing of {} at {} {:?} is not declared", i, d(w.0), w.1);
        }
        for g in got {
            ensure!(want.iter().any(|w| moment(*w) == *g), "fixing", "a fixing of {} at {} is declared for nothing", i, g.date());
        }
    }
    Ok(())
}

fn fix(c: &Case, obs: &mut Obs) -> R {
    let md = c.market.build()?;
    let b = c.basket.build(&c.market)?;
    let table = c.table.build()?;
    let want = c.basket.fixed(&c.market, &c.table);
    let got = b.fix(&table);
    match (&got, &want) {
        (Err(_), Err(_)) => {
            obs.tag("missing fixing");
            return Ok(());
        }
        (Ok(None), Ok(None)) => {
            obs.tag("no change");
            return Ok(());
        }
        (Ok(Some(_)), Ok(Some(_))) => {}
        _ => bail!("outcome", "fixing gives {:?} where {:?} is due", got.map(|x| x.map(|v| v.len())), want.as_ref().map(|x| x.as_ref().map(|v| v.len()))),
    }
    let got = got.unwrap().unwrap();
    obs.nontrivial();
    obs.tag_if(c.basket.depth() > 1, "nested");
    // each component fixed on its own
    let mut p = Vec::new();
    for (w, i) in parts(&c.basket) {
        let i = i.build(&c.market)?;
        match i.fix(&table)? {
            None => p.push((*w, i)),
            Some(v) => p.extend(v.into_iter().map(|(x, i)| (w * x, i))),
        }
    }
    for at in [vec![(c.market.date, Tod::Open)], c.at.clone()] {
        let g = sum(&got, &md, &at);
        same_sum("fixed", g.map(|x| x.0), sum(&p, &md, &at))?;
    }
    // and as the reference has it
    let mut r = Vec::new();
    for (w, i) in want.unwrap().unwrap() {
        r.push((w, i.build(&c.market)?));
    }
    same_sum("outcome", sum(&got, &md, &c.at).map(|x| x.0), sum(&r, &md, &c.at))?;
    // fixing what is fixed changes nothing more
    for (_, i) in &got {
        ensure!(matches!(i.fix(&table), Ok(None)), "again", "fixing the fixed basket again gives {:?}", i.fix(&table).map(|x| x.map(|v| v.len())));
    }
    Ok(())
}

fn cases() -> BoxedStrategy<Case> {
    market(WILD)
        .prop_flat_map(|m| {
            let mm = m.clone();
            let nested = leaf(&m).prop_recursive(3, 12, 4, move |i| basket_of(&mm, i, 0..5)).boxed();
            let b = prop_oneof![3 => basket_of(&m, nested, 0..5), 1 => instrument(&m).prop_map(|i| match i {
                b @ Instr::Basket { .. } => b,
                x => Instr::Basket { credit: 0, settle: Rule::Null, parts: vec![(1.0, x)] },
            })];
            (Just(m), b)
        })
        .prop_flat_map(|(m, b)| {
            let t = fixings_for(&b, &m);
            let n = m.date;
            (Just(m), Just(b), vec((prop_oneof![n..n + 10, n..n + 800], tod()), 1..4), t).prop_map(|(market, basket, mut at, table)| {
                at.sort();
                Case { market, basket, at, table }
            })
        })
        .boxed()
}

fn main() {
    Check::new("C12")
        .assume("components are priced from complete market data on or after the spot date; instruments with equal ids are equal")
        .sub("price", 67000, 1300000, "at least two components", cases, price)
        .sub("depend", 66000, 1300000, "at least two components and an equity or option among the leaves", cases, depend)
        .sub("fix", 67000, 1300000, "some component is changed by the fixings", cases, fix)
        .main()
}
