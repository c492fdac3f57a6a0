//! C19: smiles reproduce their quotes and reject unusable ones.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::volsmile::*;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Quotes {
    quotes: Vec<(f64, f64)>,
    strikes: Vec<f64>,
}

fn ask<S: VolSmile>(s: &S, strikes: &[f64]) -> Result<Vec<f64>, Fail> {
    let mut out = vec![f64::NAN; strikes.len()];
    s.volatilities(strikes, &mut out)?;
    Ok(out)
}

fn spline(c: &Quotes, obs: &mut Obs) -> R {
    let s = CubicSplineSmile::new(&c.quotes)?;
    let model = Smile::Spline(c.quotes.clone());
    let mut strikes = c.strikes.clone();
    strikes.extend(c.quotes.iter().map(|q| q.0));
    for w in c.quotes.windows(2) {
        strikes.push(0.5 * (w[0].0 + w[1].0));
    }
    let (first, last) = (c.quotes[0].0, c.quotes[c.quotes.len() - 1].0);
    obs.nontrivial_if(c.quotes.len() > 2);
    obs.tag_if(c.quotes.len() == 2, "two quotes");
    obs.tag_if(c.strikes.iter().any(|k| *k < first), "below the quotes");
    obs.tag_if(c.strikes.iter().any(|k| *k > last), "above the quotes");
    let batch = ask(&s, &strikes)?;
    for (k, v) in strikes.iter().zip(&batch) {
        let (want, size) = model.vol(*k);
        ensure!((v - want).abs() <= 1e-11 * (1.0 + size), "value", "volatility at {} is {}, expected {}", k, v, want);
        ensure!(s.volatility(*k)? == *v, "batch", "volatility at {} is {} alone and {} in a batch", k, s.volatility(*k)?, v);
        if let Some(q) = c.quotes.iter().find(|q| q.0 == *k) {
            ensure!(q.1 == *v, "quote", "volatility at the quote {:?} is {}", q, v);
        }
    }
    strikes.reverse();
    let mut again = ask(&s, &strikes)?;
    again.reverse();
    ensure!(again == batch, "order", "another order of strikes gives {:?} rather than {:?}", again, batch);
    // the smile read back from JSON is the same smile
    let read: CubicSplineSmile = serde_json::from_str(&serde_json::to_string(&s)?)?;
    strikes.reverse();
    ensure!(ask(&read, &strikes)? == batch, "json", "read back the smile gives {:?} rather than {:?}", ask(&read, &strikes)?, batch);
    Ok(())
}

fn flat(c: &(f64, Vec<f64>), obs: &mut Obs) -> R {
    let s = FlatSmile::new(c.0)?;
    obs.nontrivial_if(c.1.len() > 1);
    for v in ask(&s, &c.1)? {
        ensure!(v == c.0, "flat", "a flat smile of {} gives {}", c.0, v);
    }
    for k in &c.1 {
        ensure!(s.volatility(*k)? == c.0, "flat", "a flat smile of {} gives {} at {}", c.0, s.volatility(*k)?, k);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    quotes: Vec<(f64, f64)>,
    how: u8,
    where_: usize,
}

fn bad(c: &Bad, obs: &mut Obs) -> R {
    let mut q = c.quotes.clone();
    let i = c.where_ % q.len();
    let what = match c.how {
        0 => {
            let x = q[i];
            q.insert(i, x);
            "repeated strike"
        }
        1 => {
            let j = (i + 1) % q.len();
            q.swap(i, j);
            "strikes out of order"
        }
        2 => {
            q[i].0 = f64::NAN;
            "not-a-number strike"
        }
        3 => {
            q.truncate(1);
            "one quote"
        }
        4 => {
            q.clear();
            "no quotes"
        }
        _ => {
            q.reverse();
            "strikes reversed"
        }
    };
    obs.tag(what);
    obs.nontrivial_if(c.how < 3 || c.how > 4);
    match no_panic(|| CubicSplineSmile::new(&q).is_err()) {
        Ok(true) => {}
        Ok(false) => bail!("accepted", "{}: {:?} was accepted", what, q),
        Err(p) => bail!("panic", "{}: {:?} panicked: {}", what, q, p),
    }
    if !q.iter().any(|x| x.0.is_nan()) {
        // the text of a good smile with its points exchanged
        let good = serde_json::to_value(&CubicSplineSmile::new(&c.quotes)?)?;
        let old = serde_json::to_string(&c.quotes)?;
        let good = good.to_string();
        ensure!(good.contains(&old) && serde_json::from_str::<CubicSplineSmile>(&good).is_ok(), "json", "a good smile reads as {}", good);
        let text = good.replace(&old, &serde_json::to_string(&q)?);
        match no_panic(|| serde_json::from_str::<CubicSplineSmile>(&text).is_err()) {
            Ok(true) => {}
            Ok(false) => bail!("accepted", "{}: reading {} was accepted", what, text),
            Err(p) => bail!("panic", "{}: reading {} panicked: {}", what, text, p),
        }
    }
    Ok(())
}

fn quotes(min: usize) -> BoxedStrategy<Vec<(f64, f64)>> {
    (dec(5.0, 100.0, 2), vec((dec(0.1, 30.0, 2), dec(0.01, 0.9, 4)), min..9), dec(0.01, 0.9, 4))
        .prop_map(|(start, rest, v0)| {
            let mut k = start;
            let mut q = vec![(k, v0)];
            for (g, v) in rest {
                k = ((k + g) * 100.0).round() / 100.0;
                q.push((k, v));
            }
            q
        })
        .boxed()
}

fn main() {
    Check::new("C19")
        .assume("quotes from 2 to 10 at least 0.1 apart in strike; volatility of a quote is any number, only its strike is validated")
        .sub("spline", 1800000, 20000000, "at least three quotes", || (quotes(1), vec(dec(0.0, 400.0, 3), 0..8)).prop_map(|(quotes, strikes)| Quotes { quotes, strikes }), spline)
        .sub("flat", 2000000, 20000000, "at least two strikes", || (dec(0.0, 2.0, 4), vec(dec(-10.0, 1000.0, 3), 0..8)), flat)
        .sub("unusable quotes", 2000000, 20000000, "at least two quotes are left and one is unusable", || (quotes(1), 0u8..6, 0usize..9).prop_map(|(quotes, how, where_)| Bad { quotes, how, where_ }), bad)
        .main()
}
