//! C18: volatility surfaces are consistent in variance, time and strike.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::qm;
use quantmath::data::volsurface::*;
use quantmath::math::interpolation::Interpolate;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    vol: Vol,
    at: Vec<(i32, f64)>,
    strikes: Vec<f64>,
}

/// Far outside its quotes a cubic smile continues to volatilities of thousands of percent,
/// where rounding of the strike is all that matters.
const EXTREME: f64 = 20.0;

/// The surface, or nothing if its at the money variance falls between pillars and the
/// library says so.
fn surface(v: &Vol, obs: &mut Obs) -> Result<Option<RcVolSurface>, Fail> {
    let made = v.build();
    if let Vol::Pillars { smiles, cal, base, fwd, .. } = v {
        let mut last = 0.0;
        for (at, s) in smiles {
            let x = s.vol(fwd.at(at.0)).0;
            let var = cal.year_fraction(*base, *at) * x * x;
            if (var - last).abs() < 1e-9 {
                obs.count("too close to call", 1);
                return Ok(None);
            }
            if var < last {
                ensure!(made.is_err(), "accepted", "at the money variance falls to {} from {} at {:?}, but the surface was accepted", var, last, at);
                obs.count("falling variance rejected", 1);
                return Ok(None);
            }
            last = var;
        }
    }
    Ok(Some(made?))
}

fn said(e: &qm::Error) -> bool {
    e.to_string().contains("egative")
}

fn variances(c: &Case, obs: &mut Obs) -> R {
    let lib = match surface(&c.vol, obs)? {
        Some(s) => s,
        None => return Ok(()),
    };
    obs.tag(c.vol.kind());
    let base = c.vol.base();
    ensure!(lib.base_date() == Vol::ddf(base), "base", "base date {:?}", lib.base_date());
    let mut at: Vec<(i32, f64)> = c.at.iter().cloned().filter(|a| *a >= base).collect();
    at.push(base);
    if let Vol::Pillars { smiles, .. } = &c.vol {
        at.extend(smiles.iter().map(|s| s.0));
        obs.tag_if(c.at.iter().any(|a| *a > base && *a < smiles[0].0), "before the first pillar");
        obs.tag_if(c.at.iter().any(|a| *a > smiles[smiles.len() - 1].0), "beyond the last pillar");
        obs.tag_if(c.at.iter().any(|a| smiles.windows(2).any(|w| w[0].0 < *a && *a < w[1].0)), "between pillars");
        obs.nontrivial_if(c.at.iter().any(|a| *a > base && !smiles.iter().any(|s| s.0 == *a)) && c.strikes.len() > 1);
    } else {
        obs.nontrivial_if(c.at.iter().any(|a| *a > base) && c.strikes.len() > 1);
    }
    for a in &at {
        let when = Vol::ddf(*a);
        let time = c.vol.cal().year_fraction(base, *a);
        ensure!((lib.vol_time(when)? - time).abs() <= 1e-11, "time", "volatility time to {:?} is {}, expected {}", when, lib.vol_time(when)?, time);
        let mut strikes = c.strikes.clone();
        if let Vol::Pillars { smiles, fwd, .. } = &c.vol {
            strikes.push(fwd.at(a.0));
            if let Some(Smile::Spline(q)) = smiles.iter().find(|s| s.0 == *a).map(|s| &s.1) {
                strikes.extend(q.iter().map(|q| q.0));
            }
        }
        let mut vols = vec![f64::NAN; strikes.len()];
        let mut vars = vec![f64::NAN; strikes.len()];
        let got = lib.volatilities(when, &strikes, &mut vols);
        let also = lib.variances(when, &strikes, &mut vars);
        ensure!(got.is_ok() == also.is_ok(), "error", "volatilities and variances disagree on {:?}", when);
        // one strike at a time is the same as all together
        let single: Vec<Result<f64, qm::Error>> = strikes.iter().map(|k| lib.variance(when, *k)).collect();
        ensure!(got.is_ok() == single.iter().all(|s| s.is_ok()), "batch", "strikes {:?} at {:?}: {} together, alone {:?}", strikes, when, got.is_ok(), single.iter().map(|s| s.is_ok()).collect::<Vec<_>>());
        let whole = c.vol.vols(*a, &strikes);
        for (i, k) in strikes.iter().enumerate() {
            let one = c.vol.vols(*a, &[*k]);
            match (&single[i], one) {
                (Ok(_), Some(w)) if !(w.size[0] <= EXTREME) => obs.count("extreme continuation, not judged", 1),
                (Ok(v), Some(w)) => {
                    let want = w.time * w.vols[0] * w.vols[0];
                    let size = w.time.abs() * (w.size[0] * (w.size[0] + w.vols[0].abs()));
                    ensure!((v - want).abs() <= 1e-7 * (1e-4 + size), "variance", "variance at {:?} strike {} is {}, expected {}", when, k, v, want);
                    ensure!(*v >= 0.0, "negative", "variance at {:?} strike {} is {}", when, k, v);
                }
                (Err(e), None) if said(e) => obs.count("falling variance reported", 1),
                // the reference and the library may differ where the two pillars agree to rounding
                (Err(e), Some(w)) if said(e) && w.size[0] > 1e3 * w.vols[0].abs() => obs.count("too close to call", 1),
                (r, w) => bail!("variance", "variance at {:?} strike {} is {:?}, expected {:?}", when, k, r.as_ref().map_err(|e| e.to_string()), w),
            }
        }
        if let (Ok(t), Some(w)) = (got, whole) {
            for i in (0..strikes.len()).filter(|i| w.size[*i] <= EXTREME) {
                ensure!((vars[i] - t * vols[i] * vols[i]).abs() <= 1e-13 * (1.0 + vars[i].abs()), "square", "variance {} is not {} times {} squared", vars[i], t, vols[i]);
                ensure!(Some(vars[i]) == single[i].as_ref().ok().cloned(), "batch", "strike {} at {:?}: {} in a batch, {:?} alone", strikes[i], when, vars[i], single[i].as_ref().ok());
            }
            if let Vol::Pillars { smiles, .. } = &c.vol {
                if let Some((_, Smile::Spline(q))) = smiles.iter().find(|s| s.0 == *a) {
                    for (k, v) in q {
                        let i = strikes.iter().position(|s| s == k).unwrap();
                        ensure!((vols[i] - v).abs() <= 1e-14, "quote", "the quoted volatility {} at {:?} strike {} became {}", v, when, k, vols[i]);
                    }
                }
            }
        }
    }
    // displacement follows the stated treatment of dividends
    for a in &at {
        let got = lib.displacement(d(a.0))?;
        ensure!(got == c.vol.displacement(a.0) || close(got, c.vol.displacement(a.0), 1e-13), "displacement", "displacement at {} is {}, expected {}", d(a.0), got, c.vol.displacement(a.0));
    }
    if let (Some(f), Some(g)) = (c.vol.centre(), lib.forward()) {
        let n = base.0 + 40;
        ensure!(close(Interpolate::interpolate(g, d(n))?, f.at(n), 1e-12), "centre", "the surface's forward differs");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fwd {
    vol: Vol,
    from: (i32, f64),
    to: (i32, f64),
    strikes: Vec<f64>,
}

fn forward(c: &Fwd, obs: &mut Obs) -> R {
    let lib = match surface(&c.vol, obs)? {
        Some(s) => s,
        None => return Ok(()),
    };
    obs.tag(c.vol.kind());
    let (from, to) = (Vol::ddf(c.from), Vol::ddf(c.to));
    let base = c.vol.base();
    obs.nontrivial_if(c.from > base && c.to > c.from);
    obs.tag(if c.from > base { "starts after the base date" } else { "starts by the base date" });
    for k in &c.strikes {
        let got = lib.forward_variance(from, to, *k);
        either_way(|| {
        match (&got, c.vol.forward_variance(c.from, c.to, *k)) {
            (Ok(_), Some((_, s, _))) if !(s <= EXTREME) => obs.count("extreme continuation, not judged", 1),
            (Ok(v), Some((w, s, least))) => {
                ensure!(least >= -1e-7 * (1e-4 + s), "fell", "forward variance from {:?} to {:?} strike {} is {} where at the money variance falls by {}", from, to, k, v, least);
                ensure!(*v >= 0.0, "negative", "forward variance from {:?} to {:?} strike {} is {}", from, to, k, v);
                ensure!((v - w).abs() <= 1e-7 * (1e-4 + s), "forward", "forward variance from {:?} to {:?} strike {} is {}, expected {}", from, to, k, v, w);
                if c.from <= base {
                    ensure!(*v == lib.variance(to, *k)?, "whole", "forward variance from before the base date is {} not {}", v, lib.variance(to, *k)?);
                }
            }
            (Err(e), None) if said(e) => obs.count("falling variance reported", 1),
            (Err(e), Some((_, s, least))) if said(e) && least <= 1e-7 * (1e-4 + s) => obs.count("falling variance reported", 1),
            // some of the variances involved fall between pillars
            (Ok(_), None) => bail!("forward", "forward variance from {:?} to {:?} strike {} is {:?} where variance falls", from, to, k, got.as_ref().ok()),
            (r, w) => bail!("forward", "forward variance from {:?} to {:?} strike {} is {:?}, expected {:?}", from, to, k, r.as_ref().map_err(|e| e.to_string()), w),
        }
        Ok(())
        })?;
    }
    let mut batch = vec![f64::NAN; c.strikes.len()];
    if lib.forward_variances(from, to, &c.strikes, &mut batch).is_ok() {
        for (k, v) in c.strikes.iter().zip(&batch) {
            ensure!(lib.forward_variance(from, to, *k)? == *v, "batch", "strike {}: {} in a batch, {} alone", k, v, lib.forward_variance(from, to, *k)?);
        }
    }
    // without a smile, adjoining intervals add up
    if c.vol.centre().is_none() && c.from > base && c.to > c.from {
        let whole = lib.variance(to, 1.0)?;
        let first = lib.variance(from, 1.0)?;
        let second = lib.forward_variance(from, to, 1.0)?;
        ensure!(close(first + second, whole, 1e-12), "additive", "variance to {:?} {} and on to {:?} {} make {}", from, first, to, second, whole);
    }
    Ok(())
}

/// Surfaces whose calendars, base times and pillars vary.
fn surfaces() -> BoxedStrategy<(Vol, (i32, f64))> {
    (4000i32..60000, dec(0.0, 0.9, 1))
        .prop_flat_map(|(n, f)| {
            let base = (n, f);
            (prop_oneof![1 => flat_vol(base, any_cal(n, 400)), 4 => pillar_vol(base, 100.0, any_cal(n, 400))], Just(base))
        })
        .boxed()
}

/// A time on or after the base, sometimes exactly on a day boundary of a pillar
fn after(base: (i32, f64)) -> BoxedStrategy<(i32, f64)> {
    (prop_oneof![1 => base.0..base.0 + 8, 3 => base.0..base.0 + 120, 3 => base.0..base.0 + 900], dec(0.0, 0.99, 2)).prop_map(move |a| if a < base { base } else { a }).boxed()
}

fn main() {
    Check::new("C18")
        .assume("pillars at least five days apart so that volatility time grows between them; strikes between 30% and 300% of the level; a variance that falls between pillars may be reported as an error")
        .sub("variance", 320000, 6500000, "a time after the base that is not a pillar, and two or more strikes",
            || surfaces().prop_flat_map(|(vol, base)| (Just(vol), vec(after(base), 1..5), vec(dec(60.0, 170.0, 2), 1..5)).prop_map(|(vol, at, strikes)| Case { vol, at, strikes })), variances)
        .sub("forward variance", 580000, 11000000, "the interval starts after the base date and is not empty",
            || surfaces().prop_flat_map(|(vol, base)| (Just(vol), after(base), after(base), any::<bool>(), vec(dec(70.0, 150.0, 2), 1..4)).prop_map(move |(vol, a, b, early, strikes)| {
                let (from, to) = if a <= b { (a, b) } else { (b, a) };
                let from = if early && from.0 % 4 == 0 { (base.0 - from.0 % 7, 0.0) } else { from };
                Fwd { vol, from, to, strikes }
            })), forward)
        .main()
}
