//! C20: curve and surface decorators shift exactly what they claim.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::bump::Bumper;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Layer {
    Additive(f64),
    Scaled(f64, f64),
    Replace(f64),
    /// days after the present base date, and whether expiries roll
    Roll(i32, bool),
    StickyDelta(Line),
    StickyStrike(Line),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    vol: Vol,
    layers: Vec<Layer>,
    at: Vec<(i32, f64)>,
    strikes: Vec<f64>,
}

/// Applies a layer to the description and to the library's surface.
fn apply(l: &Layer, vol: Vol, lib: &mut RcVolSurface, obs: &mut Obs) -> Result<Vol, Fail> {
    Ok(match l {
        Layer::Additive(b) => {
            obs.tag("additive");
            *lib = BumpVol::new_flat_additive(*b).apply(lib.clone());
            Vol::Parallel(Box::new(vol), *b)
        }
        Layer::Scaled(b, f) => {
            obs.tag("time scaled");
            *lib = BumpVol::new_time_scaled(*b, *f).apply(lib.clone());
            Vol::TimeScaled(Box::new(vol), *b, *f)
        }
        Layer::Replace(v) => {
            obs.tag("replaced");
            *lib = BumpVol::new_replace(*v).apply(lib.clone());
            Vol::Flat { vol: *v, cal: vol.cal().clone(), base: vol.base() }
        }
        Layer::Roll(days, roll) => {
            let base = vol.base();
            let to = (base.0 + days, 0.0);
            let elapsed = vol.cal().year_fraction(base, to);
            let how = if *roll { VolTimeDynamics::RollingExpiry } else { VolTimeDynamics::ConstantExpiry };
            how.modify(lib, d(to.0))?;
            if *days == 0 || elapsed <= 1e-12 {
                obs.tag("no time passed");
                vol
            } else if *roll {
                obs.tag("rolling expiry");
                Vol::RollingExpiry(Box::new(vol), elapsed, to)
            } else {
                obs.tag("constant expiry");
                Vol::ConstantExpiry(Box::new(vol), elapsed, to)
            }
        }
        Layer::StickyDelta(f) | Layer::StickyStrike(f) => {
            let sticky_delta = if let Layer::StickyDelta(_) = l { true } else { false };
            let how = if sticky_delta { VolForwardDynamics::StickyDelta } else { VolForwardDynamics::StickyStrike };
            ensure!(how.depends_on_forward() == sticky_delta, "dynamics", "depends_on_forward is {}", how.depends_on_forward());
            let fwd = f.forward();
            let given = move || -> Result<Arc<dyn Forward>, quantmath::core::qm::Error> { Ok(fwd.clone()) };
            how.modify(lib, &given)?;
            let n = vol.base().0;
            match vol.centre() {
                Some(old) if sticky_delta => {
                    if (old.at(n) - f.at(n)).abs() < 2e-12 * old.at(n) {
                        // the library then takes the forwards to be the same; only equal
                        // first points lead here
                        obs.tag("same spot");
                        vol
                    } else {
                        obs.tag("sticky delta");
                        Vol::StickyDelta(Box::new(vol), f.clone())
                    }
                }
                _ => {
                    obs.tag(if sticky_delta { "no smile to move" } else { "sticky strike" });
                    vol
                }
            }
        }
    })
}

fn decorators(c: &Case, obs: &mut Obs) -> R {
    let mut lib = match c.vol.build() {
        Ok(v) => v,
        Err(e) => {
            ensure!(e.to_string().contains("egative"), "build", "{}", e);
            obs.count("falling variance rejected", 1);
            return Ok(());
        }
    };
    obs.tag(c.vol.kind());
    let mut vol = c.vol.clone();
    let mut judged = 0;
    for l in &c.layers {
        let was = lib.clone();
        vol = apply(l, vol, &mut lib, obs)?;
        // an additive bump seen directly
        if let Layer::Additive(b) = l {
            for a in &c.at {
                let (mut x, mut y) = (vec![f64::NAN; c.strikes.len()], vec![f64::NAN; c.strikes.len()]);
                if let (Ok(t), Ok(u)) = (was.volatilities(Vol::ddf(*a), &c.strikes, &mut x), lib.volatilities(Vol::ddf(*a), &c.strikes, &mut y)) {
                    ensure!(t == u, "time", "an additive bump changed the time to {:?} from {} to {}", a, t, u);
                    for (p, q) in x.iter().zip(&y) {
                        ensure!(*q == (p + b).max(0.0) || p.is_nan(), "additive", "{} bumped by {} is {}", p, b, q);
                    }
                }
            }
        }
    }
    obs.tag_if(vol.depth() > 1, "stacked");
    obs.nontrivial_if(vol.depth() > 0 || c.layers.iter().any(|l| if let Layer::Replace(_) = l { true } else { false }));
    ensure!(lib.base_date() == Vol::ddf(vol.base()), "base", "base date {:?}, expected {:?}", lib.base_date(), vol.base());
    for a in &c.at {
        let when = Vol::ddf(*a);
        let mut together = vec![f64::NAN; c.strikes.len()];
        let all = lib.volatilities(when, &c.strikes, &mut together);
        for (i, k) in c.strikes.iter().enumerate() {
            let mut got = [f64::NAN];
            let time = lib.volatilities(when, &[*k], &mut got);
            let mut skipped = None;
            either_way(|| {
                skipped = None;
                match (&time, vol.vols(*a, &[*k])) {
                    (Ok(_), Some(w)) if !(w.size[0] <= 20.0) => skipped = Some("extreme continuation, not judged"),
                    (Ok(t), Some(w)) => {
                        let ok = (got[0] - w.vols[0]).abs() <= 1e-6 * (1e-3 + w.size[0]) && (t - w.time).abs() <= 1e-11;
                        ensure!(ok, "decorated", "volatility at {:?} strike {} is {} over time {}, expected {} over {}", when, k, got[0], t, w.vols[0], w.time);
                    }
                    (Err(e), None) if e.to_string().contains("egative") => skipped = Some("falling variance reported"),
                    (Err(e), Some(w)) if e.to_string().contains("egative") && !(w.size[0] <= 1e3 * w.vols[0].abs()) => skipped = Some("too close to call"),
                    (r, w) => bail!("decorated", "volatility at {:?} strike {} is {:?}, expected {:?}", when, k, r.as_ref().map_err(|e| e.to_string()), w),
                }
                Ok(())
            })?;
            match skipped {
                Some(s) => obs.count(s, 1),
                None => judged += 1,
            }
            if let (Ok(t), Ok(u)) = (&time, &all) {
                let same = t == u && close(got[0], together[i], 1e-9);
                ensure!(same || !(got[0].abs() <= 20.0), "together", "volatility at {:?} strike {} is {} over {} on its own and {} over {} along with others", when, k, got[0], t, together[i], u);
            }
            if let Ok(t) = time {
                if got[0].is_finite() && got[0].abs() < 1e3 {
                    let v = lib.variance(when, *k)?;
                    ensure!(v >= 0.0 && close(v, t * got[0] * got[0], 1e-12), "variance", "variance at {:?} strike {} is {}, volatility {} over {}", when, k, v, got[0], t);
                }
            }
        }
    }
    obs.count("volatilities judged", judged);
    Ok(())
}

fn layer(base: i32) -> BoxedStrategy<Layer> {
    prop_oneof![
        3 => prop_oneof![dec(-0.03, 0.1, 4), dec(-0.6, 0.2, 3)].prop_map(Layer::Additive),
        3 => (dec(-0.03, 0.05, 4), dec(0.01, 0.5, 2)).prop_map(|(b, f)| Layer::Scaled(b, f)),
        1 => dec(0.01, 0.8, 3).prop_map(Layer::Replace),
        4 => (prop_oneof![0i32..4, 0i32..40], any::<bool>()).prop_map(|(n, r)| Layer::Roll(n, r)),
        3 => line(base, 104.0, 1.15).prop_map(Layer::StickyDelta),
        1 => line(base, 104.0, 1.15).prop_map(Layer::StickyStrike),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (4000i32..60000, dec(0.0, 0.9, 1))
        .prop_flat_map(|(n, f)| {
            let base = (n, f);
            let vol = prop_oneof![1 => flat_vol(base, any_cal(n, 400)), 3 => pillar_vol(base, 100.0, any_cal(n, 400))];
            let at = (prop_oneof![1 => n + 40..n + 60, 3 => n + 40..n + 200, 3 => n + 40..n + 900], dec(0.0, 0.99, 2));
            (vol, vec(layer(n), 0..5), vec(at, 1..4), prop_oneof![8 => vec(dec(70.0, 140.0, 2), 1..4), 1 => vec(dec(70.0, 140.0, 2), 4..20)])
        })
        .prop_map(|(vol, mut layers, mut at, strikes)| {
            // every date asked is on or after the last base date
            let mut n = vol.base().0;
            for l in layers.iter_mut() {
                if let Layer::Roll(k, _) = l {
                    n += *k;
                }
            }
            for a in at.iter_mut() {
                if a.0 < n {
                    *a = (n + a.0 % 5, a.1);
                }
                if *a < vol.base() {
                    *a = vol.base();
                }
            }
            Case { vol, layers, at, strikes }
        })
        .boxed()
}

fn main() {
    Check::new("C20")
        .assume("up to four layers; every date asked is on or after the base date of the decorated surface; pillars as in C18")
        .sub("decorators", 1400000, 20000000, "at least one layer changes the surface", cases, decorators)
        .main()
}
