//! C15: equity forwards are cash-and-carry prices after all dividends.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::divstream::DividendBootstrap;
use quantmath::data::forward::*;
use quantmath::dates::Date;
use serde::{Deserialize, Serialize};
use vh::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    base: i32,
    spot: f64,
    settle: Rule,
    rate: Curve,
    borrow: Curve,
    divs: Divs,
    at: Vec<i32>,
    beyond: i32,
}

impl Case {
    fn carry(&self) -> Carry<'_> {
        Carry { base: self.base, spot: self.spot, settle: &self.settle, rate: &self.rate, borrow: &self.borrow, divs: &self.divs }
    }
}

fn forward(c: &Case, obs: &mut Obs) -> R {
    let carry = c.carry();
    let mut at = c.at.clone();
    at.push(c.base);
    for x in &c.divs.divs {
        for n in [x.ex - 1, x.ex, x.ex + 1] {
            if n >= c.base {
                at.push(n);
            }
        }
    }
    if !c.divs.yld.is_zero() {
        at.push(c.divs.yld.base());
        at.push(c.divs.yld.base() + 30);
    }
    let hwm = *at.iter().max().unwrap();
    let fwd = carry.build(hwm)?;
    let further = carry.build(hwm + c.beyond)?;
    let counted = c.divs.divs.iter().filter(|x| x.ex > c.base).count();
    obs.nontrivial_if(counted > 0 && (c.rate.acc(hwm) != 0.0 || c.borrow.acc(hwm) != 0.0));
    obs.tag_if(c.divs.divs.iter().any(|x| x.ex == c.base), "dividend on the spot date");
    obs.tag_if(c.divs.divs.iter().any(|x| x.ex < c.base), "dividend before the spot date");
    obs.tag_if(c.divs.divs.iter().any(|x| x.relative != 0.0 && x.ex > c.base), "relative dividend");
    obs.tag_if(c.divs.divs.windows(2).any(|w| w[0].ex == w[1].ex && w[0].ex > c.base), "two dividends on one day");
    obs.tag_if(c.settle.apply(c.base) != c.base, "settlement lag");
    obs.tag_if(!c.divs.yld.is_zero(), "dividend yield");
    for n in &at {
        let got = fwd.forward(d(*n))?;
        let want = carry.forward(*n);
        let tol = 1e-11 * (1.0 + c.spot);
        if (got - want).abs() > tol {
            let as_is = carry.forward_as_is(*n);
            if !c.divs.yld.is_zero() && (got - as_is).abs() <= tol {
                obs.finding("dividend-yield-raises-forward", format!("forward to {} is {}; with the yield reducing the carry from settlement of the spot it is {}", d(*n), got, want))?;
            } else {
                bail!("forward", "forward to {} from {} is {}, expected {}", d(*n), d(c.base), got, want);
            }
        }
        ensure!(further.forward(d(*n))? == got, "prepared", "prepared {} days further, the forward to {} is {} not {}", c.beyond, d(*n), further.forward(d(*n))?, got);
        ensure!(fwd.as_interp().interpolate(d(*n))? == got, "interp", "as an interpolator the forward differs at {}", d(*n));
        let (cash, want) = (fwd.fixed_divs_after(d(*n))?, carry.cash_after(*n));
        ensure!(close(cash, want, 1e-11), "cash", "cash dividends after {} are worth {}, expected {}", d(*n), cash, want);
    }
    Ok(())
}

/// With the same cash dividends the forward is linear in spot.
fn linear(c: &Case, obs: &mut Obs) -> R {
    let base = c.carry();
    let hwm = c.at.iter().cloned().chain(Some(c.base)).max().unwrap();
    let carries: Vec<Carry> = [0.5, 1.0, 2.0, 3.5].iter().map(|m| Carry { spot: c.spot * m, ..base.clone() }).collect();
    obs.nontrivial_if(c.divs.divs.iter().any(|x| x.ex > c.base && x.cash > 0.0));
    for n in &c.at {
        let f: Result<Vec<f64>, _> = carries.iter().map(|x| x.build(hwm).and_then(|w| w.forward(d(*n)))).collect();
        let f = f?;
        let slope = (f[1] - f[0]) / 0.5;
        for (i, m) in [0.5, 1.0, 2.0, 3.5].iter().enumerate() {
            let on = f[0] + slope * (m - 0.5);
            ensure!((f[i] - on).abs() <= 1e-9 * (1.0 + c.spot), "linear", "at {} times the spot the forward to {} is {}, on the line through the first two it is {}", m, d(*n), f[i], on);
        }
    }
    Ok(())
}

/// The running totals of a dividend stream.
fn totals(c: &Case, obs: &mut Obs) -> R {
    let null = Rule::Null;
    let none = Divs { divs: c.divs.divs.clone(), yld: Curve::Zero { base: c.base } };
    let carry = Carry { settle: &null, divs: &none, ..c.carry() };
    let mut at = c.at.clone();
    at.extend(c.divs.divs.iter().map(|x| x.ex.max(c.base)));
    let hwm = *at.iter().max().unwrap();
    let b = DividendBootstrap::new(&*none.build(), &*c.rate.build(), &*c.borrow.build(), c.spot, d(c.base), d(hwm))?;
    let counted = c.divs.divs.iter().filter(|x| x.ex > c.base).count();
    obs.nontrivial_if(counted > 1);
    let (last, want) = (none.build().last_cash_ex_date(), c.divs.divs.iter().filter(|x| x.cash != 0.0).map(|x| x.ex).max());
    ensure!(last == want.map_or(Date::from_nil(), d), "last-cash", "the last cash dividend goes ex on {}, expected {:?}", last, want.map(d));
    ensure!(b.base_date() == d(c.base), "base", "base date {}", b.base_date());
    for w in at.windows(2) {
        let (from, to) = (w[0], w[1]);
        let (u, want) = (b.undiscounted_sum(d(from), d(to))?, carry.undiscounted(to) - carry.undiscounted(from));
        ensure!(close(u, want, 1e-10), "undiscounted", "dividends after {} to {} sum to {}, expected {}", d(from), d(to), u, want);
        let (u, want) = (b.discounted_sum(d(from), d(to))?, carry.dividends(to) - carry.dividends(from));
        ensure!(close(u, want, 1e-10), "discounted", "dividends after {} to {} are worth {}, expected {}", d(from), d(to), u, want);
        let (u, want) = (b.discounted_cash_divs_after(d(from))?, carry.cash_after(from));
        ensure!(close(u, want, 1e-10), "cash", "cash dividends after {} are worth {}, expected {}", d(from), u, want);
    }
    Ok(())
}

fn cases(with_yield: bool) -> BoxedStrategy<Case> {
    (4000i32..60000, dec(10.0, 200.0, 2))
        .prop_flat_map(move |(n, spot)| {
            (any_rule(n, 300), smooth_curve(n - 20..n + 20, -0.02, 0.12), smooth_curve(n - 20..n + 20, -0.01, 0.04), divs(n, spot, with_yield), vec(prop_oneof![n..n + 10, n..n + 1500], 1..6), 1i32..900)
                .prop_map(move |(settle, rate, borrow, divs, at, beyond)| Case { base: n, spot, settle, rate, borrow, divs, at, beyond })
        })
        .boxed()
}

fn main() {
    Check::new("C15")
        .assume("curves answer at every date; dividends are in order of ex date; a dividend yield starts after the last dividend and is zero before its base date; forwards are asked from the spot date up to the date prepared for")
        .sub("forward", 450000, 9100000, "a dividend goes ex after the spot date and rates are not zero", || cases(true), forward)
        .sub("linear", 570000, 11000000, "a cash dividend goes ex after the spot date", || cases(false), linear)
        .sub("totals", 800000, 16000000, "at least two dividends go ex after the spot date", || cases(false), totals)
        .main()
}
