//! Plain-data descriptions of inputs, generators for them, and construction of the
//! library's objects from them.

use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

// ------------------------------------------------------------------ numbers

/// A decimal number with `digits` digits after the point, between lo and hi. Numbers
/// with few digits print and read back exactly.
pub fn dec(lo: f64, hi: f64, digits: u32) -> BoxedStrategy<f64> {
    let scale = 10f64.powi(digits as i32);
    let a = (lo * scale).round() as i64;
    let b = (hi * scale).round() as i64;
    (a..=b).prop_map(move |i| i as f64 / scale).boxed()
}

/// Any finite number, stored so that it survives the replay file bit for bit.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Bits(pub u64);
impl Bits {
    pub fn get(&self) -> f64 {
        f64::from_bits(self.0)
    }
}
pub fn bits(x: f64) -> Bits {
    Bits(x.to_bits())
}

/// |a - b| <= tol * max(1, |a|, |b|), and false if either is not a number
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs())
}

pub fn same_bits(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

// -------------------------------------------------------------------- dates

/// Dates are held as serial numbers. All generated dates and everything computed from
/// them stay in the library's valid range, 0 < n < 73000.
pub fn d(n: i32) -> Date {
    Date::from_truncated_julian(n)
}

/// Day of week from scratch: 0 is Monday. Serial 0 is Thursday 23 May 1968.
pub fn dow(n: i32) -> i32 {
    (n + 3).rem_euclid(7)
}
pub fn is_weekend(n: i32) -> bool {
    dow(n) >= 5
}

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i32, m: i32) -> i32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if leap(y) {
                29
            } else {
                28
            }
        }
    }
}
/// Serial number from year, month, day by counting whole years and months.
pub fn serial(y: i32, m: i32, day: i32) -> i32 {
    // serial of 1968-01-01: 23 May 1968 is day 144 of that (leap) year and is serial 0
    let mut n = -143;
    if y >= 1968 {
        for yy in 1968..y {
            n += if leap(yy) { 366 } else { 365 };
        }
    } else {
        for yy in y..1968 {
            n -= if leap(yy) { 366 } else { 365 };
        }
    }
    for mm in 1..m {
        n += month_len(y, mm);
    }
    n + day - 1
}
pub fn civil(n: i32) -> (i32, i32, i32) {
    let mut y = 1968;
    let mut rest = n + 143;
    while rest < 0 {
        y -= 1;
        rest += if leap(y) { 366 } else { 365 };
    }
    loop {
        let len = if leap(y) { 366 } else { 365 };
        if rest < len {
            break;
        }
        rest -= len;
        y += 1;
    }
    let mut m = 1;
    while rest >= month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    (y, m, rest + 1)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tod {
    Open,
    EDSP,
    Close,
}
impl Tod {
    pub fn build(self) -> TimeOfDay {
        match self {
            Tod::Open => TimeOfDay::Open,
            Tod::EDSP => TimeOfDay::EDSP,
            Tod::Close => TimeOfDay::Close,
        }
    }
}
pub fn tod() -> BoxedStrategy<Tod> {
    prop_oneof![Just(Tod::Open), Just(Tod::EDSP), Just(Tod::Close)].boxed()
}

// ---------------------------------------------------------------- calendars

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cal {
    EveryDay,
    Weekday,
    /// absolute serials; weekends are dropped and the rest sorted when it is built
    Holidays(Vec<i32>),
    /// weight of holidays in 1/1000, over a plain calendar
    Vol(Box<Cal>, u32),
}

impl Cal {
    pub fn holiday_set(&self) -> BTreeSet<i32> {
        match self {
            Cal::Holidays(h) => h.iter().cloned().filter(|n| !is_weekend(*n)).collect(),
            Cal::Vol(c, _) => c.holiday_set(),
            _ => BTreeSet::new(),
        }
    }
    pub fn is_holiday(&self, n: i32) -> bool {
        match self {
            Cal::EveryDay => false,
            Cal::Weekday => is_weekend(n),
            Cal::Holidays(h) => is_weekend(n) || h.contains(&n),
            Cal::Vol(c, _) => c.is_holiday(n),
        }
    }
    pub fn weight(&self, n: i32) -> f64 {
        match self {
            Cal::Vol(c, w) => {
                if c.is_holiday(n) {
                    *w as f64 / 1000.0
                } else {
                    1.0
                }
            }
            c => {
                if c.is_holiday(n) {
                    0.0
                } else {
                    1.0
                }
            }
        }
    }
    pub fn basis(&self) -> f64 {
        match self {
            Cal::EveryDay => 365.0,
            Cal::Weekday | Cal::Holidays(_) => 252.0,
            Cal::Vol(c, w) => {
                let w = *w as f64 / 1000.0;
                c.basis() * (1.0 - w) + 365.0 * w
            }
        }
    }
    /// Weighted days covered from (from, ff) to (to, tf), one day at a time.
    pub fn count(&self, from: i32, ff: f64, to: i32, tf: f64) -> f64 {
        if from > to {
            return 0.0;
        }
        if from == to {
            return self.weight(from) * (tf - ff);
        }
        let mut sum = self.weight(from) * (1.0 - ff) + self.weight(to) * tf;
        for n in from + 1..to {
            sum += self.weight(n);
        }
        sum
    }
    pub fn year_fraction(&self, from: (i32, f64), to: (i32, f64)) -> f64 {
        self.count(from.0, from.1, to.0, to.1) / self.basis()
    }
    pub fn slip(&self, n: i32, forward: bool) -> i32 {
        let mut n = n;
        while self.is_holiday(n) {
            n += if forward { 1 } else { -1 };
        }
        n
    }
    pub fn step(&self, n: i32, step: i32, forward: bool) -> i32 {
        let mut n = self.slip(n, forward);
        for _ in 0..step.abs() {
            n += step.signum();
            n = self.slip(n, step > 0);
        }
        n
    }
    pub fn build(&self) -> RcCalendar {
        match self {
            Cal::EveryDay => Qrc::new(Arc::new(EveryDayCalendar::new())),
            Cal::Weekday => Qrc::new(Arc::new(WeekdayCalendar::new())),
            Cal::Holidays(_) => {
                let h: Vec<Date> = self.holiday_set().into_iter().map(d).collect();
                Qrc::new(Arc::new(WeekdayAndHolidayCalendar::new("HOL", &h)))
            }
            Cal::Vol(c, w) => Qrc::new(Arc::new(VolatilityCalendar::new("VOL", c.build(), *w as f64 / 1000.0))),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Cal::EveryDay => "every-day",
            Cal::Weekday => "weekday",
            Cal::Holidays(_) => "holidays",
            Cal::Vol(..) => "volatility",
        }
    }
}

/// Holidays around `centre`: single days and runs, including runs next to weekends.
pub fn holidays(centre: i32, spread: i32) -> BoxedStrategy<Cal> {
    vec((-spread..=spread, 1..=6i32), 0..24)
        .prop_map(move |runs| {
            let mut set = BTreeSet::new();
            for (off, len) in runs {
                for k in 0..len {
                    let n = centre + off + k;
                    if n > 100 && n < 72900 && !is_weekend(n) {
                        set.insert(n);
                    }
                }
            }
            Cal::Holidays(set.into_iter().collect())
        })
        .boxed()
}

pub fn plain_cal(centre: i32, spread: i32) -> BoxedStrategy<Cal> {
    prop_oneof![1 => Just(Cal::EveryDay), 2 => Just(Cal::Weekday), 4 => holidays(centre, spread)].boxed()
}

pub fn vol_cal(centre: i32, spread: i32) -> BoxedStrategy<Cal> {
    (plain_cal(centre, spread), prop_oneof![1 => Just(0u32), 1 => Just(1000u32), 2 => Just(250u32), 4 => 1u32..1000])
        .prop_map(|(c, w)| Cal::Vol(Box::new(c), w))
        .boxed()
}

pub fn any_cal(centre: i32, spread: i32) -> BoxedStrategy<Cal> {
    prop_oneof![3 => plain_cal(centre, spread), 2 => vol_cal(centre, spread)].boxed()
}

// -------------------------------------------------------------- date rules

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rule {
    Null,
    Next(Cal),
    Prev(Cal),
    Step(Cal, u32),
    Back(Cal, u32),
    ModifiedFollowing(Cal),
}

impl Rule {
    pub fn apply(&self, n: i32) -> i32 {
        match self {
            Rule::Null => n,
            Rule::Next(c) => c.step(n, 0, true),
            Rule::Prev(c) => c.step(n, 0, false),
            Rule::Step(c, k) => c.step(n, *k as i32, true),
            Rule::Back(c, k) => c.step(n, -(*k as i32), false),
            Rule::ModifiedFollowing(c) => {
                let f = c.slip(n, true);
                if civil(f).1 == civil(n).1 {
                    f
                } else {
                    c.slip(n, false)
                }
            }
        }
    }
    pub fn build(&self) -> RcDateRule {
        match self {
            Rule::Null => Qrc::new(Arc::new(NullRule::new())),
            Rule::Next(c) => Qrc::new(Arc::new(BusinessDays::new_next(c.build()))),
            Rule::Prev(c) => Qrc::new(Arc::new(BusinessDays::new_prev(c.build()))),
            Rule::Step(c, k) => Qrc::new(Arc::new(BusinessDays::new_step(c.build(), *k))),
            Rule::Back(c, k) => Qrc::new(Arc::new(BusinessDays::new_back(c.build(), *k))),
            Rule::ModifiedFollowing(c) => Qrc::new(Arc::new(ModifiedFollowing::new(c.build()))),
        }
    }
    pub fn cal(&self) -> Option<&Cal> {
        match self {
            Rule::Null => None,
            Rule::Next(c) | Rule::Prev(c) | Rule::Step(c, _) | Rule::Back(c, _) | Rule::ModifiedFollowing(c) => Some(c),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Rule::Null => "null",
            Rule::Next(_) => "next",
            Rule::Prev(_) => "prev",
            Rule::Step(..) => "step",
            Rule::Back(..) => "back",
            Rule::ModifiedFollowing(_) => "modified-following",
        }
    }
}

pub fn any_rule(centre: i32, spread: i32) -> BoxedStrategy<Rule> {
    let c = move || plain_cal(centre, spread);
    prop_oneof![
        1 => Just(Rule::Null),
        2 => c().prop_map(Rule::Next),
        2 => c().prop_map(Rule::Prev),
        3 => (c(), 0u32..12).prop_map(|(c, k)| Rule::Step(c, k)),
        2 => (c(), 0u32..12).prop_map(|(c, k)| Rule::Back(c, k)),
        3 => c().prop_map(Rule::ModifiedFollowing),
    ]
    .boxed()
}
