//! C24: dates convert, compare, add and print consistently.
use proptest::prelude::*;
use quantmath::dates::datetime::*;
use quantmath::dates::Date;
use quantmath::math::interpolation::Interpolable;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use vh::*;

const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];

fn check_day(n: i32) -> R {
    let (y, m, day) = civil(n);
    let date = d(n);
    ensure!(date.ymd() == (y, m, day), "ymd", "serial {} gives {:?}, the calendar says {:?}", n, date.ymd(), (y, m, day));
    let back = Date::from_ymd(y, m, day);
    ensure!(back == date && back.truncated_julian() == n, "from-ymd", "{}-{}-{} gives serial {}, not {}", y, m, day, back.truncated_julian(), n);
    ensure!(date.is_valid(), "valid", "{} is not valid", n);
    ensure!(date.day_of_week() == dow(n), "dow", "{}-{}-{} has day of week {}, not {}", y, m, day, date.day_of_week(), dow(n));
    let text = format!("{:04}-{:02}-{:02}", y, m, day);
    ensure!(date.to_string() == text, "display", "{} prints as {}", text, date);
    ensure!(format!("{:?}", date) == format!("{} {}", DAYS[dow(n) as usize], text), "debug", "{} prints as {:?}", text, date);
    match Date::from_str(&text) {
        Ok(p) => ensure!(p == date, "parse", "{} parses as {}", text, p),
        Err(e) => bail!("parse", "{} does not parse: {}", text, e),
    }
    let json = serde_json::to_string(&date)?;
    ensure!(json == format!("\"{}\"", text), "json", "{} is written as {}", text, json);
    let read: Date = serde_json::from_str(&json)?;
    ensure!(read == date, "json", "{} reads back as {}", text, read);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: i32,
    b: i32,
    k: i32,
}

fn pair(c: &Pair, obs: &mut Obs) -> R {
    let (a, b) = (d(c.a), d(c.b));
    obs.nontrivial_if(c.a != c.b && civil(c.a).0 != civil(c.b).0);
    ensure!(b - a == c.b - c.a, "diff", "{} - {} is {}", b, a, b - a);
    ensure!(a.cmp(&b) == civil(c.a).cmp(&civil(c.b)), "order", "{} and {} compare {:?}", a, b, a.cmp(&b));
    ensure!((a < b) == (c.a < c.b) && (a == b) == (c.a == c.b) && a.partial_cmp(&b) == Some(a.cmp(&b)), "order", "{} and {}", a, b);
    ensure!(a.max(b) == d(c.a.max(c.b)), "order", "max of {} and {}", a, b);
    let e = c.a + c.k;
    if e > 0 && e < 73000 {
        let p = a + c.k;
        ensure!(p.ymd() == civil(e), "add", "{} + {} is {}", a, c.k, p);
        ensure!(p - a == c.k && p - c.k == a, "add", "{} + {} does not undo", a, c.k);
        let mut q = a;
        q += c.k;
        ensure!(q == p, "add", "{} += {} is {}", a, c.k, q);
        q -= c.k;
        ensure!(q == a, "add", "-= does not undo += for {} {}", a, c.k);
    }
    ensure!(a.interp_diff(b) == (c.b - c.a) as f64 && a.interp_cmp(b) == c.a.cmp(&c.b), "interp", "{} and {}", a, b);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Roll {
    y: i32,
    m: i32,
    day: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Times {
    a: i32,
    at: Tod,
    b: i32,
    bt: Tod,
    af: f64,
    bf: f64,
    k: i32,
}

fn times(c: &Times, obs: &mut Obs) -> R {
    let a = DateTime::new(d(c.a), c.at.build());
    let b = DateTime::new(d(c.b), c.bt.build());
    obs.nontrivial_if(c.a == c.b || c.at > c.bt);
    ensure!(a.cmp(&b) == (c.a, c.at).cmp(&(c.b, c.bt)), "dt-order", "{} and {} compare {:?}", a, b, a.cmp(&b));
    ensure!((a == b) == ((c.a, c.at) == (c.b, c.bt)), "dt-eq", "{} and {}", a, b);
    let later = a + c.k;
    ensure!(later.date() == d(c.a + c.k) && later.time_of_day() == c.at.build(), "dt-add", "{} + {} is {}", a, c.k, later);
    let mut l2 = a;
    l2 += c.k;
    ensure!(l2 == later, "dt-add", "{} += {} is {}", a, c.k, l2);
    let (y, m, day) = civil(c.a);
    let text = format!("{:04}-{:02}-{:02}/{:?}", y, m, day, c.at);
    ensure!(a.to_string() == text, "dt-display", "{} prints as {}", text, a);
    let back: DateTime = serde_json::from_str(&serde_json::to_string(&a)?)?;
    ensure!(back == a, "dt-json", "{} reads back as {}", a, back);

    let fa = DateDayFraction::new(d(c.a), c.af);
    let fb = DateDayFraction::new(d(c.b), c.bf);
    let expected = (c.a, c.af).partial_cmp(&(c.b, c.bf)).unwrap();
    ensure!(fa.cmp(&fb) == expected && fa.interp_cmp(fb) == expected, "ddf-order", "{:?} and {:?} compare {:?}", fa, fb, fa.cmp(&fb));
    ensure!(fa.date() == d(c.a) && fa.day_fraction() == c.af, "ddf-get", "{:?}", fa);
    ensure!(close(fa.interp_diff(fb), (c.b - c.a) as f64 + c.bf - c.af, 1e-12), "ddf-diff", "{:?} and {:?}", fa, fb);
    let fl = fa + c.k;
    ensure!(fl.date() == d(c.a + c.k) && fl.day_fraction() == c.af, "ddf-add", "{:?} + {}", fa, c.k);
    let mut fl2 = fa;
    fl2 += c.k;
    ensure!(fl2 == fl, "ddf-add", "{:?} += {}", fa, c.k);
    let back: DateDayFraction = serde_json::from_str(&serde_json::to_string(&fa)?)?;
    ensure!(back == fa, "ddf-json", "{:?} reads back as {:?}", fa, back);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadFraction {
    date: i32,
    fraction: f64,
}

fn bad_fraction(c: &BadFraction, obs: &mut Obs) -> R {
    obs.nontrivial();
    let made = no_panic(|| DateDayFraction::new(d(c.date), c.fraction));
    ensure!(made.is_err(), "ddf-range", "a day fraction of {} was accepted", c.fraction);
    let json = format!("{{\"date\":\"{}\",\"day_fraction\":{:?}}}", d(c.date), c.fraction);
    let read = match no_panic(|| serde_json::from_str::<DateDayFraction>(&json)) {
        Ok(r) => r,
        Err(e) => bail!("ddf-read-panic", "reading {} panicked: {}", json, e),
    };
    ensure!(read.is_err(), "ddf-read-range", "{} was read as {:?}", json, read);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadText {
    text: String,
    kind: String,
}

fn bad_text_strategy() -> BoxedStrategy<BadText> {
    let valid = (1970i32..2160, 1i32..=12, 1i32..=28);
    let mk = |kind: &'static str, s: BoxedStrategy<String>| s.prop_map(move |text| BadText { text, kind: kind.to_string() });
    prop_oneof![
        mk("no such day", (1970i32..2160, 1i32..=12, 0i32..=4).prop_map(|(y, m, x)| format!("{:04}-{:02}-{:02}", y, m, month_len(y, m) + 1 + x)).boxed()),
        mk("day zero or negative", (valid.clone(), -3i32..=0).prop_map(|((y, m, _), x)| format!("{:04}-{:02}-{:02}", y, m, x)).boxed()),
        mk("no such month", (valid.clone(), prop_oneof![Just(0i32), 13i32..40]).prop_map(|((y, _, x), m)| format!("{:04}-{:02}-{:02}", y, m, x)).boxed()),
        mk("too few parts", valid.clone().prop_map(|(y, m, _)| format!("{:04}-{:02}", y, m)).boxed()),
        mk("one part", (0i64..99999999).prop_map(|y| format!("{}", y)).boxed()),
        mk("too many parts", (valid.clone(), 1i32..99).prop_map(|((y, m, x), e)| format!("{:04}-{:02}-{:02}-{:02}", y, m, x, e)).boxed()),
        mk("too far away", (prop_oneof![1000i32..1968, 2169i32..9999], 1i32..=12, 1i32..=28).prop_map(|(y, m, x)| format!("{:04}-{:02}-{:02}", y, m, x)).boxed()),
        mk("large numbers", (any::<i32>(), any::<i32>(), any::<i32>(), 0usize..3).prop_map(|(y, m, x, w)| {
            let mut v = [2018i64, 5, 25];
            v[w] = ([y, m, x][w] as i64).abs() + 100_000;
            format!("{}-{}-{}", v[0], v[1], v[2])
        }).boxed()),
        mk("letters", (valid.clone(), 0usize..3, "[a-zA-Z ./:é]{1,4}").prop_map(|((y, m, x), w, junk)| {
            let mut v = vec![format!("{:04}", y), format!("{:02}", m), format!("{:02}", x)];
            v[w] = junk;
            v.join("-")
        }).boxed()),
        mk("trailing text", (valid.clone(), "[a-zA-Z ,;/]{1,4}").prop_map(|((y, m, x), junk)| format!("{:04}-{:02}-{:02}{}", y, m, x, junk)).boxed()),
        mk("wrong separator", (valid, prop_oneof![Just("/"), Just("."), Just(""), Just(" "), Just(":")]).prop_map(|((y, m, x), sep)| format!("{:04}{}{:02}{}{:02}", y, sep, m, sep, x)).boxed()),
        mk("arbitrary", "[^0-9]{0,12}".boxed()),
    ]
    .boxed()
}

fn bad_text(c: &BadText, obs: &mut Obs) -> R {
    obs.nontrivial();
    obs.tag(&c.kind);
    match no_panic(|| Date::from_str(&c.text)) {
        Ok(Ok(date)) => bail!("accepted", "{:?} ({}) was read as {}", c.text, c.kind, date),
        Ok(Err(e)) => ensure!(!e.to_string().is_empty(), "message", "{:?} gives an empty message", c.text),
        Err(p) => bail!("panic", "{:?} ({}) panicked: {}", c.text, c.kind, p),
    }
    let json = serde_json::to_string(&c.text)?;
    match no_panic(|| serde_json::from_str::<Date>(&json)) {
        Ok(Ok(date)) => bail!("accepted", "json {} ({}) was read as {}", json, c.kind, date),
        Ok(Err(_)) => Ok(()),
        Err(p) => bail!("panic", "json {} ({}) panicked: {}", json, c.kind, p),
    }
}

fn main() {
    Check::new("C24")
        .assume("dates are within the library's valid range, serial numbers 1 to 72999")
        .sub("days", 33000, 670000, "every case; each runs through 200 consecutive days",
            || 1i32..72999, |n: &i32, obs: &mut Obs| {
                obs.nontrivial();
                for k in *n..(*n + 200).min(73000) {
                    check_day(k)?;
                    obs.count("days checked", 1);
                }
                Ok(())
            })
        .sub("invalid serials", 2000000, 20000000, "every case",
            || prop_oneof![-2_000_000i32..=0, 73000i32..2_000_000], |n: &i32, obs: &mut Obs| {
                obs.nontrivial();
                ensure!(!d(*n).is_valid(), "valid", "serial {} is said to be valid", n);
                Ok(())
            })
        .sub("arithmetic", 2000000, 20000000, "the two dates are in different years",
            || (1i32..73000, 1i32..73000, -4000i32..4000).prop_map(|(a, b, k)| Pair { a, b, k }), pair)
        .sub("days past month end", 2000000, 20000000, "the day is beyond the end of the month",
            || (1969i32..2160, 1i32..=12, 1i32..=59).prop_map(|(y, m, day)| Roll { y, m, day }),
            |c: &Roll, obs: &mut Obs| {
                obs.nontrivial_if(c.day > month_len(c.y, c.m));
                let got = Date::from_ymd(c.y, c.m, c.day);
                let want = serial(c.y, c.m, 1) + c.day - 1;
                ensure!(got == d(want), "roll", "{:?} gives {} not {}", c, got, d(want));
                Ok(())
            })
        .sub("times", 2000000, 20000000, "same date, or the times of day are in the opposite order to ascending",
            || (1000i32..72000, tod(), prop_oneof![Just(0i32), -3i32..4, -900i32..900], tod(), dec(0.0, 0.9999, 4), dec(0.0, 0.9999, 4), -900i32..900)
                .prop_map(|(a, at, off, bt, af, bf, k)| Times { a, at, b: a + off, bt, af, bf, k }), times)
        .sub("bad fractions", 1400000, 20000000, "every case",
            || (1000i32..72000, prop_oneof![dec(1.0, 50.0, 3), dec(-50.0, -0.001, 3)]).prop_map(|(date, fraction)| BadFraction { date, fraction }), bad_fraction)
        .sub("bad text", 1700000, 20000000, "every case", bad_text_strategy, bad_text)
        .main()
}
