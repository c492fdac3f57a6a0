"""Writes a planted bug: plant(id, property, [(file, old, new)...], demo body, needs, what)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Run in the repository after it has been built. Exit 0: behaves as it should.
dir="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
unset RUSTFLAGS
out="$(mktemp -d)" || exit 3
trap 'rm -rf "$out"' EXIT
deps=target/debug/deps
ext=""
for c in serde serde_json ndarray; do
    f="$(ls -t $deps/lib$c-*.rlib 2>/dev/null | head -1)"
    [ -n "$f" ] && ext="$ext --extern $c=$f"
done
rustc --edition 2018 -Awarnings -L dependency=$deps --extern quantmath=$deps/libquantmath.rlib $ext -o "$out/demo" "$dir/demo.rs" || exit 3
timeout 120 "$out/demo"
'''
PRELUDE = '''#![allow(unused)]
use quantmath::core::factories::Qrc;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::fixings::*;
use quantmath::data::volsurface::*;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::*;
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use quantmath::math::interpolation::*;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::PricerFactory;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use std::collections::HashMap;
use std::sync::Arc;

fn day(n: i32) -> Date { Date::from_ymd(2021, 3, 1) + n }
fn open(n: i32) -> DateTime { DateTime::new(day(n), TimeOfDay::Open) }
fn close(n: i32) -> DateTime { DateTime::new(day(n), TimeOfDay::Close) }
fn usd() -> RcCurrency { RcCurrency::new(Arc::new(Currency::new("USD", Qrc::new(Arc::new(NullRule::new()))))) }
fn lag(n: u32) -> RcDateRule { Qrc::new(Arc::new(BusinessDays::new_step(Qrc::new(Arc::new(WeekdayCalendar::new())), n))) }
fn equity(id: &str, credit: &str) -> RcInstrument { RcInstrument::new(Qrc::new(Arc::new(Equity::new(id, credit, usd(), lag(2))))) }
fn rate(r: f64) -> RcRateCurve { Qrc::new(Arc::new(RateCurveAct365::new(day(0), &[(day(0), r), (day(400), r * 1.5)], Extrap::Flat, Extrap::Flat).unwrap())) }
fn flat(v: f64) -> RcVolSurface { Qrc::new(Arc::new(FlatVolSurface::new(v, Qrc::new(Arc::new(WeekdayCalendar::new())), DateDayFraction::new(day(0), 0.0)))) }
fn no_divs() -> RcDividendStream { RcDividendStream::new(Arc::new(DividendStream::new(&[], Qrc::new(Arc::new(ZeroRateCurve::new(day(0))))))) }
/// Equities A (at 100, credit X) and B (at 50, credit Y)
fn market() -> MarketData {
    let s = |x: &str| x.to_string();
    let mut spots = HashMap::new();
    let mut yields = HashMap::new();
    let mut borrow = HashMap::new();
    let mut divs = HashMap::new();
    let mut vols = HashMap::new();
    for (id, spot, vol) in [("A", 100.0, 0.3), ("B", 50.0, 0.2)].iter() {
        spots.insert(s(id), *spot);
        borrow.insert(s(id), rate(0.01));
        divs.insert(s(id), no_divs());
        vols.insert(s(id), flat(*vol));
    }
    yields.insert(s("X"), rate(0.03));
    yields.insert(s("Y"), rate(0.05));
    yields.insert(s("USD"), rate(0.02));
    MarketData::new(day(0), spots, yields, borrow, divs, vols)
}
fn european(id: &str, on: &str, credit: &str, expiry: DateTime, strike: f64, call: bool, cash: bool) -> RcInstrument {
    let under = equity(on, if on == "A" { "X" } else { "Y" });
    RcInstrument::new(Qrc::new(Arc::new(SpotStartingEuropean::new(id, credit, under, lag(2), expiry, strike, if call { PutOrCall::Call } else { PutOrCall::Put }, if cash { OptionSettlement::Cash } else { OptionSettlement::Physical }).unwrap())))
}
fn forward_start(id: &str, on: &str, credit: &str, start: DateTime, expiry: DateTime, fraction: f64, call: bool) -> RcInstrument {
    let under = equity(on, if on == "A" { "X" } else { "Y" });
    RcInstrument::new(Qrc::new(Arc::new(ForwardStartingEuropean::new(id, credit, under, lag(2), expiry, fraction, start, if call { PutOrCall::Call } else { PutOrCall::Put }, OptionSettlement::Cash).unwrap())))
}
fn basket(id: &str, parts: Vec<(f64, RcInstrument)>) -> RcInstrument {
    RcInstrument::new(Qrc::new(Arc::new(Basket::new(id, "X", usd(), lag(2), parts).unwrap())))
}
fn pricer(i: RcInstrument, m: MarketData) -> Box<dyn Pricer> {
    let t = RcFixingTable::new(Arc::new(FixingTable::from_fixings(m.spot_date(), &[]).unwrap()));
    SelfPricerFactory::new().new(i, t, RcMarketData::new(Arc::new(m))).unwrap()
}
fn near(a: f64, b: f64, tol: f64, what: &str) {
    if !((a - b).abs() <= tol) {
        println!("{}: {} should be {}", what, a, b);
        std::process::exit(1);
    }
}
fn must(ok: bool, what: &str) {
    if !ok {
        println!("{}", what);
        std::process::exit(1);
    }
}
'''
def plant(bug, prop, edits, body, needs, what, prelude=True):
    repo = os.environ.get("REPO", "/repo")
    assert subprocess.run(["git", "-C", repo, "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (bug, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    d = os.path.join(here, "seeded", bug)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write((PRELUDE if prelude else "") + body)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
