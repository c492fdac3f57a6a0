//! C30: threads sharing objects get what each would get alone.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::*;
use quantmath::core::qm;
use quantmath::data::fixings::RcFixingTable;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::facade::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::*;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::Cursor;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier};
use std::thread;
use vh::docs::*;
use vh::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Pols {
    ccy: u8,
    instr: u8,
    know: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// a pricer over one of the sets
    Open(u8),
    Price(usize),
    Bump(usize, Bp),
    Restore(usize),
    /// time moves on in one of the pricers
    Move(usize, u8, bool),
    Drop(usize),
    Calculate(u8),
    Write(u8, Kind),
    Read(u8, Kind),
    Load(u8, Pols),
    Policy(Pols, Vec<Op>),
    /// rates, forwards and volatilities of the market a pricer sees, at some date, over and over
    Ask(usize, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sets: Vec<Valid>,
    scripts: Vec<Vec<Op>>,
    /// whose turn it is, or none if they run freely
    turns: Option<Vec<u8>>,
    /// how often each thread runs its script, every time from the start
    #[serde(default = "once")]
    times: u16,
}

fn once() -> u16 {
    1
}

/// What the threads share
struct Set {
    factory: RcPricerFactory,
    instr: RcInstrument,
    fixings: RcFixingTable,
    market: RcMarketData,
    gens: Vec<RcReportGenerator>,
    ccy: RcCurrency,
    date: i32,
    spec: Market,
    texts: Vec<(Kind, Vec<u8>)>,
}

const WRITTEN: [Kind; 4] = [Kind::Market, Kind::Instrument, Kind::Fixings, Kind::Generator];

fn set(v: &Valid) -> Result<Set, Fail> {
    let mut texts = Vec::new();
    for k in WRITTEN {
        texts.push((k, serde_json::to_vec(&document(v, k)?)?));
    }
    Ok(Set {
        factory: factory(false),
        instr: v.instr.build(&v.market)?,
        fixings: v.fixings.rc()?,
        market: RcMarketData::new(Arc::new(v.market.build()?)),
        gens: v.gens.iter().map(|g| g.build()).collect(),
        ccy: v.market.currency(),
        date: v.market.date,
        spec: v.market.clone(),
        texts,
    })
}

fn control(i: u8) -> DedupControl {
    [DedupControl::Inline, DedupControl::WriteOnce, DedupControl::ErrorIfMissing][i as usize % 3]
}

/// The script of one thread, run against the shared sets
struct Runner<'a> {
    sets: &'a [Set],
    pricers: Vec<(Box<dyn Pricer>, Option<Box<dyn Saveable>>, usize)>,
    out: Vec<String>,
    pause: &'a dyn Fn(),
}

fn shown(r: Result<f64, qm::Error>) -> String {
    match r {
        Ok(x) => format!("{:e} {:x}", x, x.to_bits()),
        Err(e) => format!("error {}", e),
    }
}

/// Fixings are written in no particular order
fn ordered(v: &mut Value) {
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(ordered);
            if a.iter().all(|x| x.is_object() || x.is_array()) {
                a.sort_by_key(|x| x.to_string());
            }
        }
        Value::Object(o) => o.iter_mut().for_each(|(_, x)| ordered(x)),
        _ => {}
    }
}
fn tidy(r: Result<Value, serde_json::Error>) -> String {
    match r {
        Ok(mut v) => {
            ordered(&mut v);
            v.to_string()
        }
        Err(e) => format!("error {}", e),
    }
}

impl<'a> Runner<'a> {
    fn set(&self, i: u8) -> &'a Set {
        &self.sets[i as usize % self.sets.len()]
    }

    fn run(&mut self, ops: &[Op]) {
        for op in ops {
            (self.pause)();
            let said = match no_panic(|| self.step(op)) {
                Ok(s) => s,
                Err(p) => format!("panic {}", p),
            };
            self.out.push(said);
        }
    }

    fn step(&mut self, op: &Op) -> String {
        let n = self.pricers.len();
        match op {
            Op::Open(i) => {
                let s = self.set(*i);
                match s.factory.new(s.instr.clone(), s.fixings.clone(), s.market.clone()) {
                    Ok(p) => {
                        self.pricers.push((p, None, *i as usize % self.sets.len()));
                        "opened".to_string()
                    }
                    Err(e) => format!("error {}", e),
                }
            }
            Op::Price(k) if n > 0 => shown(self.pricers[k % n].0.price()),
            Op::Bump(k, b) if n > 0 => {
                let (p, s, _) = &mut self.pricers[k % n];
                if s.is_some() {
                    return "bumped already".to_string();
                }
                let mut save = p.as_bumpable().new_saveable();
                let r = p.as_mut_bumpable().bump(&b.build(), Some(&mut *save));
                *s = Some(save);
                format!("{:?} {}", r.map_err(|e| e.to_string()), shown(p.price()))
            }
            Op::Restore(k) if n > 0 => {
                let (p, s, _) = &mut self.pricers[k % n];
                match s.take() {
                    None => "not bumped".to_string(),
                    Some(s) => {
                        let r = p.as_mut_bumpable().restore(&*s);
                        format!("{:?} {}", r.map_err(|e| e.to_string()), shown(p.price()))
                    }
                }
            }
            Op::Move(k, days, sticky) if n > 0 => {
                let (p, s, i) = &mut self.pricers[k % n];
                *s = None;
                let to = d(self.sets[*i].date + *days as i32);
                let r = p.as_mut_time_bumpable().bump_time(&BumpTime::new(to, to, dynamics(*sticky)));
                format!("{:?} {}", r.map_err(|e| e.to_string()), shown(p.price()))
            }
            Op::Drop(k) if n > 0 => {
                self.pricers.remove(k % n);
                "dropped".to_string()
            }
            Op::Ask(k, days) if n > 0 => {
                let (p, _, i) = &self.pricers[k % n];
                asked(p.as_bumpable().context(), &self.sets[*i].spec, d(self.sets[*i].date + *days as i32))
            }
            Op::Ask(..) | Op::Price(_) | Op::Bump(..) | Op::Restore(_) | Op::Move(..) | Op::Drop(_) => "no pricer".to_string(),
            Op::Calculate(i) => {
                let s = self.set(*i);
                match calculate(s.factory.clone(), s.instr.clone(), s.fixings.clone(), s.market.clone(), &s.gens) {
                    Ok(r) => tidy(serde_json::to_value(&r)),
                    Err(e) => format!("error {}", e),
                }
            }
            Op::Write(i, k) => {
                let s = self.set(*i);
                match k {
                    Kind::Market => tidy(serde_json::to_value(&*s.market)),
                    Kind::Instrument => tidy(serde_json::to_value(&s.instr)),
                    Kind::Fixings => tidy(serde_json::to_value(&s.fixings)),
                    _ => tidy(s.gens.iter().map(|g| serde_json::to_value(g)).collect::<Result<Vec<_>, _>>().map(Value::Array)),
                }
            }
            Op::Read(i, k) => {
                let s = self.set(*i);
                let text = match s.texts.iter().find(|t| t.0 == *k) {
                    None => return "no text".to_string(),
                    Some(t) => &t.1,
                };
                match k {
                    Kind::Market => tidy(serde_json::from_slice::<MarketData>(text).and_then(|x| serde_json::to_value(&x))),
                    Kind::Instrument => tidy(serde_json::from_slice::<RcInstrument>(text).and_then(|x| serde_json::to_value(&x))),
                    Kind::Fixings => tidy(serde_json::from_slice::<RcFixingTable>(text).and_then(|x| serde_json::to_value(&x))),
                    _ => tidy(serde_json::from_slice::<RcReportGenerator>(text).and_then(|x| serde_json::to_value(&x))),
                }
            }
            Op::Load(i, p) => {
                let s = self.set(*i);
                let text = &s.texts.iter().find(|t| t.0 == Kind::Instrument).unwrap().1;
                let (cs, is) = if p.know { (vec![s.ccy.clone()], vec![s.instr.clone()]) } else { (Vec::new(), Vec::new()) };
                match instrument_from_json(&mut Cursor::new(text), control(p.ccy), &cs, control(p.instr), &is) {
                    Ok(x) => tidy(serde_json::to_value(&x)),
                    Err(e) => format!("error {}", e),
                }
            }
            Op::Policy(p, body) => {
                let (cs, is) = if p.know {
                    (self.sets.iter().map(|s| s.ccy.clone()).collect(), self.sets.iter().map(|s| s.instr.clone()).collect())
                } else {
                    (Vec::new(), Vec::new())
                };
                let mut ccy: Dedup<Currency, Arc<Currency>> = Dedup::new(control(p.ccy), dedup_map_from_slice(&cs));
                let mut instr = Dedup::new(control(p.instr), dedup_map_from_slice(&is));
                ccy.with(&DEDUP_CURRENCY, || instr.with(&DEDUP_INSTRUMENT, || self.run(body)));
                "left".to_string()
            }
        }
    }
}

/// The answers, and any that come out otherwise when asked again
fn asked(ctx: &dyn PricingContext, m: &Market, when: Date) -> String {
    let mut first: Vec<f64> = Vec::new();
    let mut said = String::new();
    let at = DateDayFraction::new(when, 0.5);
    for i in 0..m.names.len() {
        let e = m.equity(i);
        let spot = m.names[i].spot;
        let strikes = [0.7 * spot, spot];
        let rate = ctx.yield_curve(&credit_id(m.names[i].credit), when);
        let fwd = ctx.forward_curve(&*e, when);
        let vol = ctx.vol_surface(&*e, when, &|| ctx.forward_curve(&*e, when));
        for round in 0..60 {
            let mut v = [f64::NAN; 2];
            let t = vol.as_ref().map(|s| s.volatilities(at, &strikes, &mut v).unwrap_or(-1.0)).unwrap_or(-2.0);
            let r = rate.as_ref().map(|c| c.rt(when).unwrap_or(-1.0)).unwrap_or(-2.0);
            let f = fwd.as_ref().map(|c| c.forward(when).unwrap_or(-1.0)).unwrap_or(-2.0);
            let now = vec![v[0], v[1], t, r, f];
            if round == 0 {
                said += &format!("{:?} ", now);
                first = now;
            } else if first.iter().zip(&now).any(|(a, b)| a.to_bits() != b.to_bits()) {
                return format!("{} then {:?}", said, now);
            }
        }
    }
    said
}

fn steps(ops: &[Op]) -> usize {
    ops.iter().map(|o| if let Op::Policy(_, b) = o { 1 + steps(b) } else { 1 }).sum()
}

/// One step at a time: before each, a thread waits until it is its turn.
fn in_turns(sets: &Arc<Vec<Set>>, scripts: &[Vec<Op>], turns: &[u8]) -> Vec<Vec<String>> {
    let mut doors: Vec<(Sender<()>, Receiver<bool>)> = Vec::new();
    let mut all = Vec::new();
    for ops in scripts {
        let (go, wait) = channel::<()>();
        let (tell, told) = channel::<bool>();
        doors.push((go, told));
        let (sets, ops) = (sets.clone(), ops.clone());
        all.push(thread::spawn(move || {
            let out = {
                let pause = || {
                    let _ = tell.send(true);
                    let _ = wait.recv();
                };
                let mut r = Runner { sets: &sets, pricers: Vec::new(), out: Vec::new(), pause: &pause };
                r.run(&ops);
                r.out
            };
            let _ = tell.send(false);
            out
        }));
    }
    // every thread waits at its first step, or is done
    let mut open: Vec<usize> = (0..doors.len()).filter(|i| doors[*i].1.recv().unwrap_or(false)).collect();
    let mut at = 0;
    while !open.is_empty() {
        let k = turns.get(at).cloned().unwrap_or(at as u8) as usize % open.len();
        at += 1;
        let i = open[k];
        let _ = doors[i].0.send(());
        if !doors[i].1.recv().unwrap_or(false) {
            open.remove(k);
        }
    }
    all.into_iter().map(|h| h.join().unwrap_or(vec!["thread died".to_string()])).collect()
}

fn freely(sets: &Arc<Vec<Set>>, scripts: &[Vec<Op>], times: u16) -> Vec<Vec<String>> {
    let start = Arc::new(Barrier::new(scripts.len()));
    let all: Vec<_> = scripts
        .iter()
        .map(|ops| {
            let (sets, ops, start) = (sets.clone(), ops.clone(), start.clone());
            thread::spawn(move || {
                start.wait();
                let mut out = Vec::new();
                for _ in 0..times {
                    let mut r = Runner { sets: &sets, pricers: Vec::new(), out: Vec::new(), pause: &|| () };
                    r.run(&ops);
                    out.extend(r.out);
                }
                out
            })
        })
        .collect();
    all.into_iter().map(|h| h.join().unwrap_or(vec!["thread died".to_string()])).collect()
}

fn threads(c: &Case, obs: &mut Obs) -> R {
    let mut sets = Vec::new();
    for v in &c.sets {
        sets.push(set(v)?);
    }
    let sets = Arc::new(sets);
    // each script by itself
    let mut alone = Vec::new();
    for s in &c.scripts {
        alone.extend(freely(&sets, &[s.clone()], 1));
    }
    for (s, a) in c.scripts.iter().zip(&alone) {
        ensure!(a.len() == steps(s), "steps", "{} steps gave {} results", steps(s), a.len());
        obs.count("steps", a.len() as u64);
        obs.count("errors", a.iter().filter(|x| x.starts_with("error")).count() as u64);
        obs.tag_if(s.iter().any(|o| matches!(o, Op::Policy(..))), "policy");
        obs.tag_if(s.iter().any(|o| matches!(o, Op::Bump(..))), "bump");
    }
    obs.nontrivial_if(c.scripts.iter().filter(|s| !s.is_empty()).count() > 1);
    let rounds = if c.turns.is_some() { 1 } else { 2 };
    for _ in 0..rounds {
        let together = match &c.turns {
            Some(t) => in_turns(&sets, &c.scripts, t),
            None => freely(&sets, &c.scripts, c.times),
        };
        for (k, (a, b)) in alone.iter().zip(&together).enumerate() {
            for (n, (x, y)) in a.iter().cycle().zip(b).enumerate() {
                ensure!(x == y, "differs", "thread {} of {}, result {}: {} alone but {} with the others", k, c.scripts.len(), n, x, y);
            }
            ensure!(a.len() * c.times as usize == b.len(), "steps", "thread {} gave {} results alone and {} with the others", k, a.len(), b.len());
        }
    }
    Ok(())
}

fn pols() -> BoxedStrategy<Pols> {
    (0u8..3, 0u8..3, any::<bool>()).prop_map(|(ccy, instr, know)| Pols { ccy, instr, know }).boxed()
}

fn op() -> BoxedStrategy<Op> {
    let some = prop::sample::select(WRITTEN.to_vec());
    let one = prop_oneof![
        2 => any::<u8>().prop_map(Op::Open),
        2 => any::<usize>().prop_map(Op::Price),
        4 => (any::<usize>(), bump(2, 2)).prop_map(|(k, b)| Op::Bump(k, b)),
        3 => any::<usize>().prop_map(Op::Restore),
        1 => (any::<usize>(), prop_oneof![0u8..4, any::<u8>()], any::<bool>()).prop_map(|(k, n, s)| Op::Move(k, n, s)),
        1 => any::<usize>().prop_map(Op::Drop),
        2 => any::<u8>().prop_map(Op::Calculate),
        4 => (any::<u8>(), prop_oneof![3 => Just(Kind::Instrument).boxed(), 2 => some.clone().boxed()]).prop_map(|(i, k)| Op::Write(i, k)),
        3 => (any::<u8>(), prop_oneof![3 => Just(Kind::Instrument).boxed(), 2 => some.boxed()]).prop_map(|(i, k)| Op::Read(i, k)),
        2 => (any::<u8>(), pols()).prop_map(|(i, p)| Op::Load(i, p)),
    ];
    one.prop_recursive(2, 6, 4, |o| (pols(), vec(o, 0..4)).prop_map(|(p, b)| Op::Policy(p, b))).boxed()
}

fn case(turns: bool) -> BoxedStrategy<Case> {
    let script = vec(op(), 0..12).prop_map(|mut v| {
        v.insert(0, Op::Open(0));
        v
    });
    let turns = if turns { vec(any::<u8>(), 0..60).prop_map(Some).boxed() } else { Just(None).boxed() };
    (vec(valid(), 1..3), vec(script, 2..5), turns).prop_map(|(sets, scripts, turns)| Case { sets, scripts, turns, times: 1 }).boxed()
}

/// Short scripts over options, run again and again: what threads have in common only shows when
/// they do the same kind of thing at once
fn busy() -> BoxedStrategy<Case> {
    let one = prop_oneof![
        1 => any::<usize>().prop_map(Op::Price),
        8 => (any::<usize>(), bump(2, 2)).prop_map(|(k, b)| Op::Bump(k, b)),
        5 => (any::<usize>(), prop_oneof![0u16..40, 0u16..800]).prop_map(|(k, n)| Op::Ask(k, n)),
        4 => any::<usize>().prop_map(Op::Restore),
        1 => (any::<usize>(), 0u8..4, any::<bool>()).prop_map(|(k, n, s)| Op::Move(k, n, s)),
        1 => any::<u8>().prop_map(Op::Calculate),
        1 => any::<u8>().prop_map(|i| Op::Write(i, Kind::Instrument)),
        1 => any::<u8>().prop_map(|i| Op::Read(i, Kind::Instrument)),
        1 => (any::<u8>(), pols()).prop_map(|(i, p)| Op::Load(i, p)),
    ];
    // the same for every thread, on sets and dates of its own, or each its own
    let one = one.boxed();
    let same = vec(one.clone(), 1..4).prop_map(|body| {
        (0..4u8)
            .map(|t| {
                let mut v = vec![Op::Open(t)];
                v.extend(body.iter().map(|o| match o {
                    Op::Ask(k, n) => Op::Ask(*k, n + 60 * t as u16),
                    Op::Calculate(i) => Op::Calculate(i.wrapping_add(t)),
                    o => o.clone(),
                }));
                v.push(Op::Ask(0, 30 + 90 * t as u16));
                v
            })
            .collect::<Vec<_>>()
    });
    let own = vec(
        (0u8..4, vec(one, 1..5)).prop_map(|(i, mut v)| {
            v.insert(0, Op::Open(i));
            v
        }),
        3..6,
    );
    (vec(valid(), 2..5), prop_oneof![3 => same, 1 => own]).prop_map(|(sets, scripts)| Case { sets, scripts, turns: None, times: 40 }).boxed()
}

fn main() {
    Check::new("C30")
        .assume("steps are interleaved as generated where threads take turns; where they run freely the operating system decides, so a race may need several runs to show")
        .sub("turns", 6600, 130000, "two threads have something to do", || case(true), threads)
        .sub("freely", 5400, 100000, "two threads have something to do", || case(false), threads)
        .sub("busy", 2500, 14000, "two threads have something to do", busy, threads)
        .main()
}
