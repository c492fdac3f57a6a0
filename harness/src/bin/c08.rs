//! C08: shared components in JSON resolve by id under each sharing policy.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::*;
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::facade::instrument_from_json;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::options::*;
use quantmath::instruments::*;
use serde::de::{self, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};
use std::collections::HashMap;
use std::io::Cursor;
use std::sync::Arc;
use vh::market::*;
use vh::portfolio::*;
use vh::*;

// ------------------------------------------------------- JSON that keeps its order

#[derive(Clone, Debug)]
enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct JVisitor;
impl<'de> Visitor<'de> for JVisitor {
    type Value = J;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JSON")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<J, E> {
        Ok(J::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<J, E> {
        Ok(J::Int(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<J, E> {
        Ok(J::Int(v as i64))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<J, E> {
        Ok(J::Num(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<J, E> {
        Ok(J::Str(v.to_string()))
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        Ok(J::Null)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(J::Arr(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_entry()? {
            v.push(x);
        }
        Ok(J::Obj(v))
    }
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        d.deserialize_any(JVisitor)
    }
}
impl J {
    fn parse(s: &str) -> Result<J, Fail> {
        Ok(serde_json::from_str(s)?)
    }
    fn text(&self) -> String {
        match self {
            J::Null => "null".to_string(),
            J::Bool(b) => b.to_string(),
            J::Int(i) => i.to_string(),
            J::Num(x) => serde_json::to_string(x).unwrap(),
            J::Str(s) => serde_json::to_string(s).unwrap(),
            J::Arr(a) => format!("[{}]", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            J::Obj(o) => format!("{{{}}}", o.iter().map(|(k, x)| format!("{}:{}", serde_json::to_string(k).unwrap(), x.text())).collect::<Vec<_>>().join(",")),
        }
    }
    /// Equal but for the last digit of long numbers
    fn same(&self, b: &J) -> bool {
        match (self, b) {
            (J::Null, J::Null) => true,
            (J::Bool(x), J::Bool(y)) => x == y,
            (J::Int(x), J::Int(y)) => x == y,
            (J::Num(x), J::Num(y)) => (x - y).abs() <= 1e-15 * x.abs(),
            (J::Str(x), J::Str(y)) => x == y,
            (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.same(y)),
            (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1)),
            _ => false,
        }
    }
    fn field(&self, name: &str) -> Option<&J> {
        if let J::Obj(o) = self {
            o.iter().find(|x| x.0 == name).map(|x| &x.1)
        } else {
            None
        }
    }
    fn id(&self) -> Option<String> {
        match self.field("id") {
            Some(J::Str(s)) => Some(s.clone()),
            _ => None,
        }
    }
}

// ----------------------------------------------------------------- policies

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Pol {
    Supplied,
    Inline,
    Once,
}
impl Pol {
    fn build(self) -> DedupControl {
        match self {
            Pol::Supplied => DedupControl::ErrorIfMissing,
            Pol::Inline => DedupControl::Inline,
            Pol::Once => DedupControl::WriteOnce,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Pol::Supplied => "supplied",
            Pol::Inline => "inline",
            Pol::Once => "once",
        }
    }
}

/// What a reference reading or writing comes to
#[derive(Clone, Debug)]
enum Out {
    Unknown(String),
    /// the policies do not say
    Unjudged,
}

/// The reference: known components in full, by id
#[derive(Clone, Debug)]
struct Known {
    pol: Pol,
    map: HashMap<String, J>,
}

#[derive(Clone, Debug)]
struct State {
    ccy: Known,
    instr: Known,
}

impl State {
    /// The components of the inside of an instrument, in the order of the text
    fn inside(&mut self, body: &J, write: bool) -> Result<J, Out> {
        let o = match body {
            J::Obj(o) => o,
            x => return Ok(x.clone()),
        };
        let mut out = Vec::new();
        for (k, v) in o {
            let new = match (k.as_str(), v) {
                ("currency", _) => self.currency(v, write)?,
                ("underlying", _) => self.instrument(v, write, false)?,
                ("basket", J::Arr(a)) => {
                    let mut b = Vec::new();
                    for p in a {
                        if let J::Arr(p) = p {
                            b.push(J::Arr(vec![p[0].clone(), self.instrument(&p[1], write, false)?]));
                        }
                    }
                    J::Arr(b)
                }
                _ => v.clone(),
            };
            out.push((k.clone(), new));
        }
        Ok(J::Obj(out))
    }
    fn tagged(&mut self, j: &J, write: bool) -> Result<J, Out> {
        match j {
            J::Obj(o) => Ok(J::Obj(vec![(o[0].0.clone(), self.inside(&o[0].1, write)?)])),
            x => Ok(x.clone()),
        }
    }
    fn instrument(&mut self, j: &J, write: bool, top: bool) -> Result<J, Out> {
        if write {
            let id = match j {
                J::Obj(o) => o[0].1.id().unwrap(),
                _ => unreachable!(),
            };
            return match self.instr.pol {
                Pol::Inline => self.tagged(j, true),
                Pol::Supplied if self.instr.map.contains_key(&id) => Ok(J::Str(id)),
                Pol::Supplied => Err(Out::Unknown(id)),
                Pol::Once => {
                    if self.instr.map.insert(id.clone(), j.clone()).is_some() {
                        Ok(J::Str(id))
                    } else {
                        self.tagged(j, true)
                    }
                }
            };
        }
        match j {
            J::Str(id) => match (self.instr.map.get(id), self.instr.pol) {
                (None, _) => Err(Out::Unknown(id.clone())),
                (Some(_), Pol::Inline) => Err(Out::Unjudged),
                (Some(x), _) => Ok(x.clone()),
            },
            _ if self.instr.pol == Pol::Supplied && !top => match self.tagged(j, false) {
                Err(Out::Unknown(x)) => Err(Out::Unknown(x)),
                _ => Err(Out::Unjudged),
            },
            _ => {
                let full = self.tagged(j, false)?;
                if self.instr.pol == Pol::Once {
                    if let J::Obj(o) = &full {
                        self.instr.map.insert(o[0].1.id().unwrap(), full.clone());
                    }
                }
                Ok(full)
            }
        }
    }
    fn currency(&mut self, j: &J, write: bool) -> Result<J, Out> {
        if write {
            let id = j.id().unwrap();
            return match self.ccy.pol {
                Pol::Inline => Ok(j.clone()),
                Pol::Supplied if self.ccy.map.contains_key(&id) => Ok(J::Str(id)),
                Pol::Supplied => Err(Out::Unknown(id)),
                Pol::Once => Ok(if self.ccy.map.insert(id.clone(), j.clone()).is_some() { J::Str(id) } else { j.clone() }),
            };
        }
        match j {
            J::Str(id) => match (self.ccy.map.get(id), self.ccy.pol) {
                (None, _) => Err(Out::Unknown(id.clone())),
                (Some(_), Pol::Inline) => Err(Out::Unjudged),
                (Some(x), _) => Ok(x.clone()),
            },
            _ => match self.ccy.pol {
                Pol::Supplied => Err(Out::Unjudged),
                Pol::Inline => Ok(j.clone()),
                Pol::Once => {
                    self.ccy.map.insert(j.id().unwrap(), j.clone());
                    Ok(j.clone())
                }
            },
        }
    }
}

// -------------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Top {
    Basket { euro: bool, credit: usize, parts: Vec<(f64, usize)> },
    Option { on: usize, strike: f64, call: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    ccy: Pol,
    instr: Pol,
    know_ccy: u8,
    know: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write { pair: usize, node: usize, tagged: bool, within: Option<usize>, thread: bool },
    Read { pair: usize, text: usize, edits: Vec<(usize, usize)>, thread: bool },
    Load { ccy: Pol, instr: Pol, know_ccy: u8, know: u16, text: usize, edits: Vec<(usize, usize)> },
    Panic { pair: usize, within: Option<usize> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    market: Market,
    euro: Rule,
    leaves: Vec<Instr>,
    tops: Vec<Top>,
    pairs: Vec<Pair>,
    ops: Vec<Op>,
    when: Vec<Moment>,
}

struct Graph {
    ccys: Vec<RcCurrency>,
    ccy_text: Vec<J>,
    nodes: Vec<RcInstrument>,
    full: Vec<J>,
}

/// Each case starts with a clean thread, whatever the last one did to it.
fn fresh() {
    DEDUP_CURRENCY.with(|s| *s.borrow_mut() = Dedup::new(DedupControl::Inline, HashMap::new()));
    DEDUP_INSTRUMENT.with(|s| *s.borrow_mut() = Dedup::new(DedupControl::Inline, HashMap::new()));
}

fn graph(c: &Case) -> Result<Graph, Fail> {
    let usd = c.market.currency();
    let eur = RcCurrency::new(Arc::new(Currency::new("EUR", c.euro.build())));
    let mut nodes: Vec<RcInstrument> = Vec::new();
    for l in &c.leaves {
        // one id means one thing
        if nodes.iter().all(|x| x.id() != l.id()) {
            nodes.push(l.build(&c.market)?);
        }
    }
    // underlyings of options count as components
    for i in 0..c.market.names.len() {
        if nodes.iter().all(|x| x.id() != name_id(i)) {
            nodes.push(c.market.equity(i));
        }
    }
    let lag = c.market.settle.build();
    for (k, t) in c.tops.iter().enumerate() {
        let n = nodes.len();
        // ids that look alike, and like those of the leaves
        let id = format!("EQ{}", 10 + k);
        nodes.push(match t {
            Top::Basket { euro, credit, parts } => {
                let p = parts.iter().map(|(w, i)| (*w, nodes[*i % n].clone())).collect();
                RcInstrument::new(Qrc::new(Arc::new(Basket::new(&id, &credit_id(*credit), if *euro { eur.clone() } else { usd.clone() }, lag.clone(), p)?)))
            }
            Top::Option { on, strike, call } => {
                let make = |under: RcInstrument| {
                    let (pc, at) = (if *call { PutOrCall::Call } else { PutOrCall::Put }, moment((c.market.date + 90, Tod::Close)));
                    SpotStartingEuropean::new(&id, &credit_id(0), under, lag.clone(), at, *strike, pc, OptionSettlement::Cash)
                };
                // not everything can have options on it
                let option = match make(nodes[*on % n].clone()) {
                    Ok(o) => o,
                    Err(_) => make(c.market.equity(on % c.market.names.len()))?,
                };
                RcInstrument::new(Qrc::new(Arc::new(option)))
            }
        });
    }
    let mut full = Vec::new();
    for n in &nodes {
        full.push(J::parse(&serde_json::to_string(n)?)?);
    }
    let ccys = vec![usd, eur];
    let mut ccy_text = Vec::new();
    for x in &ccys {
        ccy_text.push(J::parse(&serde_json::to_string(x)?)?);
    }
    Ok(Graph { ccys, ccy_text, nodes, full })
}

type Ccys = Dedup<Currency, Arc<Currency>>;
type Instrs = Dedup<dyn Instrument, Qrc<dyn Instrument>>;
use quantmath::instruments::DEDUP_INSTRUMENT;

/// The library's state and the reference's
struct Live {
    ccy: Ccys,
    instr: Instrs,
    model: State,
}

impl Graph {
    fn known_ccys(&self, mask: u8) -> Vec<usize> {
        (0..2).filter(|i| mask >> i & 1 == 1).collect()
    }
    fn known(&self, mask: u16) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| mask >> (i % 16) & 1 == 1).collect()
    }
    fn state(&self, ccy: Pol, instr: Pol, know_ccy: u8, know: u16) -> State {
        State {
            ccy: Known { pol: ccy, map: self.known_ccys(know_ccy).iter().map(|i| (self.ccys[*i].id().to_string(), self.ccy_text[*i].clone())).collect() },
            instr: Known { pol: instr, map: self.known(know).iter().map(|i| (self.nodes[*i].id().to_string(), self.full[*i].clone())).collect() },
        }
    }
    fn live(&self, p: &Pair) -> Live {
        let ccys: Vec<RcCurrency> = self.known_ccys(p.know_ccy).iter().map(|i| self.ccys[*i].clone()).collect();
        let nodes: Vec<RcInstrument> = self.known(p.know).iter().map(|i| self.nodes[*i].clone()).collect();
        Live { ccy: Dedup::new(p.ccy.build(), dedup_map_from_slice(&ccys)), instr: Dedup::new(p.instr.build(), dedup_map_from_slice(&nodes)), model: self.state(p.ccy, p.instr, p.know_ccy, p.know) }
    }
    /// Outside any policy: everything in full, no ids known
    fn outside(&self, what: &str) -> R {
        let last = self.nodes.len() - 1;
        let text = match serde_json::to_string(&self.nodes[last]) {
            Ok(t) => t,
            Err(e) => bail!("leak", "{} a plain write fails: {}", what, e),
        };
        ensure!(J::parse(&text)?.same(&self.full[last]), "leak", "{} a plain write gives {} not {}", what, text, self.full[last].text());
        for n in &self.nodes {
            if serde_json::from_str::<RcInstrument>(&format!("{:?}", n.id())).is_ok() {
                bail!("leak", "{} a plain read of the id {} succeeds", what, n.id());
            }
        }
        for n in &self.ccys {
            if serde_json::from_str::<RcCurrency>(&format!("{:?}", n.id())).is_ok() {
                bail!("leak", "{} a plain read of the currency {} succeeds", what, n.id());
            }
        }
        Ok(())
    }
    fn elsewhere(&self) -> R {
        std::thread::scope(|s| s.spawn(|| self.outside("in another thread")).join()).unwrap_or_else(|_| Err(Fail { sig: "panic".into(), msg: "another thread panicked".into() }))
    }
}

fn within<Q>(l: &mut Live, f: impl FnOnce() -> Q) -> Q {
    let Live { ccy, instr, .. } = l;
    ccy.with(&DEDUP_CURRENCY, || instr.with(&DEDUP_INSTRUMENT, f))
}

/// Places of components, and what they may be replaced with
fn edit(text: &J, edits: &[(usize, usize)], g: &Graph) -> J {
    fn places(j: &mut J, out: &mut Vec<(bool, *mut J)>) {
        if let J::Obj(o) = j {
            if let Some((_, J::Obj(body))) = o.first_mut() {
                for (k, v) in body.iter_mut() {
                    match k.as_str() {
                        "currency" => out.push((true, v)),
                        "underlying" => {
                            out.push((false, v));
                            places(v, out);
                        }
                        "basket" => {
                            if let J::Arr(a) = v {
                                for p in a {
                                    if let J::Arr(p) = p {
                                        out.push((false, &mut p[1]));
                                        places(&mut p[1], out);
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    let mut j = text.clone();
    for (at, with) in edits {
        let mut v = Vec::new();
        places(&mut j, &mut v);
        if v.is_empty() {
            break;
        }
        let (ccy, p) = v[at % v.len()];
        let new = if ccy {
            match with % 3 {
                2 => J::Str("XXX".to_string()),
                i => J::Str(g.ccys[i].id().to_string()),
            }
        } else {
            match with % (2 * g.nodes.len() + 1) {
                i if i < g.nodes.len() => J::Str(g.nodes[i].id().to_string()),
                i if i < 2 * g.nodes.len() => g.full[i - g.nodes.len()].clone(),
                _ => J::Str("EQ9".to_string()),
            }
        };
        // the only pointer in use, into a tree nothing else holds
        unsafe { *p = new };
    }
    j
}

fn judge(what: &str, text: &J, want: Result<J, Out>, got: Result<RcInstrument, qm::Error>, g: &Graph, c: &Case, obs: &mut Obs) -> Result<bool, Fail> {
    match (want, got) {
        (Err(Out::Unjudged), _) => {
            obs.count("read not judged", 1);
            Ok(false)
        }
        (Err(Out::Unknown(_)), Err(_)) => {
            obs.tag("unknown id read");
            Ok(false)
        }
        (Err(Out::Unknown(id)), Ok(_)) => bail!("unknown", "{} reads {} though {} is unknown", what, text.text(), id),
        (Ok(_), Err(e)) => bail!("unreadable", "{} cannot read {}: {}", what, text.text(), e),
        (Ok(want), Ok(i)) => {
            let full = J::parse(&serde_json::to_string(&i)?)?;
            ensure!(full.same(&want), "read", "{} reads {} as {} not {}", what, text.text(), full.text(), want.text());
            // a node read back unedited prices the same
            if let Some(k) = g.full.iter().position(|f| f.same(&want)) {
                obs.tag("read back");
                let md = c.market.build()?;
                for w in &c.when {
                    let (x, y) = (prices(&g.nodes[k], &md, &[*w]), prices(&i, &md, &[*w]));
                    let ok = match (&x, &y) {
                        (Ok(x), Ok(y)) => same_bits(x[0], y[0]) || (x[0] - y[0]).abs() <= 1e-11 * (1.0 + x[0].abs()),
                        (Err(_), Err(_)) => true,
                        _ => false,
                    };
                    ensure!(ok, "price", "{} read back is worth {:?} not {:?}", g.nodes[k].id(), y.map_err(|e| e.to_string()), x.map_err(|e| e.to_string()));
                    obs.tag_if(x.is_ok(), "priced");
                }
            }
            Ok(true)
        }
    }
}

fn history(c: &Case, obs: &mut Obs) -> R {
    fresh();
    let g = graph(c)?;
    let count = g.nodes.len();
    // written plainly, every component is there in full
    let mut seen = State { ccy: Known { pol: Pol::Inline, map: HashMap::new() }, instr: Known { pol: Pol::Inline, map: HashMap::new() } };
    for (k, f) in g.full.iter().enumerate() {
        match seen.instrument(f, false, true) {
            Ok(j) => ensure!(j.same(f), "inline", "{}", f.text()),
            Err(e) => bail!("inline", "{} written plainly refers to an id ({:?}): {}", g.nodes[k].id(), e, f.text()),
        }
        if let (J::Obj(o), Some(Top::Basket { parts, .. })) = (f, (k + c.tops.len()).checked_sub(count).and_then(|i| c.tops.get(i))) {
            let at = k;
            if let Some(J::Arr(a)) = o[0].1.field("basket") {
                for (p, (w, i)) in a.iter().zip(parts) {
                    let ok = if let J::Arr(p) = p { matches!(&p[0], J::Num(x) if x == w) && p[1].same(&g.full[i % at]) } else { false };
                    ensure!(ok, "inline", "component {} of {} is written {}", g.nodes[i % at].id(), g.nodes[k].id(), p.text());
                }
                ensure!(a.len() == parts.len(), "inline", "{} components of {}", a.len(), parts.len());
            } else {
                bail!("inline", "{} is written without components: {}", g.nodes[k].id(), f.text());
            }
        }
    }
    g.outside("at first")?;
    let mut live: Vec<Live> = c.pairs.iter().map(|p| g.live(p)).collect();
    let n = live.len();
    let mut texts: Vec<J> = vec![g.full[count - 1].clone()];
    let mut by_id = false;
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            Op::Write { pair, node, tagged, within: outer, thread } => {
                let (pair, node) = (pair % n, (count - 1) - node % count);
                let pols = &c.pairs[pair];
                let what = format!("step {}: under {}/{}", step, pols.ccy.name(), pols.instr.name());
                let mut model = live[pair].model.clone();
                let want = if *tagged { model.tagged(&g.full[node], true) } else { model.instrument(&g.full[node], true, true) };
                let x = &g.nodes[node];
                let mut side: R = Ok(());
                let mut write = || {
                    if *thread {
                        side = g.elsewhere();
                    }
                    if *tagged {
                        serde_json::to_string(x.content())
                    } else {
                        serde_json::to_string(x)
                    }
                };
                let got = match outer {
                    Some(o) if o % n != pair => {
                        // another policy in force outside, and again afterwards
                        obs.tag("nested policies");
                        let o = o % n;
                        let (mut a, mut b) = (live.remove(o.max(pair)), live.remove(o.min(pair)));
                        if o > pair {
                            std::mem::swap(&mut a, &mut b);
                        }
                        // now a is the pair, b the outer
                        let (mut a, mut b) = (a, b);
                        let mut bmodel = b.model.clone();
                        let expect = bmodel.tagged(&g.full[count - 1], true);
                        let top = &g.nodes[count - 1];
                        let (got, after) = within(&mut b, || {
                            let got = within(&mut a, &mut write);
                            (got, serde_json::to_string(top.content()))
                        });
                        let done = match (expect, after) {
                            (Ok(e), Ok(t)) => {
                                ensure!(J::parse(&t)?.same(&e), "nested", "{}: the outer policy {:?} gives {} not {}", what, c.pairs[o], t, e.text());
                                true
                            }
                            (Err(_), Err(_)) => false,
                            (e, t) => bail!("nested", "{}: the outer policy {:?} gives {:?} not {:?}", what, c.pairs[o], t.map_err(|e| e.to_string()), e.map(|j| j.text())),
                        };
                        b.model = bmodel;
                        if !done {
                            b = g.live(&c.pairs[o]);
                        }
                        if o > pair {
                            live.insert(pair, a);
                            live.insert(o, b);
                        } else {
                            live.insert(o, b);
                            live.insert(pair, a);
                        }
                        got
                    }
                    _ => within(&mut live[pair], &mut write),
                };
                side?;
                match (want, got) {
                    (Ok(want), Ok(t)) => {
                        let j = J::parse(&t)?;
                        ensure!(j.same(&want), "written", "{} {} is written {} not {}", what, g.nodes[node].id(), t, want.text());
                        live[pair].model = model;
                        by_id |= !matches!(j, J::Str(_)) && !j.same(&g.full[node]);
                        obs.tag_if(pols.instr == Pol::Once && !matches!(j, J::Str(_)) && !j.same(&g.full[node]), "written once");
                        obs.tag_if(pols.instr == Pol::Supplied && *tagged, "written with supplied components");
                        texts.push(j);
                    }
                    (Err(_), Err(_)) => {
                        obs.tag("unknown id written");
                        live[pair] = g.live(pols);
                    }
                    (want, got) => bail!("written", "{} {} is written {:?} not {:?}", what, g.nodes[node].id(), got.map_err(|e| e.to_string()), want.map(|j| j.text())),
                }
            }
            Op::Read { pair, text, edits, thread } => {
                let pair = pair % n;
                let pols = &c.pairs[pair];
                let what = format!("step {}: {}/{}", step, pols.ccy.name(), pols.instr.name());
                let j = edit(&texts[text % texts.len()], edits, &g);
                let mut model = live[pair].model.clone();
                let want = model.instrument(&j, false, true);
                let t = j.text();
                let mut side: R = Ok(());
                let got = within(&mut live[pair], || {
                    if *thread {
                        side = g.elsewhere();
                    }
                    serde_json::from_str::<RcInstrument>(&t)
                });
                side?;
                if judge(&what, &j, want, got.map_err(|e| qm::Error::new(&e.to_string())), &g, c, obs)? {
                    live[pair].model = model;
                } else {
                    live[pair] = g.live(pols);
                }
            }
            Op::Load { ccy, instr, know_ccy, know, text, edits } => {
                let what = format!("step {}: loading with {}/{}", step, ccy.name(), instr.name());
                let j = edit(&texts[text % texts.len()], edits, &g);
                let want = g.state(*ccy, *instr, *know_ccy, *know).instrument(&j, false, true);
                let ccys: Vec<RcCurrency> = g.known_ccys(*know_ccy).iter().map(|i| g.ccys[*i].clone()).collect();
                let nodes: Vec<RcInstrument> = g.known(*know).iter().map(|i| g.nodes[*i].clone()).collect();
                let got = instrument_from_json(&mut Cursor::new(j.text().as_bytes()), ccy.build(), &ccys, instr.build(), &nodes);
                if judge(&what, &j, want, got, &g, c, obs)? {
                    obs.tag("loaded");
                }
            }
            Op::Panic { pair, within: outer } => {
                let pair = pair % n;
                obs.tag("panic under a policy");
                let mut a = g.live(&c.pairs[pair]);
                let mut b = outer.map(|o| g.live(&c.pairs[o % n]));
                let r = no_panic(|| match &mut b {
                    Some(b) => within(b, || within(&mut a, || panic!("on purpose"))),
                    None => within(&mut a, || panic!("on purpose")),
                });
                ensure!(r.is_err(), "panic", "the panic got lost");
            }
        }
        g.outside(&format!("after step {} ({:?})", step, op))?;
    }
    obs.nontrivial_if(by_id);
    Ok(())
}

// -------------------------------------------------- supplied components win

/// Supplying other components under the same ids
fn supplied(c: &Case, obs: &mut Obs) -> R {
    fresh();
    let g = graph(c)?;
    // the same graph in another market: other settlement of currencies, other credit of equities
    let mut other = c.clone();
    other.market.settle = c.euro.clone();
    other.euro = c.market.settle.clone();
    for n in other.market.names.iter_mut() {
        n.credit = 0;
    }
    let h = graph(&other)?;
    let count = g.nodes.len();
    for p in &c.pairs {
        for top in [count - 1, count / 2] {
            // every component at hand is supplied when writing
            let mut l = Live {
                ccy: Dedup::new(p.ccy.build(), dedup_map_from_slice(&g.ccys)),
                instr: Dedup::new(p.instr.build(), dedup_map_from_slice(&g.nodes)),
                model: g.state(p.ccy, p.instr, 255, 0xffff),
            };
            let text = within(&mut l, || serde_json::to_string(g.nodes[top].content()))?;
            let j = J::parse(&text)?;
            let want = l.model.tagged(&g.full[top], true);
            match &want {
                Ok(w) => ensure!(j.same(w), "written", "{} is written {} not {}", g.nodes[top].id(), text, w.text()),
                Err(e) => bail!("written", "{} is written {} despite {:?}", g.nodes[top].id(), text, e),
            }
            // others are supplied when reading
            let mut model = h.state(p.ccy, p.instr, 255, 0xffff);
            // but not the one being read
            let mine = g.nodes[top].id().to_string();
            model.instr.map.remove(&mine);
            let nodes: Vec<RcInstrument> = h.nodes.iter().filter(|x| x.id() != mine).cloned().collect();
            let want = model.instrument(&j, false, true);
            let got = instrument_from_json(&mut Cursor::new(text.as_bytes()), p.ccy.build(), &h.ccys, p.instr.build(), &nodes);
            match want {
                Err(Out::Unjudged) => obs.count("read not judged", 1),
                Err(Out::Unknown(id)) => bail!("unknown", "{} in {}", id, text),
                Ok(want) => {
                    let got = got?;
                    let full = J::parse(&serde_json::to_string(&got)?)?;
                    ensure!(full.same(&want), "supplied", "{} reads as {} not {}", text, full.text(), want.text());
                    obs.nontrivial_if(!want.same(&g.full[top]));
                    // supplied, not copied
                    obs.tag(p.instr.name());
                }
            }
        }
    }
    Ok(())
}

fn pol() -> BoxedStrategy<Pol> {
    prop_oneof![3 => Just(Pol::Once), 2 => Just(Pol::Supplied), 1 => Just(Pol::Inline)].boxed()
}
fn mask() -> BoxedStrategy<u16> {
    prop_oneof![2 => Just(0u16), 2 => Just(0xffff), 3 => any::<u16>(), 1 => (0u16..16).prop_map(|b| !(1 << b))].boxed()
}
fn mask8() -> BoxedStrategy<u8> {
    prop_oneof![1 => Just(0u8), 3 => Just(3), 1 => 0u8..4].boxed()
}

fn case() -> BoxedStrategy<Case> {
    (market(TAME), 20000i32..20001)
        .prop_flat_map(|(m, n)| {
            let top = prop_oneof![
                5 => (any::<bool>(), 0..m.curves.len(), vec((weight(), 0usize..24), 0..5)).prop_map(|(euro, credit, parts)| Top::Basket { euro, credit, parts }),
                1 => (0usize..24, dec(10.0, 200.0, 1), any::<bool>()).prop_map(|(on, strike, call)| Top::Option { on, strike, call }),
            ];
            let pair = (pol(), pol(), mask8(), mask()).prop_map(|(ccy, instr, know_ccy, know)| Pair { ccy, instr, know_ccy, know });
            let edits = prop_oneof![3 => Just(Vec::new()).boxed(), 1 => vec((0usize..64, 0usize..64), 1..4).boxed()];
            let rare = || prop::bool::weighted(0.1);
            let op = prop_oneof![
                5 => (0usize..3, prop_oneof![3 => Just(0usize), 2 => 0usize..12], prop::bool::weighted(0.7), prop::option::weighted(0.3, 0usize..3), rare())
                    .prop_map(|(pair, node, tagged, within, thread)| Op::Write { pair, node, tagged, within, thread }),
                4 => (0usize..3, 0usize..10, edits.clone(), rare()).prop_map(|(pair, text, edits, thread)| Op::Read { pair, text, edits, thread }),
                4 => (pol(), pol(), mask8(), mask(), 0usize..10, edits).prop_map(|(ccy, instr, know_ccy, know, text, edits)| Op::Load { ccy, instr, know_ccy, know, text, edits }),
                1 => (0usize..3, prop::option::of(0usize..3)).prop_map(|(pair, within)| Op::Panic { pair, within }),
            ];
            let date = m.date;
            (Just(m.clone()), lag(n), vec(leaf(&m), 1..4), vec(top, 1..5), vec(pair, 1..4), vec(op, 1..8), vec((date..date + 60, tod()), 1..3))
        })
        .prop_map(|(market, euro, leaves, tops, pairs, ops, when)| Case { market, euro, leaves, tops, pairs, ops, when })
        .boxed()
}

fn main() {
    Check::new("C08")
        .assume("one id stands for one component within a graph of instruments")
        .assume("not judged: an id of a supplied component read under the inline policy, and a component in full read under the supplied-components policy (other than the instrument itself)")
        .assume("after a write or read that fails, the table of known components is not used again")
        .sub("history", 20000, 400000, "some text refers to a component by id", case, history)
        .sub("supplied", 20000, 410000, "the supplied components change the result", case, supplied)
        .main()
}
