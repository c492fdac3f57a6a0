//! C10: the C interface against the library calls it stands for.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::core::dedup::*;
use quantmath::core::qm;
use quantmath::data::fixings::RcFixingTable;
use quantmath::facade::c_interface::*;
use quantmath::facade::*;
use quantmath::instruments::assets::RcCurrency;
use quantmath::instruments::*;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::marketdata::*;
use quantmath::risk::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashSet;
use std::error::Error;
use std::ffi::{CStr, CString};
use std::fs;
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::docs::*;
use vh::*;

/// A handle picked from those there are: of the kind wanted, or any.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Pick {
    any: bool,
    i: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Text {
    Valid,
    Edited(Vec<Edit>),
    Cut(Vec<Cut>),
    /// the text for some other kind of object
    Other(Kind),
    /// no such file, or no text
    Missing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Load { second: bool, kind: Kind, text: Text, file: bool },
    /// an instrument, with currencies and instruments supplied under policies
    Assemble { second: bool, text: Text, file: bool, pols: (u8, u8), shape: Shape, ccys: Vec<Pick>, instrs: Vec<Pick> },
    Calculate { factory: Pick, instr: Pick, fixings: Pick, market: Pick, gens: Vec<Pick> },
    Write(Pick),
    Message(Pick),
    Copy(Pick),
    Free(Pick),
    Compare { a: Pick, b: Pick, tol: u8 },
    /// a calculation done twice, or by way of its text, and the outcomes compared
    Repeat { factory: Pick, instr: Pick, fixings: Pick, market: Pick, gens: Vec<Pick>, reload: Option<Vec<(usize, f64)>>, tol: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Valid,
    b: Valid,
    ops: Vec<Op>,
}

/// How the components of an instrument are given
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Shape {
    Full,
    /// currencies by name
    Currencies,
    /// currencies and instruments by name
    Components,
    /// in full the first time and by name from then on
    Once,
}

/// What the library gives for a call
enum Object {
    Nothing,
    Market(RcMarketData),
    Instrument(RcInstrument),
    Currency(RcCurrency),
    Fixings(RcFixingTable),
    Factory(RcPricerFactory),
    Generator(RcReportGenerator),
    Reports(Vec<BoxReport>),
    /// an error: the messages it may have, or none if any will do
    Failed(Vec<String>),
}

impl Object {
    fn is(&self, k: Kind) -> bool {
        match (self, k) {
            (Object::Market(_), Kind::Market) => true,
            (Object::Instrument(_), Kind::Instrument) => true,
            (Object::Currency(_), Kind::Currency) => true,
            (Object::Fixings(_), Kind::Fixings) => true,
            (Object::Factory(_), Kind::Factory) => true,
            (Object::Generator(_), Kind::Generator) => true,
            (Object::Reports(_), Kind::Reports) => true,
            _ => false,
        }
    }
    fn failed(&self) -> bool {
        matches!(self, Object::Failed(_))
    }
    fn copy(&self) -> Object {
        match self {
            Object::Nothing => Object::Nothing,
            Object::Market(x) => Object::Market(x.clone()),
            Object::Instrument(x) => Object::Instrument(x.clone()),
            Object::Currency(x) => Object::Currency(x.clone()),
            Object::Fixings(x) => Object::Fixings(x.clone()),
            Object::Factory(x) => Object::Factory(x.clone()),
            Object::Generator(x) => Object::Generator(x.clone()),
            // reports are documented not to be copied
            Object::Reports(_) => Object::Failed(Vec::new()),
            Object::Failed(m) => Object::Failed(m.clone()),
        }
    }
}

fn said(e: &qm::Error) -> String {
    #[allow(deprecated)]
    e.description().to_string()
}

fn control(i: u8) -> DedupControl {
    [DedupControl::Inline, DedupControl::WriteOnce, DedupControl::ErrorIfMissing][i as usize % 3]
}
fn c_control(i: u8) -> QmDedupControl {
    match i % 3 {
        0 => QmDedupControl::QmInline,
        1 => QmDedupControl::QmWriteOnce,
        _ => QmDedupControl::QmErrorIfMissing,
    }
}

fn library(k: Kind, text: &[u8]) -> Object {
    let mut c = Cursor::new(text);
    let r = no_panic(|| {
        Ok(match k {
            Kind::Market => Object::Market(market_data_from_json(&mut c)?),
            Kind::Instrument => Object::Instrument(instrument_from_json(&mut c, DedupControl::Inline, &[], DedupControl::Inline, &[])?),
            Kind::Currency => Object::Currency(currency_from_json(&mut c)?),
            Kind::Fixings => Object::Fixings(fixing_table_from_json(&mut c)?),
            Kind::Factory => Object::Factory(pricer_factory_from_json(&mut c)?),
            Kind::Generator => Object::Generator(report_generator_from_json(&mut c)?),
            Kind::Reports => Object::Reports(reports_from_json(&mut c)?),
        })
    });
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            let e: qm::Error = e;
            Object::Failed(vec![said(&e)])
        }
        Err(_) => Object::Failed(Vec::new()),
    }
}

fn load_string(k: Kind, s: &CStr) -> u64 {
    let none: [u64; 0] = [];
    match k {
        Kind::Market => qm_market_data_from_json_string(s.as_ptr()),
        Kind::Instrument => qm_instrument_from_json_string(s.as_ptr(), QmDedupControl::QmInline, 0, none.as_ptr(), QmDedupControl::QmInline, 0, none.as_ptr()),
        Kind::Currency => qm_currency_from_json_string(s.as_ptr()),
        Kind::Fixings => qm_fixing_table_from_json_string(s.as_ptr()),
        Kind::Factory => qm_pricer_factory_from_json_string(s.as_ptr()),
        Kind::Generator => qm_report_generator_from_json_string(s.as_ptr()),
        Kind::Reports => qm_reports_from_json_string(s.as_ptr()),
    }
}
fn load_file(k: Kind, s: &CStr) -> u64 {
    let none: [u64; 0] = [];
    match k {
        Kind::Market => qm_market_data_from_json_file(s.as_ptr()),
        Kind::Instrument => qm_instrument_from_json_file(s.as_ptr(), QmDedupControl::QmInline, 0, none.as_ptr(), QmDedupControl::QmInline, 0, none.as_ptr()),
        Kind::Currency => qm_currency_from_json_file(s.as_ptr()),
        Kind::Fixings => qm_fixing_table_from_json_file(s.as_ptr()),
        Kind::Factory => qm_pricer_factory_from_json_file(s.as_ptr()),
        Kind::Generator => qm_report_generator_from_json_file(s.as_ptr()),
        Kind::Reports => qm_reports_from_json_file(s.as_ptr()),
    }
}

/// A string handed over by the interface
fn taken(p: *mut std::os::raw::c_char) -> Vec<u8> {
    let bytes = unsafe { CStr::from_ptr(p).to_bytes().to_vec() };
    qm_free_string(p);
    bytes
}

/// A file that goes away again, in a directory of the check's own
struct Scratch(PathBuf);
static FILES: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    fn new(text: Option<&[u8]>) -> Result<Scratch, Fail> {
        let dir = std::env::var("VH_CHILD").map(PathBuf::from).unwrap_or(std::env::temp_dir());
        let path = dir.join(format!("vh-c10-{}-{}.txt", std::process::id(), FILES.fetch_add(1, Ordering::Relaxed)));
        if let Some(t) = text {
            fs::write(&path, t).map_err(|e| Fail::new("scratch", e.to_string()))?;
        }
        Ok(Scratch(path))
    }
    fn name(&self) -> CString {
        CString::new(self.0.as_os_str().as_bytes()).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_file(&self.0);
    }
}

/// The live handles and what each stands for. Those left are freed at the end.
struct Table {
    live: Vec<(u64, Object)>,
}
impl Drop for Table {
    fn drop(&mut self) {
        for (h, _) in self.live.drain(..) {
            qm_free_handle(h);
        }
    }
}

impl Table {
    fn pick(&self, p: Pick, k: Option<Kind>) -> Option<usize> {
        let fit: Vec<usize> = match k {
            Some(k) if !p.any => (0..self.live.len()).filter(|i| self.live[*i].1.is(k)).collect(),
            _ => (0..self.live.len()).collect(),
        };
        let fit = if fit.is_empty() { (0..self.live.len()).collect() } else { fit };
        if fit.is_empty() {
            None
        } else {
            Some(fit[p.i % fit.len()])
        }
    }

    fn add(&mut self, h: u64, x: Object, what: &str) -> R {
        if self.live.iter().any(|l| l.0 == h) {
            bail!("alias", "{} gave a handle that is in use for something else", what);
        }
        self.live.push((h, x));
        self.judge(self.live.len() - 1, what)
    }

    /// Whether a handle says of itself what it should
    fn judge(&self, i: usize, what: &str) -> R {
        let (h, x) = (self.live[i].0, &self.live[i].1);
        let wrong = qm_is_error(h);
        let message = String::from_utf8_lossy(&taken(qm_error_string(h))).to_string();
        ensure!(wrong == x.failed(), "error-or-not", "{}: the handle {} an error ({}), the library {}", what, if wrong { "is" } else { "is not" }, message, match x {
            Object::Failed(m) => format!("gives an error {:?}", m),
            _ => "gives none".to_string(),
        });
        ensure!(!message.is_empty(), "message", "{}: no message", what);
        if let Object::Failed(m) = x {
            // a message with a zero character cannot be handed over
            ensure!(m.is_empty() || m.iter().any(|m| *m == message || m.contains('\0')), "message", "{}: the handle says {}, the library {:?}", what, message, m);
        }
        if let Object::Reports(r) = x {
            let text = taken(qm_reports_as_json_string(h));
            let mut expected = Vec::new();
            let written = write_results(r, true, &mut expected);
            ensure!(written.is_ok(), "write", "{}: the library cannot write the reports", what);
            let (a, b): (Value, Value) = (
                serde_json::from_slice(&text).map_err(|e| Fail::new("reports", format!("{}: {} in {}", what, e, String::from_utf8_lossy(&text))))?,
                serde_json::from_slice(&expected)?,
            );
            ensure!(a == b, "reports", "{}: the handle gives {} where the library gives {}", what, a, b);
        }
        Ok(())
    }

    /// The errors among arguments that should be of the given kinds: whether there are any, and
    /// the messages if only errors that were passed on are to blame.
    fn blame(&self, args: &[(usize, Kind)]) -> Option<Vec<String>> {
        let mut wrong = false;
        let mut said: Vec<String> = Vec::new();
        let mut unknown = false;
        for (i, k) in args {
            match &self.live[*i].1 {
                Object::Failed(m) => {
                    wrong = true;
                    unknown |= m.is_empty();
                    said.extend(m.iter().cloned());
                }
                x if x.is(*k) => {}
                _ => {
                    wrong = true;
                    unknown = true;
                }
            }
        }
        if !wrong {
            None
        } else if unknown {
            Some(Vec::new())
        } else {
            Some(said)
        }
    }
}

fn text_of(c: &Case, second: bool, k: Kind, text: &Text, shape: Shape) -> Result<Option<Vec<u8>>, Fail> {
    let v = if second { &c.b } else { &c.a };
    let mut doc = document(v, match text {
        Text::Other(k) => *k,
        _ => k,
    })?;
    name_only(&mut doc, shape, &mut HashSet::new());
    if let Text::Edited(e) = text {
        for e in e {
            change(&mut doc, e);
        }
    }
    let mut t = serde_json::to_vec(&doc)?;
    if let Text::Cut(cs) = text {
        for x in cs {
            cut(&mut t, x);
        }
    }
    if let Text::Missing = text {
        return Ok(None);
    }
    Ok(Some(t))
}

/// The components of an instrument given by name alone where the shape says so
fn name_only(v: &mut Value, shape: Shape, seen: &mut HashSet<String>) {
    match v {
        Value::Array(a) => {
            for x in a.iter_mut() {
                match x {
                    // a weight and a component
                    Value::Array(p) if p.len() == 2 && p[1].is_object() => component(&mut p[1], shape, seen),
                    x => name_only(x, shape, seen),
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                match k.as_str() {
                    "currency" => {
                        if let Some(id) = x.get("id").and_then(|i| i.as_str()).map(|i| i.to_string()) {
                            if shape == Shape::Currencies || shape == Shape::Components || shape == Shape::Once && !seen.insert(format!("currency {}", id)) {
                                *x = Value::String(id);
                            }
                        }
                    }
                    "underlying" => component(x, shape, seen),
                    _ => name_only(x, shape, seen),
                }
            }
        }
        _ => {}
    }
}

fn component(x: &mut Value, shape: Shape, seen: &mut HashSet<String>) {
    let id = x.as_object().and_then(|o| o.values().next()).and_then(|b| b.get("id")).and_then(|i| i.as_str()).map(|i| i.to_string());
    match id {
        Some(id) if shape == Shape::Components || shape == Shape::Once && seen.contains(&id) => *x = Value::String(id),
        id => {
            name_only(x, shape, seen);
            seen.extend(id);
        }
    }
}

fn calculated(f: &Object, i: &Object, x: &Object, m: &Object, g: &[&Object]) -> Object {
    let gens: Vec<RcReportGenerator> = g.iter().filter_map(|g| if let Object::Generator(g) = g { Some(g.clone()) } else { None }).collect();
    match (f, i, x, m) {
        (Object::Factory(f), Object::Instrument(i), Object::Fixings(x), Object::Market(m)) => {
            let (f, i, x, m) = (f.clone(), i.clone(), x.clone(), m.clone());
            match no_panic(|| calculate(f, i, x, m, &gens)) {
                Ok(Ok(r)) => Object::Reports(r),
                _ => Object::Failed(Vec::new()),
            }
        }
        _ => Object::Failed(Vec::new()),
    }
}

/// Calculates through both interfaces; the result becomes a handle.
fn through_both(t: &mut Table, f: usize, i: usize, x: usize, m: usize, g: &[usize], obs: &mut Obs, what: &str) -> R {
    let mut args = vec![(f, Kind::Factory), (i, Kind::Instrument), (x, Kind::Fixings), (m, Kind::Market)];
    args.extend(g.iter().map(|g| (*g, Kind::Generator)));
    let expected = match t.blame(&args) {
        Some(m) => {
            obs.tag("calculation passed something wrong");
            Object::Failed(m)
        }
        None => calculated(&t.live[f].1, &t.live[i].1, &t.live[x].1, &t.live[m].1, &g.iter().map(|g| &t.live[*g].1).collect::<Vec<_>>()),
    };
    if let Object::Reports(r) = &expected {
        obs.tag("calculated");
        obs.tag_if(!r.is_empty(), "reports calculated");
    }
    let gens: Vec<u64> = g.iter().map(|g| t.live[*g].0).collect();
    let h = qm_calculate(t.live[f].0, t.live[i].0, t.live[x].0, t.live[m].0, gens.len() as u32, gens.as_ptr());
    t.add(h, expected, what)
}

fn step(t: &mut Table, c: &Case, op: &Op, obs: &mut Obs) -> R {
    match op {
        Op::Load { second, kind, text, file } => {
            let bytes = text_of(c, *second, *kind, text, Shape::Full)?;
            let what = format!("loading {}", kind.name());
            if *file {
                let f = Scratch::new(bytes.as_ref().map(|b| b.as_slice()))?;
                let expected = match &bytes {
                    None => Object::Failed(Vec::new()),
                    Some(b) => library(*kind, b),
                };
                obs.tag(if expected.failed() { "file refused" } else { "file loaded" });
                let h = load_file(*kind, &f.name());
                t.add(h, expected, &what)
            } else {
                let mut b = bytes.unwrap_or(Vec::new());
                b.retain(|x| *x != 0);
                let expected = library(*kind, &b);
                obs.tag(if expected.failed() { "text refused" } else { "text loaded" });
                let h = load_string(*kind, &CString::new(b).unwrap());
                t.add(h, expected, &what)
            }
        }
        Op::Assemble { second, text, file, pols, shape, ccys, instrs } => {
            let cs: Vec<usize> = ccys.iter().filter_map(|p| t.pick(*p, Some(Kind::Currency))).collect();
            let is: Vec<usize> = instrs.iter().filter_map(|p| t.pick(*p, Some(Kind::Instrument))).collect();
            let mut args: Vec<(usize, Kind)> = cs.iter().map(|i| (*i, Kind::Currency)).collect();
            args.extend(is.iter().map(|i| (*i, Kind::Instrument)));
            let bytes = text_of(c, *second, Kind::Instrument, text, *shape)?;
            let mut b = bytes.clone().unwrap_or(Vec::new());
            b.retain(|x| *x != 0);
            let expected = match t.blame(&args) {
                // the file is opened first
                Some(m) => Object::Failed(if *file && bytes.is_none() { Vec::new() } else { m }),
                None if *file && bytes.is_none() => Object::Failed(Vec::new()),
                None => {
                    let cl: Vec<RcCurrency> = cs.iter().filter_map(|i| if let Object::Currency(x) = &t.live[*i].1 { Some(x.clone()) } else { None }).collect();
                    let il: Vec<RcInstrument> = is.iter().filter_map(|i| if let Object::Instrument(x) = &t.live[*i].1 { Some(x.clone()) } else { None }).collect();
                    match no_panic(|| instrument_from_json(&mut Cursor::new(&b), control(pols.0), &cl, control(pols.1), &il)) {
                        Ok(Ok(x)) => {
                            obs.tag_if(*shape == Shape::Currencies, "assembled from a supplied currency");
                            obs.tag_if(*shape == Shape::Components, "assembled from supplied components");
                            obs.tag_if(*shape == Shape::Once && pols.0 % 3 == 1, "assembled from components given once");
                            Object::Instrument(x)
                        }
                        Ok(Err(e)) => Object::Failed(vec![said(&e)]),
                        Err(_) => Object::Failed(Vec::new()),
                    }
                }
            };
            obs.tag(if expected.failed() { "assembly refused" } else { "assembled" });
            let ch: Vec<u64> = cs.iter().map(|i| t.live[*i].0).collect();
            let ih: Vec<u64> = is.iter().map(|i| t.live[*i].0).collect();
            let h = if *file {
                let f = Scratch::new(if bytes.is_some() { Some(&b) } else { None })?;
                qm_instrument_from_json_file(f.name().as_ptr(), c_control(pols.0), ch.len() as u32, ch.as_ptr(), c_control(pols.1), ih.len() as u32, ih.as_ptr())
            } else {
                let s = CString::new(b).unwrap();
                qm_instrument_from_json_string(s.as_ptr(), c_control(pols.0), ch.len() as u32, ch.as_ptr(), c_control(pols.1), ih.len() as u32, ih.as_ptr())
            };
            t.add(h, expected, "assembling an instrument")
        }
        Op::Calculate { factory, instr, fixings, market, gens } => {
            let picked = (t.pick(*factory, Some(Kind::Factory)), t.pick(*instr, Some(Kind::Instrument)), t.pick(*fixings, Some(Kind::Fixings)), t.pick(*market, Some(Kind::Market)));
            let g: Vec<usize> = gens.iter().filter_map(|p| t.pick(*p, Some(Kind::Generator))).collect();
            match picked {
                (Some(f), Some(i), Some(x), Some(m)) => through_both(t, f, i, x, m, &g, obs, "calculating"),
                _ => Ok(()),
            }
        }
        Op::Repeat { factory, instr, fixings, market, gens, reload, tol } => {
            let again = Op::Calculate { factory: *factory, instr: *instr, fixings: *fixings, market: *market, gens: gens.clone() };
            let before = t.live.len();
            // new handles go to the end and are reports or errors, which these picks do not touch
            step(t, c, &again, obs)?;
            if t.live.len() == before {
                return Ok(());
            }
            if let Some(moves) = reload {
                let mut text = taken(qm_reports_as_json_string(t.live[before].0));
                if let (false, Ok(mut v)) = (moves.is_empty(), serde_json::from_slice::<Value>(&text)) {
                    for (i, f) in moves {
                        change(&mut v, &Edit::Scale(*i, *f));
                    }
                    text = serde_json::to_vec(&v)?;
                    obs.tag("numbers of reports moved");
                }
                let expected = library(Kind::Reports, &text);
                let h = load_string(Kind::Reports, &CString::new(text).unwrap());
                t.add(h, expected, "loading reports again")?;
            } else {
                step(t, c, &again, obs)?;
            }
            let last = |i: usize| Pick { any: true, i };
            step(t, c, &Op::Compare { a: last(before), b: last(before + 1), tol: *tol }, obs)
        }
        Op::Write(p) => match t.pick(*p, Some(Kind::Reports)) {
            None => Ok(()),
            Some(i) => {
                let text = taken(qm_reports_as_json_string(t.live[i].0));
                match &t.live[i].1 {
                    Object::Reports(_) => {}
                    Object::Failed(m) => {
                        let text = String::from_utf8_lossy(&text).to_string();
                        ensure!(m.is_empty() || m.iter().any(|m| *m == text || m.contains('\0')), "message", "an error handle written as reports says {}, not {:?}", text, m);
                        obs.tag("error written");
                    }
                    _ => {
                        ensure!(!text.is_empty(), "message", "a handle of the wrong kind is written as nothing");
                        ensure!(serde_json::from_slice::<Value>(&text).map_or(true, |v| !v.is_array()), "wrong-kind", "a handle of the wrong kind is written as reports: {}", String::from_utf8_lossy(&text));
                    }
                }
                Ok(())
            }
        },
        Op::Message(p) => match t.pick(*p, None) {
            None => Ok(()),
            Some(i) => t.judge(i, "asking for the message"),
        },
        Op::Copy(p) => match t.pick(*p, None) {
            None => Ok(()),
            Some(i) => {
                let h = qm_clone(t.live[i].0);
                let x = t.live[i].1.copy();
                obs.tag(if x.failed() { "copy of reports or an error" } else { "copied" });
                t.add(h, x, "copying")
            }
        },
        Op::Free(p) => {
            if let Some(i) = t.pick(*p, None) {
                let (h, _) = t.live.remove(i);
                qm_free_handle(h);
                obs.tag("freed");
            }
            Ok(())
        }
        Op::Compare { a, b, tol } => {
            let (i, j) = match (t.pick(*a, Some(Kind::Reports)), t.pick(*b, Some(Kind::Reports))) {
                (Some(i), Some(j)) if i != j => (i, j),
                _ => return Ok(()),
            };
            let tols: Vec<f64> = (0..3).map(|k| [0.0, 1e-6, 1.0, 1e6][(*tol as usize >> (2 * k)) % 4]).collect();
            let expected = match t.blame(&[(i, Kind::Reports), (j, Kind::Reports)]) {
                Some(m) => Object::Failed(m),
                None => match (&t.live[i].1, &t.live[j].1) {
                    (Object::Reports(x), Object::Reports(y)) => match no_panic(|| assert_approx_eq_reports(x, y, tols[0], tols[1], tols[2])) {
                        Ok(Ok(())) => Object::Nothing,
                        _ => Object::Failed(Vec::new()),
                    },
                    _ => Object::Failed(Vec::new()),
                },
            };
            obs.tag(if expected.failed() { "compared unequal or refused" } else { "compared equal" });
            let h = qm_assert_approx_eq_reports(t.live[i].0, t.live[j].0, tols[0], tols[1], tols[2]);
            // both are freed by the call
            t.live.remove(i.max(j));
            t.live.remove(i.min(j));
            t.add(h, expected, "comparing")
        }
    }
}

fn history(c: &Case, obs: &mut Obs) -> R {
    let mut t = Table { live: Vec::new() };
    for op in &c.ops {
        step(&mut t, c, op, obs)?;
        // the others are as they were
        for i in 0..t.live.len() {
            let (h, x) = (t.live[i].0, &t.live[i].1);
            ensure!(qm_is_error(h) == x.failed(), "other-handle", "after {:?} another handle {} an error", op, if x.failed() { "is no longer" } else { "has become" });
        }
    }
    for i in 0..t.live.len() {
        t.judge(i, "at the end")?;
    }
    // and every object still does what it did
    let of = |t: &Table, k: Kind| (0..t.live.len()).filter(|i| t.live[*i].1.is(k)).collect::<Vec<_>>();
    let (fs, is, xs, ms, gs) = (of(&t, Kind::Factory), of(&t, Kind::Instrument), of(&t, Kind::Fixings), of(&t, Kind::Market), of(&t, Kind::Generator));
    obs.count("live at the end", t.live.len() as u64);
    if let (false, false, false, false) = (fs.is_empty(), is.is_empty(), xs.is_empty(), ms.is_empty()) {
        obs.nontrivial();
        let rounds = is.len().max(xs.len()).max(ms.len()).max(gs.len());
        for r in 0..rounds {
            let g: Vec<usize> = if gs.is_empty() { Vec::new() } else { vec![gs[r % gs.len()]] };
            through_both(&mut t, fs[r % fs.len()], is[r % is.len()], xs[r % xs.len()], ms[r % ms.len()], &g, obs, "calculating at the end")?;
        }
    }
    Ok(())
}

fn pick() -> BoxedStrategy<Pick> {
    (prop::bool::weighted(0.06), any::<usize>()).prop_map(|(any, i)| Pick { any, i }).boxed()
}

fn text() -> BoxedStrategy<Text> {
    prop_oneof![
        12 => Just(Text::Valid),
        1 => vec(edit(), 1..3).prop_map(Text::Edited),
        1 => vec(cuts(), 1..3).prop_map(Text::Cut),
        1 => prop::sample::select(KINDS.to_vec()).prop_map(Text::Other),
        1 => Just(Text::Missing),
    ]
    .boxed()
}

fn shape() -> BoxedStrategy<Shape> {
    prop::sample::select(vec![Shape::Full, Shape::Currencies, Shape::Components, Shape::Once]).boxed()
}

fn generators() -> BoxedStrategy<Vec<Pick>> {
    prop_oneof![12 => vec(pick(), 0..3), 1 => vec(pick(), 3..20)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (any::<bool>(), prop::sample::select(KINDS.to_vec()), text(), prop::bool::weighted(0.3)).prop_map(|(second, kind, text, file)| Op::Load { second, kind, text, file }),
        3 => (any::<bool>(), text(), prop::bool::weighted(0.3), prop_oneof![2 => Just((1u8, 1u8)), 3 => (0u8..3, 0u8..3)], shape(), vec(pick(), 0..3), vec(pick(), 0..3))
            .prop_map(|(second, text, file, pols, shape, ccys, instrs)| Op::Assemble { second, text, file, pols, shape, ccys, instrs }),
        5 => (pick(), pick(), pick(), pick(), generators()).prop_map(|(factory, instr, fixings, market, gens)| Op::Calculate { factory, instr, fixings, market, gens }),
        2 => (pick(), pick(), pick(), pick(), generators(), prop::option::weighted(0.7, vec((any::<usize>(), prop_oneof![Just(1.0 + 1e-7), Just(1.01), Just(2.0), Just(0.0)]), 0..3)), any::<u8>())
            .prop_map(|(factory, instr, fixings, market, gens, reload, tol)| Op::Repeat { factory, instr, fixings, market, gens, reload, tol }),
        1 => pick().prop_map(Op::Write),
        1 => pick().prop_map(Op::Message),
        3 => pick().prop_map(Op::Copy),
        4 => pick().prop_map(Op::Free),
        3 => (pick(), pick(), any::<u8>()).prop_map(|(a, b, tol)| Op::Compare { a, b, tol }),
    ]
    .boxed()
}

/// Two sets of inputs are loaded, in any order, and used
fn case() -> BoxedStrategy<Case> {
    let first: Vec<(bool, Kind)> = KINDS[..6].iter().flat_map(|k| vec![(false, *k), (true, *k)]).collect();
    (valid(), valid(), Just(first).prop_shuffle(), prop::bool::weighted(0.9), vec(op(), 0..20))
        .prop_map(|(mut a, mut b, first, start, more)| {
            // simulations are random
            a.mc = false;
            b.mc = false;
            let mut ops: Vec<Op> = if start { first.into_iter().map(|(second, kind)| Op::Load { second, kind, text: Text::Valid, file: false }).collect() } else { Vec::new() };
            ops.extend(more);
            Case { a, b, ops }
        })
        .boxed()
}

fn main() {
    Check::new("C10")
        .silent()
        .assume("handles are live and freed once, and texts contain no zero bytes, as the interface requires; pricers without random numbers")
        .sub_isolated("history", 25000, 510000, "at the end there is something of every kind to calculate with", case, history)
        .main()
}
