//! C14: fixing tables answer exactly what was recorded.
use proptest::collection::vec;
use proptest::prelude::*;
use quantmath::data::fixings::*;
use quantmath::dates::datetime::DateTime;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vh::*;

type Key = (i32, Tod);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    until: i32,
    /// instrument and its records, in the order supplied; may repeat an instrument
    curves: Vec<(u8, Vec<(Key, f64)>)>,
    queries: Vec<(u8, Key)>,
    shuffle: u64,
}

const IDS: [&str; 5] = ["BP.L", "BP", "", "VOD.L", "bp.l"];

fn dt(k: Key) -> DateTime {
    DateTime::new(d(k.0), k.1.build())
}

fn judge(what: &str, c: &Case, t: &FixingTable, model: &BTreeMap<u8, BTreeMap<Key, f64>>, obs: &mut Obs) -> R {
    ensure!(t.fixings_known_until() == d(c.until), "until", "{}: known until {} not {}", what, t.fixings_known_until(), d(c.until));
    let mut asked: Vec<(u8, Key)> = c.queries.clone();
    for (id, m) in model {
        for k in m.keys() {
            asked.push((*id, *k));
            for other in [Tod::Open, Tod::EDSP, Tod::Close] {
                asked.push((*id, (k.0, other)));
            }
        }
    }
    for (id, k) in asked {
        let name = IDS[id as usize];
        let want = model.get(&id).and_then(|m| m.get(&k)).cloned();
        let got = t.get(name, dt(k));
        ensure!(t.get_optional(name, dt(k)) == want, "optional", "{}: optional fixing of {} at {:?} is {:?}, recorded {:?}", what, name, k, t.get_optional(name, dt(k)), want);
        match (want, got) {
            (Some(w), Ok(Some(g))) if w == g => obs.tag("recorded"),
            (None, Err(_)) if k.0 < c.until => obs.tag("missing in the past"),
            (None, Ok(None)) if k.0 >= c.until => obs.tag("not yet known"),
            (w, g) => bail!("fixing", "{}: fixing of {} at {:?} is {:?}, recorded {:?}, known until {}", what, name, k, g.map_err(|e| e.to_string()), w, c.until),
        }
        let curve = t.get_fixings(name).map(|f| f.get_optional(dt(k)));
        ensure!(curve == if model.contains_key(&id) { Some(want) } else { None }, "curve", "{}: the curve of {} gives {:?} at {:?}", what, name, curve, k);
    }
    Ok(())
}

fn table(c: &Case, obs: &mut Obs) -> R {
    // What should be accepted, record by record
    let mut model: BTreeMap<u8, BTreeMap<Key, f64>> = BTreeMap::new();
    let mut t = FixingTable::new(d(c.until));
    let mut clean = true;
    for (id, records) in &c.curves {
        let r: Vec<(DateTime, f64)> = records.iter().map(|(k, v)| (dt(*k), *v)).collect();
        let mut m = BTreeMap::new();
        let repeated = records.iter().any(|(k, v)| m.insert(*k, *v).is_some());
        let made = Fixings::new(IDS[*id as usize], &r);
        // the same records as text
        let text = serde_json::to_string(&serde_json::json!({ "fixing_by_date": r })).unwrap();
        let read: Result<Fixings, _> = serde_json::from_str(&text);
        ensure!(read.is_ok() == !repeated, "text", "reading {} gives {:?}", text, read.map_err(|e| e.to_string()));
        if repeated {
            obs.tag("repeated time rejected");
            ensure!(made.is_err(), "repeat", "two records for one time were accepted: {:?}", records);
            clean = false;
            continue;
        }
        let again = model.contains_key(id);
        let done = t.insert(IDS[*id as usize], made?);
        if again {
            obs.tag("repeated instrument rejected");
            ensure!(done.is_err(), "repeat", "a second curve for {} was accepted", IDS[*id as usize]);
            clean = false;
            // rejected, so nothing changes
        } else {
            done?;
            model.insert(*id, m);
        }
    }
    obs.nontrivial_if(model.values().map(|m| m.len()).sum::<usize>() >= 2 && model.values().any(|m| m.keys().any(|k| k.0 < c.until)));
    judge("inserted one by one", c, &t, &model, obs)?;

    // all at once, in either way and another order
    let mut list: Vec<(&str, Vec<(DateTime, f64)>)> = c.curves.iter().map(|(id, r)| (IDS[*id as usize], r.iter().map(|(k, v)| (dt(*k), *v)).collect())).collect();
    let mut seed = c.shuffle;
    for i in (1..list.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        list.swap(i, (seed >> 33) as usize % (i + 1));
    }
    for (_, r) in list.iter_mut() {
        if seed & 1 == 1 {
            r.reverse();
        }
    }
    let borrowed: Vec<(&str, &[(DateTime, f64)])> = list.iter().map(|(i, r)| (*i, r.as_slice())).collect();
    let a = FixingTable::from_fixings(d(c.until), &borrowed);
    let b = FixingTable::from_iter_known_until(d(c.until), list.clone());
    ensure!(a.is_ok() == clean && b.is_ok() == clean, "accepted", "tables of {:?}: {:?} and {:?}", c.curves, a.is_ok(), b.is_ok());
    if clean {
        obs.tag("built at once");
        let a = a?;
        judge("built from slices", c, &a, &model, obs)?;
        judge("built from an iterator", c, &b?, &model, obs)?;
        let text = serde_json::to_string(&a)?;
        let read: FixingTable = serde_json::from_str(&text)?;
        judge("read back", c, &read, &model, obs)?;
    }
    Ok(())
}

fn main() {
    let key = |n: i32| (prop_oneof![3 => n - 6..n + 6, 1 => n - 400..n + 400], tod());
    Check::new("C14")
        .assume("up to six curves over five instruments, each of up to seven records around the date to which fixings are known")
        .sub("table", 1300000, 20000000, "at least two records over the table, one of them before the date fixings are known until",
            move || (3000i32..60000).prop_flat_map(move |n| (Just(n), vec((0u8..5, vec((key(n), dec(-10.0, 500.0, 3)), 0..7)), 0..6), vec((0u8..5, key(n)), 0..6), any::<u64>()))
                .prop_map(|(until, curves, queries, shuffle)| Case { until, curves, queries, shuffle }), table)
        .main()
}
