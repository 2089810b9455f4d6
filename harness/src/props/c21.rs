//! Omitted elements.

use super::common::*;
use crate::crypto::Salsa20;
use crate::ensure;
use crate::xmlmap::{from_xml, to_xml, Layout, Roller, FALLBACK_ROOT, NOW};
use crate::xmlmini::{parse, serialize, El, Node};
use chrono::Utc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    db: MDb,
    layout: Layout,
    seed: u64,
    /// percentage of optional elements left out
    rate: u8,
    drop_seed: u64,
    /// leave out exactly this one (scaled), instead
    single: Option<u32>,
}

/// Whether leaving out the child is legal: the parts of keyed items are not optional.
fn optional(parent: &str, child: &str) -> bool {
    !matches!(
        (parent, child),
        ("String" | "Binary" | "Item", "Key" | "Value") | ("Icon", "UUID" | "Data") | ("Association", _)
    )
}

fn prune(e: &mut El, f: &mut dyn FnMut(&str, &str) -> bool) {
    let name = e.name.clone();
    e.kids.retain_mut(|k| match k {
        Node::Text(_) => true,
        Node::El(c) => {
            if optional(&name, &c.name) && f(&name, &c.name) {
                return false;
            }
            prune(c, f);
            true
        }
    });
}

/// Replaces the times of the call by the sentinel where the expectation has it.
fn align(exp: &serde_json::Value, got: &mut serde_json::Value, lo: i64, hi: i64) {
    use serde_json::Value::*;
    match (exp, got) {
        (Object(a), Object(b)) => {
            if a.get("s").and_then(|v| v.as_i64()) == Some(NOW.s) && a.len() == 2 {
                let s = b.get("s").and_then(|v| v.as_i64()).unwrap_or(0);
                if (lo..=hi).contains(&s) {
                    b.insert("s".into(), a["s"].clone());
                    b.insert("ns".into(), a["ns"].clone());
                }
                return;
            }
            for (k, v) in a {
                if let Some(w) = b.get_mut(k) {
                    align(v, w, lo, hi);
                }
            }
        }
        (Array(a), Array(b)) => {
            for (v, w) in a.iter().zip(b) {
                align(v, w, lo, hi);
            }
        }
        _ => {}
    }
}

fn check(case: &Case, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let l = &case.layout;
    let ps = parts(&case.db, l, &c, case.seed);
    let mut tree = to_xml(&case.db, l);
    let mut n = 0u32;
    prune(&mut tree, &mut |_, _| { n += 1; false });
    let mut dropped: Vec<String> = Vec::new();
    match case.single {
        Some(k) => {
            let (k, mut i) = (at(k, n as usize), 0);
            prune(&mut tree, &mut |p, e| {
                i += 1;
                if i - 1 == k {
                    dropped.push(format!("{}/{}", p, e));
                    return true;
                }
                false
            });
        }
        None => {
            let mut r = Roller::new(case.drop_seed);
            prune(&mut tree, &mut |p, e| {
                if r.roll(case.rate) {
                    dropped.push(format!("{}/{}", p, e));
                    return true;
                }
                false
            });
        }
    }
    o.nontrivial = !dropped.is_empty();
    dropped.sort();
    dropped.dedup();
    o.class_if(dropped.len() > 5, "more than five kinds of element left out");
    for d in &dropped {
        if d.starts_with("KeePassFile") || d.starts_with("Root") {
            o.class(d);
        }
    }
    if let (Some(_), Some(d)) = (case.single, dropped.first()) {
        o.class(&format!("only {}", d));
    }
    let tree = ps.finish_xml(tree, l);
    let xml = serialize(&tree, &l.style);
    let file = ps.file_from_xml_bytes(&xml, l);

    let back = parse(&xml).map_err(|e| format!("harness: {}", e))?;
    let (meta, root, _) = from_xml(&back, &mut Salsa20::inner(&ps.salts.stream_key), false).map_err(|e| format!("harness: {}", e))?;
    let exp = MDb { meta, root, ..case.db.clone() };

    let lo = Utc::now().timestamp();
    let d = open_ok(&file, &c).map_err(|e| format!("without {}: {}", dropped.join(" "), e))?;
    let hi = Utc::now().timestamp();
    let mut got = conv::from_db(&d)?;
    if exp.root.uuid == FALLBACK_ROOT {
        ensure!(got.root.uuid != Id::default(), "the root group made up for the missing one has the nil identifier");
        got.root.uuid = FALLBACK_ROOT;
        o.class("no group tree");
    }
    let e = serde_json::to_value(&exp).unwrap();
    let mut g = serde_json::to_value(&got).unwrap();
    align(&e, &mut g, lo, hi);
    if e != g {
        return Err(format!("without {}: {}", dropped.join(" "), crate::model::diff_json("db", &e, &g).unwrap_or_default()));
    }
    conv::check_parents(&d)
}

fn strat_of(db: BoxedStrategy<MDb>, single: bool) -> BoxedStrategy<Case> {
    (db, gen::layout(), any::<u64>(), prop_oneof![1u8..20, 20u8..70, Just(100u8)], any::<u64>(), any::<u32>())
        .prop_map(move |(db, layout, seed, rate, drop_seed, one)| {
            let mut layout = Layout { omit: 0, ..layout };
            layout.style.split = 0;
            Case { db, layout, seed, rate, drop_seed, single: if single { Some(one) } else { None } }
        })
        .boxed()
}

fn some() -> BoxedStrategy<Case> {
    strat_of(gen::db(), false)
}
fn one() -> BoxedStrategy<Case> {
    strat_of(prop_oneof![gen::small_db(), gen::db()].boxed(), true)
}

/// The documented defaults of new objects are the ones an omission gives.
fn fresh(x: &u8, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class("new objects");
    let c = MCreds::pw("p");
    let lo = Utc::now().timestamp();
    let d = kpdb::Database::new(&conv::key(&c));
    let e = kpdb::Entry::new();
    let g = kpdb::Group::new("a name");
    let hi = Utc::now().timestamp();
    let mut m = conv::from_db(&d)?;
    // nothing in the file at all but the two containers, or not even these
    let doc = ["<KeePassFile><Meta/><Root/></KeePassFile>", "<KeePassFile></KeePassFile>", "<KeePassFile/>", "<KeePassFile><Root></Root><Meta></Meta></KeePassFile>"][*x as usize % 4];
    let mut blank = MDb { rounds: d.transform_rounds.0, ..MDb::blank() };
    blank.gzip = matches!(d.compression, kpdb::Compression::GZip);
    let ps = parts(&blank, &Layout::default(), &c, *x as u64);
    let lo2 = Utc::now().timestamp();
    let opened = open_ok(&ps.file_from_xml_bytes(doc.as_bytes(), &Layout::default()), &c)?;
    let hi2 = Utc::now().timestamp();
    let mut p = conv::from_db(&opened)?;
    ensure!(m.meta.generator == "rust-kpdb", "a new database has generator {:?}", m.meta.generator);
    for (db, a, b) in [(&m, lo, hi), (&p, lo2, hi2)] {
        ensure!(db.root.name == "Root" && db.root.uuid != Id::default() && db.root.icon == 48 && db.root.expanded, "root group {:?}", db.root);
        ensure!(db.comment.is_none(), "comment {:?}", db.comment);
        let t = &db.meta;
        for x in [t.def_username_changed, t.description_changed, t.templates_changed, t.key_changed, t.name_changed, t.bin_changed, db.root.times.creation, db.root.times.expiry, db.root.times.access, db.root.times.modified, db.root.times.location] {
            ensure!((a..=b).contains(&x.s), "time {} is not that of the call", x.s);
        }
    }
    ensure!(p.root.uuid != m.root.uuid, "root identifiers coincide");
    for db in [&mut m, &mut p] {
        let t = &mut db.meta;
        for x in [&mut t.def_username_changed, &mut t.description_changed, &mut t.templates_changed, &mut t.key_changed, &mut t.name_changed, &mut t.bin_changed] {
            *x = T0;
        }
        t.generator.clear();
        db.root.times = MTimes::default();
        db.root.uuid = gen::nid(1);
    }
    let mut exp = MDb::blank();
    exp.rounds = 10000;
    exp.root = MGroup::blank(gen::nid(1), "Root");
    same("new database", &exp, &m)?;
    same("file without settings", &exp, &p)?;
    let mut em = conv::from_entry(&e)?;
    ensure!(em.uuid != Id::default(), "a new entry has the nil identifier");
    em.times = MTimes::default();
    ensure!(em == MEntry::blank(em.uuid), "new entry: {:?}", em);
    let mut gm = conv::from_group(&g)?;
    ensure!(gm.uuid != Id::default(), "a new group has the nil identifier");
    gm.times = MTimes::default();
    ensure!(gm == MGroup::blank(gm.uuid, "a name"), "new group: {:?}", gm);
    o.evals = 2;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "at least one optional element was left out",
        assumptions: &[
            "both parts of keyed items and of associations are not optional",
            "the default of a time is the time of the call",
        ],
        lanes: vec![
            lane("subsets", 3000, 60_000, some, check),
            lane("single", 4000, 80_000, one, check),
            Box::new(EnumLane { name: "new-objects", cases: |_| (0..8u8).collect(), check: fresh }),
        ],
    }
}
