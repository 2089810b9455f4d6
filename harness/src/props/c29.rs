//! New objects.

use super::common::*;
use crate::ensure;
use chrono::{DateTime, Utc};
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Make {
    Database(MCreds),
    Entry,
    Group(String),
    DefaultEntry,
    DefaultGroup,
    KeyFile(u8),
    /// the clock is set to this many seconds and nanoseconds, and goes so far with each reading
    Clock(i64, u32, i64),
    /// things that happen in between
    Open(Box<MDb>),
    Edit(String),
}

fn make() -> BoxedStrategy<Make> {
    use Make::*;
    prop_oneof![
        3 => gen::creds().prop_map(Database),
        3 => Just(Entry),
        3 => gen::any_text().prop_map(Group),
        1 => Just(DefaultEntry),
        1 => Just(DefaultGroup),
        2 => (0u8..4).prop_map(KeyFile),
        4 => (prop_oneof![3 => 0i64..4_000_000_000, 1 => 0i64..200_000_000_000], 0u32..1_000_000_000, prop_oneof![Just(0i64), 0i64..1_000_000, 0i64..100_000_000_000]).prop_map(|(a, b, c)| Clock(a, b, c)),
        1 => gen::small_db().prop_map(|m| Open(Box::new(m))),
        1 => gen::text().prop_map(Edit),
    ]
    .boxed()
}

/// Everything but the times and the identifier is as documented.
fn entry(e: &kpdb::Entry, now: &mut dyn FnMut(DateTime<Utc>, &str) -> Check) -> Check {
    let mut m = conv::from_entry(e)?;
    for (t, n) in [(e.creation_time, "creation"), (e.expiry_time, "expiry"), (e.last_accessed, "access"), (e.last_modified, "modification"), (e.location_changed, "location")] {
        now(t, n)?;
    }
    let id = m.uuid;
    m.times = MTimes { expires: m.times.expires, usage: m.times.usage, ..MTimes::default() };
    let exp = MEntry::blank(id);
    ensure!(m == exp, "a new entry is {:?}", m);
    ensure!(e.parent == kpdb::GroupUuid::nil(), "a new entry has a parent");
    Ok(())
}

fn group(g: &kpdb::Group, name: &str, now: &mut dyn FnMut(DateTime<Utc>, &str) -> Check) -> Check {
    let mut m = conv::from_group(g)?;
    for (t, n) in [(g.creation_time, "creation"), (g.expiry_time, "expiry"), (g.last_accessed, "access"), (g.last_modified, "modification"), (g.location_changed, "location")] {
        now(t, n)?;
    }
    m.times = MTimes { expires: m.times.expires, usage: m.times.usage, ..MTimes::default() };
    let exp = MGroup::blank(m.uuid, name);
    ensure!(m == exp, "a new group is {:?}", m);
    ensure!(g.parent == kpdb::GroupUuid::nil(), "a new group has a parent");
    Ok(())
}

fn check(ms: &Vec<Make>, o: &mut Obs) -> Check {
    let mut ids: std::collections::HashSet<Id> = Default::default();
    let mut new_id = |i: Id, what: &str| {
        ensure!(i != Id::default(), "{} has the nil identifier", what);
        ensure!(ids.insert(i), "{} has the identifier of another object", what);
        // a random (version 4) identifier
        ensure!(i.0[6] >> 4 == 4 && i.0[8] >> 6 == 2, "{} has the identifier {:?}, which is not a random one", what, i);
        Ok(())
    };
    let mut scratch = kpdb::Database::new(&kpdb::CompositeKey::from_password("scratch"));
    o.evals = ms.len() as u64;
    o.nontrivial = ms.len() >= 2;
    for (n, m) in ms.iter().enumerate() {
        let before = Utc::now();
        let mut now = |t: DateTime<Utc>, what: &str| {
            let after = Utc::now();
            // whole seconds will do
            ensure!(t + chrono::Duration::seconds(1) > before && t <= after, "the {} time of object {} is {}, made between {} and {}", what, n, t, before, after);
            Ok(())
        };
        match m {
            Make::Clock(s, ns, step) => {
                o.class("clock set");
                crate::rng::set_clock(Some((*s as i128 * 1_000_000_000 + *ns as i128, *step as i128)));
            }
            Make::Database(c) => {
                o.class("database");
                let d = kpdb::Database::new(&conv::key(c));
                let k = &d.root_group;
                group(k, "Root", &mut now)?;
                new_id(conv::id(&k.uuid.0), "the root group of a new database")?;
                let x = conv::from_db(&d)?;
                for (t, n) in [
                    (d.def_username_changed, "user name"), (d.description_changed, "description"), (d.entry_templates_group_changed, "templates"), (d.master_key_changed, "key"), (d.name_changed, "name"),
                    (d.recycle_bin_changed, "recycle bin"),
                ] {
                    now(t, n)?;
                }
                let mut got = x.clone();
                let me = &mut got.meta;
                for t in [&mut me.def_username_changed, &mut me.description_changed, &mut me.templates_changed, &mut me.key_changed, &mut me.name_changed, &mut me.bin_changed] {
                    *t = T0;
                }
                let mut exp = MDb { rounds: 10_000, root: x.root.clone(), ..MDb::blank() };
                exp.meta.generator = "rust-kpdb".into();
                same("a new database", &exp, &got)?;
                ensure!(d.composite_key.unsecure() == c.composite(), "a new database has another key");
                // and it can be saved and opened (with fewer rounds, for time)
                let mut d = d;
                d.transform_rounds = kpdb::TransformRounds(1);
                let b = save(&d)?;
                let r = open_model(&b, c)?;
                let mut x = MDb { rounds: 1, ..x };
                // the format holds whole seconds
                for t in [
                    &mut x.meta.def_username_changed, &mut x.meta.description_changed, &mut x.meta.templates_changed, &mut x.meta.key_changed, &mut x.meta.name_changed, &mut x.meta.bin_changed,
                    &mut x.root.times.creation, &mut x.root.times.expiry, &mut x.root.times.access, &mut x.root.times.modified, &mut x.root.times.location,
                ] {
                    if r.root.times.creation.ns == 0 {
                        t.ns = 0
                    }
                }
                same("a new database, reopened", &x, &r)?;
            }
            Make::Entry => {
                o.class("entry");
                let e = kpdb::Entry::new();
                entry(&e, &mut now)?;
                new_id(conv::id(&e.uuid.0), "a new entry")?;
                for (x, n) in [(e.title(), "title"), (e.username(), "user name"), (e.password(), "password"), (e.url(), "URL"), (e.notes(), "notes")] {
                    ensure!(x.is_none(), "a new entry has the {} {:?}", n, x);
                }
            }
            Make::Group(s) => {
                o.class("group");
                let g = kpdb::Group::new(s.as_str());
                group(&g, s, &mut now)?;
                new_id(conv::id(&g.uuid.0), "a new group")?;
            }
            Make::DefaultEntry => {
                o.class("default entry");
                let e = kpdb::Entry::default();
                entry(&e, &mut now)?;
                ensure!(e.uuid == kpdb::EntryUuid::nil(), "a default entry has the identifier {:?}", e.uuid);
            }
            Make::DefaultGroup => {
                o.class("default group");
                let g = kpdb::Group::default();
                group(&g, "", &mut now)?;
                ensure!(g.uuid == kpdb::GroupUuid::nil(), "a default group has the identifier {:?}", g.uuid);
            }
            Make::KeyFile(k) => {
                o.class("key file");
                let (r, ty) = match k % 4 {
                    0 => (kpdb::KeyFile::new(), kpdb::KeyFileType::Xml),
                    1 => (kpdb::KeyFile::new_xml(), kpdb::KeyFileType::Xml),
                    2 => (kpdb::KeyFile::new_hex(), kpdb::KeyFileType::Hex),
                    _ => (kpdb::KeyFile::new_binary(), kpdb::KeyFileType::Binary),
                };
                let f = r.map_err(|e| format!("no key file: {:?}", e))?;
                ensure!(f.file_type == ty, "a new {:?} key file has the type {:?}", ty, f.file_type);
                ensure!(f.key.unsecure().len() == 32, "a new key has {} bytes", f.key.unsecure().len());
                let mut b = Vec::new();
                f.save(&mut b).map_err(|e| format!("save: {:?}", e))?;
                let g = kpdb::KeyFile::open(&mut &b[..]).map_err(|e| format!("a new {:?} key file does not open: {:?}", ty, e))?;
                ensure!(g.key.unsecure() == f.key.unsecure() && g.file_type == ty, "a new {:?} key file reads back differently", ty);
            }
            Make::Open(m) => {
                let c = MCreds::pw("p");
                scratch = open_ok(&encode(m, &crate::xmlmap::Layout::default(), &c, 41), &c)?;
            }
            Make::Edit(s) => {
                for g in scratch.root_group.iter_mut() {
                    g.name.push_str(s);
                    g.icon = kpdb::Icon::World;
                    for e in &mut g.entries {
                        e.set_title(s.as_str());
                        e.expires = true;
                    }
                }
                scratch.name.push_str(s);
                scratch.recycle_bin_enabled = false;
            }
        }
    }
    Ok(())
}

fn strat() -> BoxedStrategy<Vec<Make>> {
    vec(make(), 1..12).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "at least two things are made or done one after the other",
        assumptions: &["the system clock is replaced by one that the case sets; it jumps between objects but not back while one is made", "a new database is reopened after its rounds were set to one"],
        lanes: vec![lane("new-objects", 3000, 100_000, strat, check)],
    }
}
