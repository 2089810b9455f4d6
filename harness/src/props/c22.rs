//! Sessions: edits, saves and reopens against a model.

use super::c15::{g_at, m_at};
use super::common::*;
use crate::ensure;
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Op {
    // tree: positions are scaled numbers in level order
    AddEntry(u32, MEntry),
    AddGroup(u32, MGroup),
    RemoveEntry(u32, u32),
    RemoveGroup(u32, u32),
    MoveEntry(u32, u32, u32),
    MoveGroup(u32, u32, u32),
    /// clear the whole tree below a group
    Clear(u32),
    // entries: group, entry, change
    Entry(u32, u32, Change),
    /// find the entry by its identifier first
    EntryById(u32, u32, Change),
    /// every entry the search finds
    Found(String, Change),
    Group(u32, GChange),
    GroupById(u32, GChange),
    // settings
    Meta(Box<MMeta>),
    Name(String),
    Comment(Option<Bytes>),
    Gzip(bool),
    Rounds(u64),
    Data(String, Option<String>),
    Icon(Id, Option<Bytes>),
    Pool(String, Option<Bytes>),
    Creds(MCreds),
    // files
    Save,
    Reopen,
    SaveReopen,
    /// go back to an earlier file
    Back(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Change {
    Title(String),
    Username(String),
    Password(String),
    Url(String),
    Notes(String),
    Other(String, String),
    Put(String, MStr),
    Drop(u32),
    Attach(String, MBin),
    Detach(u32),
    /// keep the present state as a history item
    Remember,
    Forget(u32),
    Tags(String),
    Look(i32, Option<Id>, Option<Rgb>),
    Assoc(String, String),
    NoAssoc,
    Times(MTimes),
    Uuid(Id),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum GChange {
    Name(String),
    Notes(String),
    Look(i32, Option<Id>),
    Flags(Option<bool>, Option<bool>, bool),
    Times(MTimes),
    Top(Id, String),
    Reverse,
}

fn change() -> BoxedStrategy<Change> {
    use Change::*;
    let t = gen::text;
    prop_oneof![
        2 => t().prop_map(Title), 1 => t().prop_map(Username), 2 => gen::any_text().prop_map(Password), 1 => t().prop_map(Url), 1 => t().prop_map(Notes),
        2 => (gen::string_name(), t()).prop_map(|(a, b)| Other(a, b)),
        2 => (gen::string_name(), gen::mstr()).prop_map(|(a, b)| Put(a, b)),
        2 => any::<u32>().prop_map(Drop),
        2 => (t(), gen::mbin()).prop_map(|(a, b)| Attach(a, b)),
        1 => any::<u32>().prop_map(Detach),
        3 => Just(Remember),
        1 => any::<u32>().prop_map(Forget),
        1 => t().prop_map(Tags),
        1 => (0i32..=68, proptest::option::of(gen::id()), gen::rgb()).prop_map(|(a, b, c)| Look(a, b, c)),
        1 => (t(), t()).prop_map(|(a, b)| Assoc(a, b)),
        1 => Just(NoAssoc),
        1 => gen::times(gen::time()).prop_map(Times),
        1 => gen::id().prop_map(Uuid),
    ]
    .boxed()
}

fn gchange() -> BoxedStrategy<GChange> {
    use GChange::*;
    prop_oneof![
        2 => gen::text().prop_map(Name),
        1 => gen::text().prop_map(Notes),
        1 => (0i32..=68, proptest::option::of(gen::id())).prop_map(|(a, b)| Look(a, b)),
        1 => (any::<Option<bool>>(), any::<Option<bool>>(), any::<bool>()).prop_map(|(a, b, c)| Flags(a, b, c)),
        1 => gen::times(gen::time()).prop_map(Times),
        1 => (gen::id(), gen::text()).prop_map(|(a, b)| Top(a, b)),
        1 => Just(Reverse),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    use Op::*;
    let p = any::<u32>;
    let key = || prop_oneof![3 => (0u8..4).prop_map(|i| i.to_string()), 1 => gen::text()];
    prop_oneof![
        4 => (p(), gen::entry()).prop_map(|(a, e)| AddEntry(a, e)),
        3 => (p(), gen::text(), gen::id(), vec(gen::entry_small(), 0..2)).prop_map(|(a, n, i, es)| {
            let mut g = MGroup::blank(i, &n);
            g.entries = es;
            AddGroup(a, g)
        }),
        2 => (p(), p()).prop_map(|(a, b)| RemoveEntry(a, b)),
        1 => (p(), p()).prop_map(|(a, b)| RemoveGroup(a, b)),
        2 => (p(), p(), p()).prop_map(|(a, b, c)| MoveEntry(a, b, c)),
        2 => (p(), p(), p()).prop_map(|(a, b, c)| MoveGroup(a, b, c)),
        1 => p().prop_map(Clear),
        5 => (p(), p(), change()).prop_map(|(a, b, c)| Entry(a, b, c)),
        3 => (p(), p(), change()).prop_map(|(a, b, c)| EntryById(a, b, c)),
        1 => (proptest::sample::select(vec!["a", "root", "mail", "", "s", "http"]), change()).prop_map(|(a, c)| Found(a.into(), c)),
        2 => (p(), gchange()).prop_map(|(a, c)| Group(a, c)),
        1 => (p(), gchange()).prop_map(|(a, c)| GroupById(a, c)),
        1 => gen::meta_t(gen::time()).prop_map(|m| Meta(Box::new(m))),
        1 => gen::text().prop_map(Name),
        1 => gen::comment().prop_map(Comment),
        1 => any::<bool>().prop_map(Gzip),
        1 => (0u64..5).prop_map(Rounds),
        1 => (key(), proptest::option::of(gen::text())).prop_map(|(a, b)| Data(a, b)),
        1 => (gen::id(), proptest::option::of(gen::bytes())).prop_map(|(a, b)| Icon(a, b)),
        2 => (key(), proptest::option::of(gen::bytes())).prop_map(|(a, b)| Pool(a, b)),
        2 => gen::creds().prop_map(Creds),
        3 => Just(Save),
        2 => Just(Reopen),
        4 => Just(SaveReopen),
        1 => p().prop_map(Back),
    ]
    .boxed()
}

fn nth_key<V>(m: &std::collections::BTreeMap<String, V>, k: u32) -> Option<String> {
    if m.is_empty() { None } else { m.keys().nth(at(k, m.len())).cloned() }
}

impl Change {
    fn apply(&self, m: &mut MEntry, e: &mut kpdb::Entry) {
        match self {
            Change::Title(s) => { m.set("Title", s, false); e.set_title(s.as_str()) }
            Change::Username(s) => { m.set("UserName", s, false); e.set_username(s.as_str()) }
            Change::Password(s) => { m.set("Password", s, true); e.set_password(s.as_str()) }
            Change::Url(s) => { m.set("URL", s, false); e.set_url(s.as_str()) }
            Change::Notes(s) => { m.set("Notes", s, false); e.set_notes(s.as_str()) }
            Change::Other(k, s) => { m.set(k, s, false); e.set_other(conv::string_key(k), s.as_str()) }
            Change::Put(k, v) => {
                m.strings.insert(k.clone(), v.clone());
                e.strings.insert(conv::string_key(k), conv::string_value(v));
            }
            Change::Drop(k) => {
                if let Some(k) = nth_key(&m.strings, *k) {
                    m.strings.remove(&k);
                    e.strings.remove(&conv::string_key(&k));
                }
            }
            Change::Attach(k, v) => {
                m.binaries.insert(k.clone(), v.clone());
                e.binaries.insert(kpdb::BinaryKey(k.clone()), conv::bin_value(v));
            }
            Change::Detach(k) => {
                if let Some(k) = nth_key(&m.binaries, *k) {
                    m.binaries.remove(&k);
                    e.binaries.remove(&kpdb::BinaryKey(k));
                }
            }
            Change::Remember => {
                let old = MEntry { history: Vec::new(), ..m.clone() };
                m.history.push(old);
                let mut h = e.clone();
                h.history.clear();
                e.history.push(h);
            }
            Change::Forget(k) => {
                if !m.history.is_empty() {
                    let i = at(*k, m.history.len());
                    m.history.remove(i);
                    e.history.remove(i);
                }
            }
            Change::Tags(s) => { m.tags = s.clone(); e.tags = s.clone() }
            Change::Look(i, c, k) => {
                (m.icon, m.custom_icon, m.bg) = (*i, *c, *k);
                e.icon = conv::icon(*i);
                e.custom_icon_uuid = c.map(|i| kpdb::CustomIconUuid(conv::uuid(i)));
                e.background_color = k.map(conv::color);
            }
            Change::Assoc(a, b) => {
                m.assoc.push((a.clone(), b.clone()));
                e.associations.push(kpdb::Association { keystroke_sequence: a.clone(), window: b.clone() });
            }
            Change::NoAssoc => { m.assoc.clear(); e.associations.clear() }
            Change::Times(t) => {
                use kpdb::Times;
                m.times = t.clone();
                e.set_creation_time(conv::time(t.creation));
                e.set_expiry_time(conv::time(t.expiry));
                e.set_expires(t.expires);
                e.set_last_accessed(conv::time(t.access));
                e.set_last_modified(conv::time(t.modified));
                e.set_location_changed(conv::time(t.location));
                e.set_usage_count(t.usage);
            }
            Change::Uuid(i) => { m.uuid = *i; e.uuid = conv::eid(*i) }
        }
    }
}

impl GChange {
    fn apply(&self, m: &mut MGroup, g: &mut kpdb::Group) {
        match self {
            GChange::Name(s) => { m.name = s.clone(); g.name = s.clone() }
            GChange::Notes(s) => { m.notes = s.clone(); g.notes = s.clone() }
            GChange::Look(i, c) => {
                (m.icon, m.custom_icon) = (*i, *c);
                g.icon = conv::icon(*i);
                g.custom_icon_uuid = c.map(|i| kpdb::CustomIconUuid(conv::uuid(i)));
            }
            GChange::Flags(a, b, c) => {
                (m.enable_at, m.enable_search, m.expanded) = (*a, *b, *c);
                (g.enable_auto_type, g.enable_searching, g.is_expanded) = (*a, *b, *c);
            }
            GChange::Times(t) => {
                use kpdb::Times;
                m.times = t.clone();
                g.set_creation_time(conv::time(t.creation));
                g.set_expiry_time(conv::time(t.expiry));
                g.set_expires(t.expires);
                g.set_last_accessed(conv::time(t.access));
                g.set_last_modified(conv::time(t.modified));
                g.set_location_changed(conv::time(t.location));
                g.set_usage_count(t.usage);
            }
            GChange::Top(i, s) => {
                (m.last_top, m.def_seq) = (*i, s.clone());
                g.last_top_visible_entry = conv::eid(*i);
                g.def_auto_type_sequence = s.clone();
            }
            GChange::Reverse => {
                m.groups.reverse();
                m.entries.reverse();
                g.groups.reverse();
                g.entries.reverse();
            }
        }
    }
}

pub(super) struct File {
    bytes: Vec<u8>,
    creds: MCreds,
    state: MDb,
}

pub(super) type Case = (MDb, MCreds, Vec<Op>);

pub(super) fn check((m0, c0, ops): &Case, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let mut c = c0.clone();
    let mut d = conv::database(&m, &c);
    let mut files: Vec<File> = Vec::new();
    let (mut saves, mut opens, mut edits) = (0, 0, 0);
    for (step, op) in ops.iter().enumerate() {
        let at_step = |e: String| format!("step {} ({}): {}", step, format!("{:?}", op).split('(').next().unwrap_or(""), e);
        let n = m.root.bfs().len();
        edits += 1;
        match op {
            Op::AddEntry(g, e) => {
                m_at(&mut m.root, at(*g, n)).entries.push(e.clone());
                g_at(&mut d.root_group, at(*g, n)).add_entry(conv::entry(e));
            }
            Op::AddGroup(g, x) => {
                m_at(&mut m.root, at(*g, n)).groups.push(x.clone());
                g_at(&mut d.root_group, at(*g, n)).add_group(conv::group(x));
            }
            Op::RemoveEntry(g, k) | Op::MoveEntry(g, k, _) => {
                let l = &mut m_at(&mut m.root, at(*g, n)).entries;
                if l.is_empty() {
                    continue;
                }
                let u = l[at(*k, l.len())].uuid;
                let i = l.iter().position(|e| e.uuid == u).unwrap();
                let x = l.remove(i);
                let e = g_at(&mut d.root_group, at(*g, n)).remove_entry(conv::eid(u)).ok_or_else(|| at_step("remove_entry found nothing".into()))?;
                if let Op::MoveEntry(_, _, to) = op {
                    m_at(&mut m.root, at(*to, n)).entries.push(x);
                    g_at(&mut d.root_group, at(*to, n)).add_entry(e);
                }
            }
            Op::RemoveGroup(g, k) | Op::MoveGroup(g, k, _) => {
                let l = &mut m_at(&mut m.root, at(*g, n)).groups;
                if l.is_empty() {
                    continue;
                }
                let u = l[at(*k, l.len())].uuid;
                let i = l.iter().position(|e| e.uuid == u).unwrap();
                let x = l.remove(i);
                let e = g_at(&mut d.root_group, at(*g, n)).remove_group(conv::gid(u)).ok_or_else(|| at_step("remove_group found nothing".into()))?;
                if let Op::MoveGroup(_, _, to) = op {
                    let n = m.root.bfs().len();
                    m_at(&mut m.root, at(*to, n)).groups.push(x);
                    g_at(&mut d.root_group, at(*to, n)).add_group(e);
                }
            }
            Op::Clear(g) => {
                let x = m_at(&mut m.root, at(*g, n));
                x.entries.clear();
                x.groups.clear();
                let x = g_at(&mut d.root_group, at(*g, n));
                x.entries.clear();
                x.groups.clear();
            }
            Op::Entry(g, k, ch) => {
                let l = &mut m_at(&mut m.root, at(*g, n)).entries;
                if l.is_empty() {
                    continue;
                }
                let i = at(*k, l.len());
                ch.apply(&mut l[i], &mut g_at(&mut d.root_group, at(*g, n)).entries[i]);
            }
            Op::EntryById(g, k, ch) => {
                let l = &m_at(&mut m.root, at(*g, n)).entries;
                if l.is_empty() {
                    continue;
                }
                let u = l[at(*k, l.len())].uuid;
                let gi = m.root.bfs().iter().position(|g| g.entries.iter().any(|e| e.uuid == u)).unwrap();
                let x = m_at(&mut m.root, gi).entries.iter_mut().find(|e| e.uuid == u).unwrap();
                let e = d.get_entry_mut(conv::eid(u)).ok_or_else(|| at_step("get_entry_mut found nothing".into()))?;
                ch.apply(x, e);
            }
            Op::Found(t, ch) => {
                let hit = |e: &MEntry| e.strings.values().any(|v| !v.p && v.v.to_lowercase().contains(t.as_str()));
                let mut real = d.find_entries_mut(t.as_str()).into_iter();
                for gi in 0..n {
                    for x in m_at(&mut m.root, gi).entries.iter_mut().filter(|e| hit(e)) {
                        let e = real.next().ok_or_else(|| at_step(format!("the search for {:?} finds too little", t)))?;
                        ch.apply(x, e);
                    }
                }
                ensure!(real.next().is_none(), "step {}: the search for {:?} finds too much", step, t);
            }
            Op::Group(g, ch) => ch.apply(m_at(&mut m.root, at(*g, n)), g_at(&mut d.root_group, at(*g, n))),
            Op::GroupById(g, ch) => {
                let u = m_at(&mut m.root, at(*g, n)).uuid;
                let gi = m.root.bfs().iter().position(|g| g.uuid == u).unwrap();
                let x = d.get_group_mut(conv::gid(u)).ok_or_else(|| at_step("get_group_mut found nothing".into()))?;
                ch.apply(m_at(&mut m.root, gi), x);
            }
            Op::Meta(x) => {
                m.meta = (**x).clone();
                conv::set_meta(&mut d, x);
            }
            Op::Name(s) => {
                m.meta.name = s.clone();
                d.name = s.clone();
            }
            Op::Comment(x) => {
                m.comment = x.clone();
                d.comment = x.as_ref().map(|b| kpdb::Comment(b.0.clone()));
            }
            Op::Gzip(b) => {
                m.gzip = *b;
                d.compression = if *b { kpdb::Compression::GZip } else { kpdb::Compression::None };
            }
            Op::Rounds(r) => {
                m.rounds = *r;
                d.transform_rounds = kpdb::TransformRounds(*r);
            }
            Op::Data(k, v) => match v {
                Some(v) => {
                    m.meta.custom_data.insert(k.clone(), v.clone());
                    d.custom_data.insert(k.clone(), v.clone());
                }
                None => {
                    m.meta.custom_data.remove(k);
                    d.custom_data.remove(k);
                }
            },
            Op::Icon(i, v) => {
                let k = kpdb::CustomIconUuid(conv::uuid(*i));
                match v {
                    Some(v) => {
                        m.meta.custom_icons.insert(*i, v.clone());
                        d.custom_icons.insert(k, v.0.clone());
                    }
                    None => {
                        m.meta.custom_icons.remove(i);
                        d.custom_icons.remove(&k);
                    }
                }
            }
            Op::Pool(i, v) => {
                let k = kpdb::BinaryId(i.clone());
                match v {
                    Some(v) => {
                        m.meta.binaries.insert(i.clone(), v.clone());
                        d.binaries.insert(k, v.0.clone());
                    }
                    None => {
                        m.meta.binaries.remove(i);
                        d.binaries.remove(&k);
                    }
                }
            }
            Op::Creds(x) => {
                c = x.clone();
                d.composite_key = conv::key(x);
            }
            Op::Save | Op::SaveReopen | Op::Reopen | Op::Back(_) => edits -= 1,
        }
        if matches!(op, Op::Save | Op::SaveReopen) {
            let b = save(&d).map_err(at_step)?;
            saves += 1;
            // nothing changes by saving
            same(&at_step("saved database".into()), &m, &conv::from_db(&d)?)?;
            // credentials of before
            if let Some(f) = files.last() {
                if f.creds.composite() != c.composite() {
                    o.class("credentials changed");
                    ensure!(open(&b, &f.creds)?.is_err(), "step {}: the credentials of the previous save open the file", step);
                    ensure!(open(&f.bytes, &c)?.is_err(), "step {}: the new credentials open the previous file", step);
                }
            }
            files.push(File { bytes: b, creds: c.clone(), state: m.as_saved() });
        }
        let back = match op {
            Op::Reopen | Op::SaveReopen => files.last(),
            Op::Back(k) if !files.is_empty() => files.get(at(*k, files.len())),
            _ => None,
        };
        if let Some(f) = back {
            d = open_ok(&f.bytes, &f.creds).map_err(at_step)?;
            m = f.state.clone();
            c = f.creds.clone();
            opens += 1;
            conv::check_parents(&d).map_err(at_step)?;
        }
        same(&at_step("state".into()), &m, &conv::from_db(&d)?)?;
    }
    // one more save, as is, and once more after reopening
    let b = save(&d)?;
    let d2 = open_ok(&b, &c)?;
    same("final save", &m.as_saved(), &conv::from_db(&d2)?)?;
    let d3 = open_ok(&save(&d2)?, &c)?;
    same("saved again unchanged", &m.as_saved(), &conv::from_db(&d3)?)?;
    for f in files.iter().rev().take(3) {
        same("an older file", &f.state, &open_model(&f.bytes, &f.creds)?)?;
    }
    o.class_if(saves > 2, "more than two saves");
    o.class_if(opens > 2, "more than two reopens");
    o.class_if(edits > 10, "more than ten edits");
    o.nontrivial = edits >= 2 && saves >= 1 && opens >= 1;
    o.evals = (2 * saves + opens + 4) as u64;
    Ok(())
}

pub(super) fn strat() -> BoxedStrategy<Case> {
    let start = prop_oneof![2 => Just(MDb::blank()), 2 => gen::small_db(), 1 => gen::db()];
    (start, gen::creds(), prop_oneof![3 => vec(op(), 2..16), 1 => vec(op(), 16..50)]).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "at least two edits, a save and a reopen",
        assumptions: &["no save fails (texts are representable; C23 and C10 treat failing saves)"],
        lanes: vec![lane("sessions", 4000, 80_000, strat, check)],
    }
}
