//! Content the format cannot hold.

use super::c15::{g_at, m_at};
use super::common::*;
use crate::ensure;
use crate::xmlmini::legal_text;
use proptest::collection::vec;
use proptest::sample::select;
use secstr::SecStr;

/// Where a text goes. The number picks the group.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Spoil {
    Name(String),
    Description(String),
    DefUser(String),
    /// never written
    Generator(String),
    DataKey(String),
    DataValue(String),
    PoolId(String),
    GroupName(u32, String),
    GroupNotes(u32, String),
    GroupSeq(u32, String),
    Tags(u32, String),
    Url(u32, String),
    Seq(u32, String),
    AssocKeys(u32, String),
    AssocWindow(u32, String),
    StringKey(u32, String),
    StringValue(u32, String),
    ProtectedKey(u32, String),
    /// any Unicode is fine here
    ProtectedText(u32, String),
    ProtectedBytes(u32, Bytes),
    BinaryKey(u32, String),
    BinaryRef(u32, String),
    HistoryValue(u32, String),
    HistoryBytes(u32, Bytes),
    CommentLen(u32),
}

fn bad_text() -> BoxedStrategy<String> {
    let illegal = prop_oneof![
        4 => select(vec!['\0', '\u{1}', '\u{2}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1b}', '\u{1f}', '\u{fffe}', '\u{ffff}']),
        1 => proptest::char::range('\0', '\u{1f}'),
    ];
    prop_oneof![
        6 => (gen::text(), illegal.clone(), gen::text()).prop_map(|(a, c, b)| format!("{}{}{}", a, c, b)),
        1 => illegal.prop_map(|c| c.to_string()),
        3 => gen::text(),
        1 => select(vec!["\u{7f}", "\u{80}", "\u{9f}", "\u{fffd}", "\u{1fffe}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\t", "\n", "\r", " "]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

fn spoil() -> BoxedStrategy<Spoil> {
    use Spoil::*;
    let t = bad_text;
    let g = any::<u32>;
    let raw = || prop_oneof![
        3 => vec(any::<u8>(), 1..12),
        2 => select(vec![vec![0xffu8], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0xe2, 0x82], b"ok\x80".to_vec(), b"caf\xe9".to_vec(), vec![0], vec![0xef, 0xbf, 0xbf]]),
    ].prop_map(Bytes);
    prop_oneof![
        t().prop_map(Name), t().prop_map(Description), t().prop_map(DefUser), t().prop_map(Generator), t().prop_map(DataKey), t().prop_map(DataValue), t().prop_map(PoolId),
        (g(), t()).prop_map(|(a, b)| GroupName(a, b)), (g(), t()).prop_map(|(a, b)| GroupNotes(a, b)), (g(), t()).prop_map(|(a, b)| GroupSeq(a, b)),
        (g(), t()).prop_map(|(a, b)| Tags(a, b)), (g(), t()).prop_map(|(a, b)| Url(a, b)), (g(), t()).prop_map(|(a, b)| Seq(a, b)),
        (g(), t()).prop_map(|(a, b)| AssocKeys(a, b)), (g(), t()).prop_map(|(a, b)| AssocWindow(a, b)),
        (g(), t()).prop_map(|(a, b)| StringKey(a, gen::canonical_key(b))), (g(), t()).prop_map(|(a, b)| StringValue(a, b)),
        (g(), t()).prop_map(|(a, b)| ProtectedKey(a, gen::canonical_key(b))), (g(), t()).prop_map(|(a, b)| ProtectedText(a, b)),
        (g(), raw()).prop_map(|(a, b)| ProtectedBytes(a, b)),
        (g(), t()).prop_map(|(a, b)| BinaryKey(a, b)), (g(), t()).prop_map(|(a, b)| BinaryRef(a, b)), (g(), t()).prop_map(|(a, b)| HistoryValue(a, b)),
        (g(), raw()).prop_map(|(a, b)| HistoryBytes(a, b)),
        prop_oneof![2 => select(vec![65535u32, 65536, 65537, 65534, 70000, 131072, 131071, 131073, 65536 + 40, 262144]), 1 => 60_000u32..200_000].prop_map(CommentLen),
    ]
    .boxed()
}

pub(super) type Case = (MDb, MCreds, Vec<Spoil>);

pub(super) fn check((m0, c, spoils): &Case, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let n = m.root.bfs().len();
    let mut bad: Vec<&str> = Vec::new();
    // protected values that are not UTF-8: (group, key, history?, bytes)
    let mut raw: Vec<(usize, String, bool, Vec<u8>)> = Vec::new();
    for (i, s) in spoils.iter().enumerate() {
        let entry = |g: &u32, f: &mut dyn FnMut(&mut MEntry)| {
            let mut e = MEntry::blank(gen::nid(500 + i as u32));
            e.set("Title", "t", false);
            (at(*g, n), { f(&mut e); e })
        };
        let put = |m: &mut MDb, (g, e): (usize, MEntry)| m_at(&mut m.root, g).entries.push(e);
        let mut t: Option<(&String, &'static str)> = None;
        match s {
            Spoil::Name(x) => { m.meta.name = x.clone(); t = Some((x, "name")) }
            Spoil::Description(x) => { m.meta.description = x.clone(); t = Some((x, "description")) }
            Spoil::DefUser(x) => { m.meta.def_username = x.clone(); t = Some((x, "default user name")) }
            Spoil::Generator(x) => m.meta.generator = x.clone(),
            Spoil::DataKey(x) => { m.meta.custom_data.insert(x.clone(), "v".into()); t = Some((x, "custom data key")) }
            Spoil::DataValue(x) => { m.meta.custom_data.insert(format!("spoilt {}", i), x.clone()); t = Some((x, "custom data value")) }
            Spoil::PoolId(x) => { m.meta.binaries.insert(x.clone(), Bytes(vec![1])); t = Some((x, "attachment identifier")) }
            Spoil::GroupName(g, x) => { m_at(&mut m.root, at(*g, n)).name = x.clone(); t = Some((x, "group name")) }
            Spoil::GroupNotes(g, x) => { m_at(&mut m.root, at(*g, n)).notes = x.clone(); t = Some((x, "group notes")) }
            Spoil::GroupSeq(g, x) => { m_at(&mut m.root, at(*g, n)).def_seq = x.clone(); t = Some((x, "group sequence")) }
            Spoil::Tags(g, x) => { put(&mut m, entry(g, &mut |e| e.tags = x.clone())); t = Some((x, "tags")) }
            Spoil::Url(g, x) => { put(&mut m, entry(g, &mut |e| e.override_url = x.clone())); t = Some((x, "override URL")) }
            Spoil::Seq(g, x) => { put(&mut m, entry(g, &mut |e| e.at_seq = x.clone())); t = Some((x, "entry sequence")) }
            Spoil::AssocKeys(g, x) => { put(&mut m, entry(g, &mut |e| e.assoc.push((x.clone(), "w".into())))); t = Some((x, "association keys")) }
            Spoil::AssocWindow(g, x) => { put(&mut m, entry(g, &mut |e| e.assoc.push(("k".into(), x.clone())))); t = Some((x, "association window")) }
            Spoil::StringKey(g, x) => { put(&mut m, entry(g, &mut |e| e.set(x, "v", false))); t = Some((x, "string key")) }
            Spoil::StringValue(g, x) => { put(&mut m, entry(g, &mut |e| e.set("Notes", x, false))); t = Some((x, "string value")) }
            Spoil::ProtectedKey(g, x) => { put(&mut m, entry(g, &mut |e| e.set(x, "v", true))); t = Some((x, "protected string's key")) }
            Spoil::ProtectedText(g, x) => put(&mut m, entry(g, &mut |e| e.set("Password", x, true))),
            Spoil::ProtectedBytes(g, b) | Spoil::HistoryBytes(g, b) => {
                let hist = matches!(s, Spoil::HistoryBytes(..));
                let text = String::from_utf8(b.0.clone());
                if text.is_err() {
                    raw.push((at(*g, n), format!("raw {}", i), hist, b.0.clone()));
                    bad.push(if hist { "history value that is not UTF-8" } else { "protected value that is not UTF-8" });
                }
                let v = text.unwrap_or_default();
                let k = format!("raw {}", i);
                put(&mut m, entry(g, &mut |e| {
                    if hist {
                        let mut h = e.clone();
                        h.set(&k, &v, true);
                        e.history.push(h);
                    } else {
                        e.set(&k, &v, true)
                    }
                }));
            }
            Spoil::BinaryKey(g, x) => { put(&mut m, entry(g, &mut |e| { e.binaries.insert(x.clone(), MBin::Plain(Bytes(vec![1, 2]))); })); t = Some((x, "attachment name")) }
            Spoil::BinaryRef(g, x) => { put(&mut m, entry(g, &mut |e| { e.binaries.insert("a".into(), MBin::Ref(x.clone())); })); t = Some((x, "attachment reference")) }
            Spoil::HistoryValue(g, x) => {
                put(&mut m, entry(g, &mut |e| {
                    let mut h = e.clone();
                    h.set("Notes", x, false);
                    e.history.push(h);
                }));
                t = Some((x, "history value"))
            }
            Spoil::CommentLen(k) => {
                m.comment = Some(Bytes(kdbx::pattern(*k as usize, 8)));
            }
        }
        if let Some((x, what)) = t {
            if !legal_text(x) {
                bad.push(what);
            }
        }
    }
    // a later change may have replaced an earlier one in the single-valued places
    let over = [&m.meta.name, &m.meta.description, &m.meta.def_username].iter().any(|s| !legal_text(s))
        || m.root.bfs().iter().any(|g| [&g.name, &g.notes, &g.def_seq].iter().any(|s| !legal_text(s)));
    bad.retain(|w| !matches!(*w, "name" | "description" | "default user name" | "group name" | "group notes" | "group sequence"));
    if over {
        bad.push("setting or group text");
    }
    if m.comment.as_ref().is_some_and(|c| c.0.len() > 65535) {
        bad.push("comment length");
    }
    for b in &bad {
        o.class(b);
    }
    o.class_if(bad.is_empty(), "representable");
    o.nontrivial = !bad.is_empty();
    let mut d = conv::database(&m, c);
    for (g, k, hist, b) in &raw {
        let key = kpdb::StringKey::Other(k.clone());
        for e in &mut g_at(&mut d.root_group, *g).entries {
            let e = if *hist {
                match e.history.last_mut() {
                    Some(h) => h,
                    None => continue,
                }
            } else {
                e
            };
            if e.strings.contains_key(&key) {
                e.strings.insert(key.clone(), kpdb::StringValue::Protected(SecStr::new(b.clone())));
            }
        }
    }
    let before = if raw.is_empty() { Some(conv::from_db(&d)?) } else { None };
    let mut out = Vec::new();
    let r = guard(|| d.save(&mut out)).map_err(|p| format!("save: {}", p))?;
    if let Some(b) = before {
        same("the database after save", &b, &conv::from_db(&d)?)?;
    }
    match (r, bad.is_empty()) {
        (Ok(()), true) => same("reopened", &m.as_saved(), &open_model(&out, c)?),
        (Ok(()), false) => {
            let re = match open(&out, c)? {
                Err(e) => format!("the file does not open: {:?}", e),
                Ok(x) => match conv::from_db(&x) {
                    Ok(x) => diff(&m.as_saved(), &x).unwrap_or_else(|| "the file opens to the same".into()),
                    Err(e) => e,
                },
            };
            Err(format!("save accepted {}; {}", bad.join(", "), re))
        }
        (Err(e), true) => Err(format!("save refused representable content: {:?}", e)),
        (Err(_), false) => Ok(()),
    }
}

pub(super) fn strat() -> BoxedStrategy<Case> {
    (gen::small_db(), gen::creds(), prop_oneof![4 => vec(spoil(), 1..2), 2 => vec(spoil(), 2..5)]).boxed()
}
fn deep() -> BoxedStrategy<Case> {
    (gen::db(), gen::creds(), prop_oneof![4 => vec(spoil(), 1..2), 2 => vec(spoil(), 2..5)]).boxed()
}

/// KeePass 1 is refused before anything is written.
fn kdb1((m, c): &(MDb, MCreds), o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class("KeePass 1");
    let mut d = conv::database(m, c);
    d.db_type = kpdb::DbType::Kdb1;
    let mut w = crate::io::ChunkWriter::new(&[]);
    let r = guard(|| d.save(&mut w)).map_err(|p| format!("save: {}", p))?;
    ensure!(r.is_err(), "a KeePass 1 database is saved");
    ensure!(w.calls == 0, "{} bytes were written before the refusal", w.data.len());
    d.db_type = kpdb::DbType::Kdb2;
    same("saved as KeePass 2", &m.as_saved(), &open_model(&save(&d)?, c)?)
}

fn kdb1_s() -> BoxedStrategy<(MDb, MCreds)> {
    (gen::small_db(), gen::creds()).boxed()
}

fn nested() -> BoxedStrategy<Chain> {
    chain(prop_oneof![3 => 998u32..1004, 1 => 900u32..1100, 1 => 1000u32..4000, 1 => 4000u32..9000].boxed())
}

/// Trees too deep for the reader (or its stack) are refused by the writer.
fn check_nested(ch: &Chain, o: &mut Obs) -> Check {
    o.nontrivial = ch.depth > 1000;
    let m = ch.db();
    let c = MCreds::pw("p");
    let d = conv::database(&m, &c);
    let mut out = Vec::new();
    let r = small_stack(|| d.save(&mut out).is_ok());
    o.class(if r { "saved" } else { "refused" });
    ensure!(r || ch.depth > 1000, "save refused {} levels of groups", ch.depth);
    if r {
        let d2 = small_stack(|| open_ok(&out, &c)).map_err(|e| format!("{} levels of groups were saved: {}", ch.depth, e))?;
        same("reopened", &m.as_saved(), &conv::from_db(&d2)?)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "the database holds something the format cannot, by the harness's own definition of an XML character, UTF-8 and the field size",
        assumptions: &["history items without history of their own", "string keys that differ from a standard name only in case are that standard key"],
        lanes: vec![lane("spoilt", 8000, 200_000, strat, check), lane("spoilt-deep", 2000, 40_000, deep, check), lane("keepass1", 300, 3000, kdb1_s, kdb1), lane("nested", 60, 1000, nested, check_nested)],
    }
}
