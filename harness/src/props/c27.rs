//! Failures do not tell secrets.

use super::c03::{count, nth, tree_edit, TreeEdit};
use super::c07::{hidden_in, mark, Marks};
use super::common::*;
use crate::ensure;
use crate::said::during;
use crate::io::{Fault, FaultIo, When, KINDS};
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::serialize;
use proptest::collection::vec;
use proptest::sample::select;
use secstr::SecStr;

/// Everything an error says.
fn said(e: &kpdb::Error) -> String {
    let mut s = format!("{} {:?} {:#?}", e, e, e);
    let mut c: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = c {
        s.push_str(&format!(" {} {:?}", x, x));
        c = x.source();
    }
    s
}

fn class(e: &kpdb::Error, o: &mut Obs) {
    let s = format!("{:?}", e);
    o.class(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
}

/// What must stay hidden: the protected values, the passwords and the keys.
pub(super) struct Secrets {
    values: Vec<(String, Vec<u8>)>,
    creds: Vec<MCreds>,
}

impl Secrets {
    fn new(k: &Marks, creds: &[&MCreds]) -> Secrets {
        let mut values = k.protected.clone();
        for c in creds {
            if let Some(p) = c.password.as_ref().filter(|p| p.len() >= 8 && p.chars().collect::<std::collections::HashSet<_>>().len() > 4) {
                values.push(("password".into(), p.clone().into_bytes()));
            }
        }
        Secrets { values, creds: creds.iter().map(|c| (*c).clone()).collect() }
    }
    /// What was printed meanwhile.
    fn printed(&self, out: &[u8]) -> Check {
        let s = String::from_utf8_lossy(out);
        if out.is_empty() {
            return Ok(());
        }
        for c in &self.creds {
            hidden_in("what was printed", &s, &self.values, c).map_err(|m| format!("{}: {}", m, s))?;
        }
        Ok(())
    }
    fn check(&self, e: &kpdb::Error, o: &mut Obs) -> Check {
        class(e, o);
        let s = said(e);
        for c in &self.creds {
            hidden_in("the error", &s, &self.values, c).map_err(|m| format!("{}: {}", m, s))?;
        }
        Ok(())
    }
}

fn small(mut m: MDb) -> MDb {
    m.rounds = m.rounds.min(3);
    m.comment = None;
    // always something to hide
    let mut e = MEntry::blank(gen::nid(77));
    e.set("Password", "", true);
    e.binaries.insert("file".into(), MBin::Protected(Bytes(vec![1, 2, 3])));
    m.root.entries.push(e);
    m
}

/// Credentials with a password worth hiding.
fn creds() -> BoxedStrategy<MCreds> {
    (gen::creds(), "[a-zA-Z0-9]{14,30}")
        .prop_map(|(mut c, p)| {
            if c.password.is_some() {
                c.password = Some(p);
            }
            c
        })
        .boxed()
}

// ------------------------------------------------------------- opening

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Break {
    OtherCreds(MCreds),
    Edits(Vec<Edit>),
    Xml(Vec<TreeEdit>),
    Text(Vec<Edit>),
    /// a protected value that is not UTF-8 or not base64: which, what follows the secret, in front
    Value(u32, Bytes, bool),
    /// a protected value somewhere else: which, the element's new name
    Elsewhere(u32, String),
    Io(u32, u8),
}

pub(super) type Open = (MDb, MCreds, u64, Break);

const TYPED: &[&str] = &[
    "UUID", "IconID", "Color", "ForegroundColor", "Enabled", "DataTransferObfuscation", "CreationTime", "Expires", "UsageCount", "CustomIconUUID", "Data", "HeaderHash", "Times", "History", "Key",
    "String", "Binary", "Unknown", "RecycleBinEnabled", "MaintenanceHistoryDays",
];

pub(super) fn open_s() -> BoxedStrategy<Open> {
    let b = prop_oneof![
        2 => creds().prop_map(Break::OtherCreds),
        2 => vec(edit(), 1..3).prop_map(Break::Edits),
        3 => vec(tree_edit(), 1..5).prop_map(Break::Xml),
        3 => vec(edit(), 1..4).prop_map(Break::Text),
        2 => (any::<u32>(), select(vec![vec![0xffu8], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xe2, 0x82]]), any::<bool>()).prop_map(|(a, b, c)| Break::Value(a, Bytes(b), c)),
        3 => (any::<u32>(), select(TYPED.to_vec())).prop_map(|(a, s)| Break::Elsewhere(a, s.into())),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Break::Io(a, b)),
    ];
    (gen::small_db().prop_map(small), creds(), any::<u64>(), b).boxed()
}

/// How many elements hold a secret; applies `f` to the n-th.
fn on_secret(e: &mut crate::xmlmini::El, n: u32, f: &mut dyn FnMut(&mut crate::xmlmini::El)) {
    let total = count(e);
    let mut idx = Vec::new();
    for i in 0..total {
        nth(e, &mut i.clone(), &mut |x| {
            if x.secret.is_some() {
                idx.push(i)
            }
        });
    }
    if !idx.is_empty() {
        let mut i = idx[at(n, idx.len())];
        nth(e, &mut i, f);
    }
}

pub(super) fn check_open((m0, c, seed, br): &Open, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let k = mark(&mut m, *seed);
    let mut key = c;
    let l = Layout::default();
    let ps = parts(&m, &l, c, *seed);
    let mut x = to_xml(&m, &l);
    let mut text = Vec::new();
    match br {
        Break::OtherCreds(other) => {
            key = other;
            o.class("other credentials");
        }
        Break::Xml(es) => {
            es.iter().for_each(|e| e.apply(&mut x));
            o.class("edited tree");
        }
        Break::Value(n, tail, front) => {
            on_secret(&mut x, *n, &mut |e| {
                let s = e.secret.take().unwrap().0;
                e.secret = Some(Bytes(if *front { [&tail.0[..], &s[..]].concat() } else { [&s[..], &tail.0[..]].concat() }));
            });
            o.class("protected value that is not UTF-8");
        }
        Break::Elsewhere(n, name) => {
            on_secret(&mut x, *n, &mut |e| e.name = name.clone());
            o.class("misplaced protected value");
        }
        Break::Text(es) => {
            text = es.clone();
            o.class("edited text");
        }
        Break::Edits(_) => o.class("edited file"),
        Break::Io(..) => o.class("reader fails"),
    }
    let mut doc = serialize(&ps.finish_xml(x, &l), &l.style);
    text.iter().for_each(|e| e.apply(&mut doc, 0));
    let mut f = ps.file_from_xml_bytes(&doc, &l);
    if let Break::Edits(es) = br {
        es.iter().for_each(|e| e.apply(&mut f, 0));
    }
    if !affordable(&f) {
        return Ok(());
    }
    let kk = conv::key(key);
    let secrets = Secrets::new(&k, &[c, key]);
    let (r, out) = during(|| match br {
        Break::Io(p, kind) => {
            let mut io = FaultIo::new(&f, When::Byte(at(*p, f.len()) as u64), Fault::Error(KINDS[*kind as usize % KINDS.len()]), 1 + *kind as usize);
            guard(|| kpdb::Database::open(&mut io, &kk))
        }
        _ => guard(|| kpdb::Database::open(&mut &f[..], &kk)),
    });
    secrets.printed(&out)?;
    o.class_if(!out.is_empty(), "something was printed");
    match r.map_err(|p| format!("open: {}", p))? {
        Ok(_) => o.class("Ok"),
        Err(e) => {
            o.nontrivial = true;
            secrets.check(&e, o)?
        }
    }
    Ok(())
}

// ------------------------------------------------------------- saving

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum SaveBreak {
    /// which protected string, bytes that are not UTF-8, in front, in the history
    Raw(u32, Bytes, bool, bool),
    /// a character that XML does not allow, in a plain field beside the secrets
    Char(u32, char),
    Comment(u32),
    Io(u32, u8, bool),
}

pub(super) type Save = (MDb, MCreds, u64, SaveBreak);

pub(super) fn save_s() -> BoxedStrategy<Save> {
    let raw = select(vec![vec![0xffu8], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xe2, 0x82], vec![0xf4, 0x90, 0x80, 0x80]]);
    let b = prop_oneof![
        4 => (any::<u32>(), raw, any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d)| SaveBreak::Raw(a, Bytes(b), c, d)),
        2 => (any::<u32>(), select(vec!['\0', '\u{1}', '\u{1b}', '\u{ffff}', '\u{fffe}'])).prop_map(|(a, c)| SaveBreak::Char(a, c)),
        1 => (65_536u32..70_000).prop_map(SaveBreak::Comment),
        3 => (any::<u32>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| SaveBreak::Io(a, b, c)),
    ];
    (gen::small_db().prop_map(small), creds(), any::<u64>(), b).boxed()
}

pub(super) fn check_save((m0, c, seed, br): &Save, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let k = mark(&mut m, *seed);
    let mut d = conv::database(&m, c);
    let good = save(&d)?;
    let mut stop = None;
    match br {
        SaveBreak::Raw(_, b, front, hist) => {
            let e = d.root_group.entries.last_mut().unwrap();
            let s = e.strings[&kpdb::StringKey::Password].clone();
            let kpdb::StringValue::Protected(s) = s else { return Err("harness: no protected string".into()) };
            let v = if *front { [&b.0[..], s.unsecure()].concat() } else { [s.unsecure(), &b.0[..]].concat() };
            let mut h = e.clone();
            h.strings.insert(kpdb::StringKey::Password, kpdb::StringValue::Protected(SecStr::new(v)));
            if *hist {
                e.history.push(h);
            } else {
                *e = h;
            }
            o.class("protected value that is not UTF-8");
        }
        SaveBreak::Char(n, x) => {
            let e = d.root_group.entries.last_mut().unwrap();
            match n % 4 {
                0 => e.set_title(format!("a{}b", x)),
                1 => e.set_notes(format!("{}", x)),
                2 => e.tags.push(*x),
                _ => e.set_other(kpdb::StringKey::Other(format!("key{}", x)), "v"),
            }
            o.class("character XML does not allow");
        }
        SaveBreak::Comment(n) => {
            d.comment = Some(kpdb::Comment(vec![7; *n as usize]));
            o.class("long comment");
        }
        SaveBreak::Io(p, kind, zero) => {
            let fault = if *zero { Fault::Stop } else { Fault::Error(KINDS[*kind as usize % KINDS.len()]) };
            stop = Some(FaultIo::new(&[], When::Byte(at(*p, good.len()) as u64), fault, 1 + *kind as usize));
            o.class("writer fails");
        }
    }
    let secrets = Secrets::new(&k, &[c]);
    let (r, out) = during(|| match &mut stop {
        Some(w) => guard(|| d.save(w)),
        None => guard(|| d.save(&mut Vec::new())),
    });
    secrets.printed(&out)?;
    match r.map_err(|p| format!("save: {}", p))? {
        Ok(()) => o.class("Ok"),
        Err(e) => {
            o.nontrivial = true;
            secrets.check(&e, o)?
        }
    }
    Ok(())
}

// ------------------------------------------------------------- key files

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum KeyBreak {
    Edits(Vec<Edit>),
    /// another character at a position of the key's text
    Char(u32, char),
    Cut(u32),
    More(Bytes),
    Version(String),
    Io(u32, u8),
}

pub(super) type KeyCase = (Bytes, KfType, KeyBreak);

fn key_s() -> BoxedStrategy<KeyCase> {
    let b = prop_oneof![
        3 => vec(edit(), 1..3).prop_map(KeyBreak::Edits),
        4 => (any::<u32>(), select(vec!['!', '-', '_', 'g', ' ', 'é', '\n', '<', '&', '>', '"', '=', '/', '\0'])).prop_map(|(a, c)| KeyBreak::Char(a, c)),
        2 => any::<u32>().prop_map(KeyBreak::Cut),
        1 => vec(any::<u8>(), 1..10).prop_map(|b| KeyBreak::More(Bytes(b))),
        1 => select(vec!["2.0", "", "1", "x"]).prop_map(|s| KeyBreak::Version(s.into())),
        1 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| KeyBreak::Io(a, b)),
    ];
    (vec(any::<u8>(), 32).prop_map(Bytes), select(vec![KfType::Binary, KfType::Hex, KfType::Xml]), b).boxed()
}

fn check_key((key, ty, br): &KeyCase, o: &mut Obs) -> Check {
    let k = MKeyFile { key: key.clone(), ty: ty.clone() };
    let mut b = Vec::new();
    conv::key_file(&k).save(&mut b).map_err(|e| format!("save: {:?}", e))?;
    match br {
        KeyBreak::Edits(es) => es.iter().for_each(|e| e.apply(&mut b, 0)),
        KeyBreak::Char(p, c) => {
            // inside the key's text
            let text = match ty {
                KfType::Binary => key.0.clone(),
                KfType::Hex => crate::crypto::hex(&key.0).into_bytes(),
                KfType::Xml => crate::crypto::b64(&key.0).into_bytes(),
            };
            let start = b.windows(text.len()).position(|w| w.eq_ignore_ascii_case(&text)).ok_or("harness: the key is not in the file")?;
            let i = start + at(*p, text.len());
            b.splice(i..i + 1, c.to_string().bytes());
        }
        KeyBreak::Cut(p) => b.truncate(at(*p, b.len())),
        KeyBreak::More(m) => b.extend_from_slice(&m.0),
        KeyBreak::Version(v) => b = String::from_utf8_lossy(&b).replace("1.00", v).into_bytes(),
        KeyBreak::Io(..) => {}
    }
    let (r, out) = during(|| match br {
        KeyBreak::Io(p, kind) => {
            let mut io = FaultIo::new(&b, When::Byte(at(*p, b.len()) as u64), Fault::Error(KINDS[*kind as usize % KINDS.len()]), 1 + *kind as usize);
            guard(|| kpdb::KeyFile::open(&mut io))
        }
        _ => guard(|| kpdb::KeyFile::open(&mut &b[..])),
    });
    let printed = String::from_utf8_lossy(&out).into_owned();
    match r.map_err(|p| format!("KeyFile::open: {}", p))? {
        Ok(f) => {
            o.class("Ok");
            let (_, more) = during(|| {
                let _ = kpdb::CompositeKey::from_key_file(f.clone());
                let _ = f.save(&mut Vec::new());
            });
            let printed = printed + &String::from_utf8_lossy(&more);
            for w in key.0.windows(8).filter(|_| !printed.is_empty()) {
                hidden_in("what was printed", &printed, &[("key file".into(), w.to_vec())], &MCreds::pw("")).map_err(|m| format!("{}: {}", m, printed))?;
            }
        }
        Err(e) => {
            o.nontrivial = true;
            class(&e, o);
            let s = said(&e) + " " + &printed;
            // errors may name elements: a key that the damage moved into a tag is no secret any more
            let mut tags = Vec::new();
            let mut inside = false;
            for x in &b {
                inside |= *x == b'<';
                if inside {
                    tags.push(*x);
                }
                inside &= *x != b'>';
            }
            let text = crate::crypto::b64(&key.0);
            if *ty == KfType::Xml && text.as_bytes().windows(6).any(|w| super::c07::contains(&tags, w)) {
                o.class("skipped: the key is in a tag");
                return Ok(());
            }
            // any eight bytes of the key, or any ten characters of its text
            for w in key.0.windows(8) {
                hidden_in("the error", &s, &[("key file".into(), w.to_vec())], &MCreds::pw("")).map_err(|m| format!("{}: {}", m, s))?;
            }
            for t in [crate::crypto::hex(&key.0), crate::crypto::b64(&key.0)] {
                for i in 0..t.len() - 10 {
                    let w = &t[i..i + 10];
                    ensure!(!s.contains(w) && !s.to_lowercase().contains(&w.to_lowercase()), "the error shows the key's text {:?}: {}", w, s);
                }
            }
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "the operation failed, so that there is an error to look at",
        assumptions: &[
            "errors are looked at through Display, Debug and their sources",
            "secrets are searched raw, reversed, in UTF-16, in hex, in base64 at every alignment and as lists of numbers",
        ],
        lanes: vec![
            lane("open", 5000, 150_000, open_s, check_open),
            lane("save", 1500, 50_000, save_s, check_save),
            lane("key-file", 4000, 100_000, key_s, check_key),
        ],
    }
}
