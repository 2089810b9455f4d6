//! Protected values and keys are wiped from the memory that is given back.

use super::c07::mark;
use super::common::*;
use crate::alloc;
use crate::ensure;
use crate::xmlmap::Layout;
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Save,
    /// open what was saved last, or the file of the start
    Open,
    /// open with other credentials
    Wrong,
    Clone,
    /// give back a copy: which
    DropCopy(u8),
    /// which entry
    SetPassword(u8),
    /// which entry, which of its strings (or a new one)
    Replace(u8, u8),
    RemoveString(u8, u8),
    RemoveBinary(u8, u8),
    ReplaceBinary(u8, u8),
    /// which entry: the current state becomes a history item
    Keep(u8),
    Forget(u8),
    RemoveEntry(u8),
    RemoveGroup(u8),
    Search(String),
    Read(u8),
    Debug,
    Compare(u8),
    /// the key of the database is replaced
    Rekey(MCreds),
    KeyCopy,
}

fn op() -> BoxedStrategy<Op> {
    use Op::*;
    let i = any::<u8>;
    prop_oneof![
        3 => Just(Save),
        3 => Just(Open),
        1 => Just(Wrong),
        3 => Just(Clone),
        2 => i().prop_map(DropCopy),
        3 => i().prop_map(SetPassword),
        3 => (i(), i()).prop_map(|(a, b)| Replace(a, b)),
        3 => (i(), i()).prop_map(|(a, b)| RemoveString(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| RemoveBinary(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| ReplaceBinary(a, b)),
        2 => i().prop_map(Keep),
        1 => i().prop_map(Forget),
        2 => i().prop_map(RemoveEntry),
        1 => i().prop_map(RemoveGroup),
        1 => gen::text().prop_map(Search),
        2 => i().prop_map(Read),
        1 => Just(Debug),
        1 => i().prop_map(Compare),
        1 => gen::creds().prop_map(Rekey),
        1 => Just(KeyCopy),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    db: MDb,
    creds: MCreds,
    seed: u64,
    /// starts with the file of another program, rather than with a database made here
    from_file: bool,
    ops: Vec<Op>,
}

fn strat() -> BoxedStrategy<Case> {
    (gen::small_db(), gen::creds(), any::<u64>(), any::<bool>(), vec(op(), 1..14))
        .prop_map(|(mut db, creds, seed, from_file, ops)| {
            db.rounds = db.rounds.min(3);
            db.comment = None;
            let mut e = MEntry::blank(gen::nid(77));
            e.set("Password", "", true);
            e.binaries.insert("file".into(), MBin::Protected(Bytes(vec![1, 2, 3])));
            db.root.entries.push(e);
            Case { db, creds, seed, from_file, ops }
        })
        .boxed()
}

fn plain(w: &[u8]) -> bool {
    w.iter().all(|b| *b == w[0])
}

struct Watched {
    needles: Vec<Vec<u8>>,
    names: Vec<String>,
    n: u64,
    seed: u64,
}

impl Watched {
    fn add(&mut self, name: &str, secret: &[u8]) {
        if secret.len() >= 8 && !plain(secret) {
            self.needles.push(secret.to_vec());
            self.names.push(name.into());
        }
    }
    fn key(&mut self, name: &str, key: &[u8]) {
        for (i, w) in key.chunks_exact(8).enumerate() {
            self.add(&format!("part {} of the {}", i, name), w);
        }
    }
    fn token(&mut self, name: &str) -> String {
        self.n += 1;
        let t: String = kdbx::pattern(12, self.seed ^ 0x5a5a ^ self.n.wrapping_mul(7777)).iter().map(|x| char::from(b"abcdefghijkmnpqrstuvwxyzABCDEFGH"[(*x & 31) as usize])).collect::<String>() + "Yw4";
        self.add(name, t.as_bytes());
        t
    }
    fn run<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Res<R> {
        let (r, seen) = alloc::watch(&self.needles, f);
        for (n, h) in self.names.iter().zip(&seen.hits) {
            ensure!(*h == 0, "{}: memory was given back in which {} is readable", what, n);
        }
        Ok(r)
    }
}

fn nth_entry(d: &mut kpdb::Database, i: u8) -> Option<&mut kpdb::Entry> {
    let n = super::tree::entries(&d.root_group).len();
    if n == 0 {
        return None;
    }
    let mut at = usize::from(i) % n;
    let mut todo = vec![&mut d.root_group];
    while let Some(g) = todo.pop() {
        if at < g.entries.len() {
            return Some(&mut g.entries[at]);
        }
        at -= g.entries.len();
        todo.extend(g.groups.iter_mut());
    }
    None
}

fn check(c: &Case, o: &mut Obs) -> Check {
    alloc::clean();
    let mut m = c.db.clone();
    let k = mark(&mut m, c.seed);
    let mut w = Watched { needles: vec![], names: vec![], n: 0, seed: c.seed };
    for (what, t) in &k.protected {
        w.add(&format!("the protected value of {}", what), t);
    }
    w.key("composite key", &c.creds.composite());
    let mut creds = c.creds.clone();
    let mut file = encode(&m, &Layout::default(), &c.creds, c.seed);
    let mut file_creds = creds.clone();
    let key = conv::key(&creds);
    let mut d = if c.from_file {
        let r = w.run("opening", || guard(|| kpdb::Database::open(&mut &file[..], &key)))?;
        r?.map_err(|e| format!("open failed: {:?}", e))?
    } else {
        conv::database(&m, &creds)
    };
    drop(key);
    let mut copies: Vec<kpdb::Database> = vec![];
    o.nontrivial = c.ops.len() >= 3;
    o.evals = c.ops.len() as u64 + 1;
    for (i, op) in c.ops.iter().enumerate() {
        let at = format!("operation {} ({})", i, format!("{:?}", op).split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
        match op {
            Op::Save => {
                o.class("save");
                let mut out = Vec::with_capacity(1 << 20);
                w.run(&at, || d.save(&mut out))?.map_err(|e| format!("save failed: {:?}", e))?;
                file = out;
                file_creds = creds.clone();
            }
            Op::Open => {
                o.class("open");
                let key = conv::key(&file_creds);
                let r = w.run(&at, || kpdb::Database::open(&mut &file[..], &key))?.map_err(|e| format!("open failed: {:?}", e))?;
                creds = file_creds.clone();
                w.run(&at, || d = r)?;
            }
            Op::Wrong => {
                o.class("open with other credentials");
                let key = kpdb::CompositeKey::from_password("not the one");
                if w.run(&at, || kpdb::Database::open(&mut &file[..], &key).is_ok())? {
                    return Err("opened with other credentials".into());
                }
            }
            Op::Clone => {
                o.class("clone");
                let x = w.run(&at, || d.clone())?;
                copies.push(x);
            }
            Op::DropCopy(i) if !copies.is_empty() => {
                o.class("drop a copy");
                let x = copies.swap_remove(usize::from(*i) % copies.len());
                w.run(&at, || drop(x))?;
            }
            Op::SetPassword(i) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("new password");
                    let t = w.token("a password set");
                    w.run(&at, || e.set_password(t))?;
                }
            }
            Op::Replace(i, j) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("string replaced");
                    let keys: Vec<kpdb::StringKey> = e.strings.keys().cloned().collect();
                    let key = keys.get(usize::from(*j) % (keys.len() + 1)).cloned().unwrap_or(kpdb::StringKey::Other("PIN".into()));
                    let t = w.token("a protected string set");
                    w.run(&at, || e.strings.insert(key, kpdb::StringValue::new(t, true)))?;
                }
            }
            Op::RemoveString(i, j) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    let keys: Vec<kpdb::StringKey> = e.strings.keys().cloned().collect();
                    if !keys.is_empty() {
                        o.class("string removed");
                        let key = &keys[usize::from(*j) % keys.len()];
                        w.run(&at, || drop(e.strings.remove(key)))?;
                    }
                }
            }
            Op::RemoveBinary(i, j) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    let keys: Vec<kpdb::BinaryKey> = e.binaries.keys().cloned().collect();
                    if !keys.is_empty() {
                        o.class("attachment removed");
                        let key = &keys[usize::from(*j) % keys.len()];
                        w.run(&at, || drop(e.binaries.remove(key)))?;
                    }
                }
            }
            Op::ReplaceBinary(i, j) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("attachment replaced");
                    let keys: Vec<kpdb::BinaryKey> = e.binaries.keys().cloned().collect();
                    let key = keys.get(usize::from(*j) % (keys.len() + 1)).cloned().unwrap_or(kpdb::BinaryKey("new".into()));
                    let t = w.token("a protected attachment set");
                    w.run(&at, || e.binaries.insert(key, kpdb::BinaryValue::Protected(secstr::SecStr::new(t.into_bytes()))))?;
                }
            }
            Op::Keep(i) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("history item added");
                    w.run(&at, || {
                        let mut x = e.clone();
                        x.history.clear();
                        e.history.push(x);
                    })?;
                }
            }
            Op::Forget(i) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("history removed");
                    w.run(&at, || e.history.truncate(1))?;
                    w.run(&at, || e.history.clear())?;
                }
            }
            Op::RemoveEntry(i) => {
                let all: Vec<kpdb::EntryUuid> = super::tree::entries(&d.root_group).iter().map(|e| e.uuid).collect();
                if !all.is_empty() {
                    o.class("entry removed");
                    let id = all[usize::from(*i) % all.len()];
                    w.run(&at, || {
                        for g in d.root_group.iter_mut() {
                            if let Some(e) = g.remove_entry(id) {
                                drop(e);
                                break;
                            }
                        }
                    })?;
                }
            }
            Op::RemoveGroup(i) => {
                let all: Vec<kpdb::GroupUuid> = d.root_group.groups.iter().map(|g| g.uuid).collect();
                if !all.is_empty() {
                    o.class("group removed");
                    let id = all[usize::from(*i) % all.len()];
                    w.run(&at, || drop(d.root_group.remove_group(id)))?;
                }
            }
            Op::Search(t) => {
                o.class("search");
                w.run(&at, || (d.find_entries(t.as_str()).len(), d.find_groups(t.as_str()).len()))?;
            }
            Op::Read(i) => {
                if let Some(e) = nth_entry(&mut d, *i) {
                    o.class("read");
                    w.run(&at, || {
                        let all = [e.password(), e.title(), e.username(), e.url(), e.notes()];
                        all.iter().flatten().map(|s| s.len()).sum::<usize>()
                    })?;
                }
            }
            Op::Debug => {
                o.class("debug output");
                w.run(&at, || format!("{:?} {:#?}", d, d).len())?;
            }
            Op::Compare(i) if !copies.is_empty() => {
                o.class("compare");
                let x = &copies[usize::from(*i) % copies.len()];
                w.run(&at, || d == *x)?;
            }
            Op::Rekey(c) => {
                o.class("new key");
                let key = conv::key(c);
                w.key("new composite key", &c.composite());
                creds = c.clone();
                w.run(&at, || d.composite_key = key)?;
            }
            Op::KeyCopy => {
                o.class("copy of the key");
                w.run(&at, || {
                    let a = Box::new(d.composite_key.clone());
                    let b = vec![d.composite_key.clone(), (*a).clone()];
                    drop(a);
                    b[0] == b[1]
                })?;
            }
            Op::DropCopy(_) | Op::Compare(_) => {}
        }
    }
    w.run("giving back the copies", || drop(copies))?;
    w.run("giving back the database", || drop(d))?;
    control()
}

/// What is not wiped is seen.
fn control() -> Check {
    let t = String::from("what is not wiped");
    let (_, seen) = alloc::watch(&[t.clone().into_bytes()], || drop(t));
    ensure!(seen.hits == [1] && seen.blocks == 1, "harness: what is given back is not seen");
    Ok(())
}

// ------------------------------------------------------------- keys

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct KeyCase {
    creds: MCreds,
    seed: u64,
    gzip: bool,
    rounds: u8,
}

fn keystrat() -> BoxedStrategy<KeyCase> {
    (gen::creds(), any::<u64>(), any::<bool>(), 0u8..40)
        .prop_map(|(mut creds, seed, gzip, rounds)| {
            // bytes that are nowhere else
            if let Some(k) = &mut creds.keyfile {
                k.key.0 = kdbx::pattern(k.key.0.len(), seed);
            }
            KeyCase { creds, seed, gzip, rounds }
        })
        .boxed()
}

/// Making, copying, comparing and giving back keys and key files; opening and saving under them.
fn check_keys(c: &KeyCase, o: &mut Obs) -> Check {
    alloc::clean();
    let mut w = Watched { needles: vec![], names: vec![], n: 0, seed: c.seed };
    w.key("composite key", &c.creds.composite());
    if let Some(k) = &c.creds.keyfile {
        o.class("key file");
        if k.key.0.len() >= 8 {
            let n = k.key.0.len().min(16);
            w.add("the key of the key file", &k.key.0[..n]);
        }
        let kf = conv::key_file(k);
        w.run("copying and comparing key files", || {
            let a = Box::new(kf.clone());
            let b = vec![kf.clone(), (*a).clone()];
            drop(a);
            b[0] == b[1]
        })?;
        let mut out = Vec::with_capacity(64);
        if k.ty == KfType::Binary {
            w.run("saving a binary key file", || kf.save(&mut out))?.map_err(|e| format!("{:?}", e))?;
        }
        let copy = kf.clone();
        w.run("making a composite key from a key file", || drop(kpdb::CompositeKey::from_key_file(copy)))?;
        let text = w.token("never mind");
        w.needles.pop();
        w.names.pop();
        w.run("making a composite key from both", || drop(kpdb::CompositeKey::from_both(text, kf)))?;
    }
    let key = w.run("making the composite key", || conv::key(&c.creds))?;
    let boxed = Box::new(key.clone());
    w.run("giving back a key", || drop(boxed))?;
    w.run("the bytes of a key", || key.unsecure().iter().map(|b| *b as u32).sum::<u32>())?;

    // opening and saving
    let mut m = MDb::blank();
    m.gzip = c.gzip;
    m.rounds = u64::from(c.rounds) + 1;
    let mut d = conv::database(&m, &c.creds);
    crate::rng::seed(c.seed);
    let file = save(&d)?;
    let mut out = Vec::with_capacity(1 << 16);
    crate::rng::seed(c.seed);
    w.run("saving", || d.save(&mut out))?.map_err(|e| format!("save failed: {:?}", e))?;
    ensure!(out == file, "harness: the same random bytes give another file");
    let x = w.run("opening", || kpdb::Database::open(&mut &file[..], &key))?.map_err(|e| format!("open failed: {:?}", e))?;
    w.run("giving back a database", || drop(x))?;
    let other = kpdb::CompositeKey::from_password("another");
    w.run("replacing the key of a database", || d.composite_key = other)?;
    let b = Box::new(d);
    w.run("giving back a database", || drop(b))?;
    w.run("giving back a key", || drop(key))?;
    o.nontrivial = w.needles.len() >= 4;
    o.evals = 8;
    control()
}

pub fn prop() -> Prop {
    Prop {
        id: "C32",
        rule: "at least three operations; for keys, always",
        assumptions: &["memory of the heap, as the allocator gets it back; copies on the stack and in registers are not seen"],
        lanes: vec![lane("histories", 2500, 40_000, strat, check), lane("keys", 2000, 30_000, keystrat, check_keys)],
    }
}
