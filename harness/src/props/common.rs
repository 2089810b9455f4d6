//! Shared by the property checks.

pub use crate::file::{decode_full, encode, parts};
pub use crate::model::*;
pub use crate::runner::{guard, Check, EnumLane, Lane, Obs, Prop, Tier};
pub use crate::{conv, gen, kdbx};
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};

pub type Res<T> = Result<T, String>;

/// Fails the check with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

pub fn save(d: &kpdb::Database) -> Res<Vec<u8>> {
    let mut v = Vec::new();
    match guard(|| d.save(&mut v)) {
        Ok(Ok(())) => Ok(v),
        Ok(Err(e)) => Err(format!("save failed: {:?}", e)),
        Err(p) => Err(format!("save: {}", p)),
    }
}

/// Opens; a panic is an error of the outer result.
pub fn open(b: &[u8], c: &MCreds) -> Res<Result<kpdb::Database, kpdb::Error>> {
    let key = conv::key(c);
    guard(|| kpdb::Database::open(&mut &b[..], &key)).map_err(|p| format!("open: {}", p))
}

pub fn open_ok(b: &[u8], c: &MCreds) -> Res<kpdb::Database> {
    open(b, c)?.map_err(|e| format!("open failed: {:?}", e))
}

pub fn open_model(b: &[u8], c: &MCreds) -> Res<MDb> {
    conv::from_db(&open_ok(b, c)?)
}

pub fn same(what: &str, exp: &MDb, got: &MDb) -> Check {
    match diff(exp, got) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    }
}

/// Saves with kpdb, decodes with the harness's strict decoder and compares.
pub fn check_file(file: &[u8], m: &MDb, c: &MCreds) -> Check {
    let full = decode_full(file, c, true).map_err(|e| format!("the saved file is not standard: {}", e))?;
    same("saved file", &m.as_saved(), &full.db)
}

/// What a database exercises; the basis of the non-triviality rules.
pub fn features(m: &MDb, o: &mut Obs) -> usize {
    let before = o.classes.len();
    let gs = m.root.bfs();
    o.class_if(gs.len() > 1, "subgroups");
    o.class_if(m.root.depth() > 3, "depth > 3");
    o.class_if(m.root.depth() > 12, "depth > 12");
    o.class_if(gs.len() > 50, "> 50 groups");
    o.class_if(m.gzip, "gzip");
    o.class_if(!m.gzip, "uncompressed");
    o.class_if(m.comment.is_some(), "comment");
    o.class_if(gs.iter().any(|g| g.custom_icon.is_some()), "group with custom icon");
    o.class_if(!m.meta.custom_data.is_empty(), "custom data");
    o.class_if(!m.meta.custom_icons.is_empty(), "custom icons");
    o.class_if(!m.meta.binaries.is_empty(), "attachment pool");
    let (mut entries, mut hist, mut prot, mut plain, mut bins, mut pbins, mut refs, mut assoc) = (0, 0, 0, 0, 0, 0, 0, 0);
    let (mut wsonly, mut nonascii, mut empty, mut cr) = (false, false, false, false);
    m.root.walk_entries(false, &mut |e| {
        entries += 1;
        hist += e.history.len();
    });
    m.root.walk_entries(true, &mut |e| {
        for v in e.strings.values() {
            if v.p { prot += 1 } else { plain += 1 }
            wsonly |= !v.p && !v.v.is_empty() && v.v.trim().is_empty();
            nonascii |= !v.v.is_ascii();
            empty |= v.v.is_empty();
            cr |= !v.p && v.v.contains('\r');
        }
        for b in e.binaries.values() {
            match b {
                MBin::Plain(_) => bins += 1,
                MBin::Protected(_) => pbins += 1,
                MBin::Ref(_) => refs += 1,
            }
        }
        assoc += e.assoc.len();
    });
    o.class_if(entries > 0, "entries");
    o.class_if(entries > 50, "> 50 entries");
    o.class_if(hist > 0, "history");
    o.class_if(hist > 20, "> 20 history items");
    o.class_if(prot > 0, "protected string");
    o.class_if(prot > 4, "> 4 protected strings");
    o.class_if(plain > 0, "plain string");
    o.class_if(bins > 0, "inline attachment");
    o.class_if(pbins > 0, "protected attachment");
    o.class_if(refs > 0, "attachment reference");
    o.class_if(assoc > 0, "association");
    o.class_if(wsonly, "whitespace-only string");
    o.class_if(nonascii, "non-ASCII string");
    o.class_if(empty, "empty string value");
    o.class_if(cr, "carriage return in a string");
    o.classes.len() - before
}

/// An upper bound on the transform rounds a test may run.
pub const MAX_ROUNDS: u64 = 1 << 17;

/// Whether no rounds field of a (possibly damaged) header asks for more than the bound.
pub fn affordable(file: &[u8]) -> bool {
    let mut i = 12;
    while i + 3 <= file.len() {
        let (id, n) = (file[i], u16::from_le_bytes([file[i + 1], file[i + 2]]) as usize);
        if id == 0 {
            break;
        }
        if id == kdbx::ROUNDS && n == 8 && i + 11 <= file.len() {
            let r = u64::from_le_bytes(file[i + 3..i + 11].try_into().unwrap());
            if r > MAX_ROUNDS {
                return false;
            }
        }
        i += 3 + n;
    }
    true
}

/// One change to a byte string.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    /// position (scaled), mask
    Xor(u32, u8),
    Set(u32, u8),
    Insert(u32, Bytes),
    Delete(u32, u32),
    Truncate(u32),
    Append(Bytes),
    /// swap two 16-byte blocks counted from the given base
    Swap(u32, u32),
    Dup(u32, u32),
}

pub fn edit() -> BoxedStrategy<Edit> {
    use Edit::*;
    prop_oneof![
        4 => (any::<u32>(), 0u32..8).prop_map(|(p, b)| Xor(p, 1 << b)),
        2 => (any::<u32>(), 1u8..=255).prop_map(|(p, m)| Xor(p, m)),
        2 => (any::<u32>(), prop_oneof![any::<u8>(), Just(0u8), Just(255u8), Just(1u8)]).prop_map(|(p, b)| Set(p, b)),
        1 => (any::<u32>(), proptest::collection::vec(any::<u8>(), 1..20)).prop_map(|(p, b)| Insert(p, Bytes(b))),
        1 => (any::<u32>(), prop_oneof![1u32..20, Just(16u32), Just(32u32)]).prop_map(|(p, n)| Delete(p, n)),
        2 => any::<u32>().prop_map(Truncate),
        1 => prop_oneof![proptest::collection::vec(any::<u8>(), 1..40), proptest::collection::vec(any::<u8>(), 16)].prop_map(|b| Append(Bytes(b))),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Swap(a, b)),
        1 => (any::<u32>(), prop_oneof![1u32..40, Just(16u32)]).prop_map(|(p, n)| Dup(p, n)),
    ]
    .boxed()
}

/// Maps a full-range number onto 0..n monotonically.
pub fn at(p: u32, n: usize) -> usize {
    ((p as u64 * n as u64) >> 32) as usize
}

impl Edit {
    /// Applies to `v[base..]`.
    pub fn apply(&self, v: &mut Vec<u8>, base: usize) {
        let n = v.len() - base;
        match self {
            Edit::Xor(p, m) if n > 0 => v[base + at(*p, n)] ^= m,
            Edit::Set(p, b) if n > 0 => v[base + at(*p, n)] = *b,
            Edit::Insert(p, b) => {
                let i = base + at(*p, n + 1);
                v.splice(i..i, b.0.iter().copied());
            }
            Edit::Delete(p, c) => {
                let i = base + at(*p, n + 1);
                let e = (i + *c as usize).min(v.len());
                v.drain(i..e);
            }
            Edit::Truncate(p) => v.truncate(base + at(*p, n + 1)),
            Edit::Append(b) => v.extend_from_slice(&b.0),
            Edit::Swap(a, b) if n >= 32 => {
                let k = n / 16;
                let (x, y) = (at(*a, k) * 16 + base, at(*b, k) * 16 + base);
                for i in 0..16 {
                    v.swap(x + i, y + i);
                }
            }
            Edit::Dup(p, c) => {
                let i = base + at(*p, n + 1);
                let e = (i + *c as usize).min(v.len());
                let d = v[i..e].to_vec();
                v.splice(i..i, d);
            }
            _ => {}
        }
    }
}

/// Boxes a lane.
pub fn lane<T>(name: &'static str, quick: u64, thorough: u64, strat: fn() -> BoxedStrategy<T>, check: fn(&T, &mut Obs) -> Check) -> Box<dyn crate::runner::DynLane>
where
    T: std::fmt::Debug + Clone + Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    Box::new(Lane { name, quick, thorough, strat, check })
}

/// A chain of groups, with something beside it on some levels.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Chain {
    pub depth: u32,
    /// every so many levels (0: never)
    pub entries: u8,
    pub siblings: u8,
    pub gzip: bool,
}

pub fn chain(depth: BoxedStrategy<u32>) -> BoxedStrategy<Chain> {
    (depth, 0u8..20, 0u8..20, any::<bool>()).prop_map(|(depth, entries, siblings, gzip)| Chain { depth, entries, siblings, gzip }).boxed()
}

impl Chain {
    pub fn db(&self) -> MDb {
        let mut g = MGroup::blank(gen::nid(self.depth), &format!("level {}", self.depth));
        for i in (1..self.depth).rev() {
            let mut p = MGroup::blank(gen::nid(i), &format!("level {}", i));
            if self.entries > 0 && i % self.entries as u32 == 0 {
                let mut e = MEntry::blank(gen::nid(1_000_000 + i));
                e.set("Title", &format!("entry {}", i), false);
                e.set("Password", &format!("password {}", i), true);
                p.entries.push(e);
            }
            if self.siblings > 0 && i % self.siblings as u32 == 0 {
                p.groups.push(MGroup::blank(gen::nid(2_000_000 + i), "before"));
            }
            p.groups.push(g);
            if self.siblings > 0 && i % self.siblings as u32 == 1 {
                p.groups.push(MGroup::blank(gen::nid(3_000_000 + i), "after"));
            }
            g = p;
        }
        MDb { root: g, gzip: self.gzip, rounds: 1, ..MDb::blank() }
    }
}

/// Runs on a thread with the stack std gives a thread.
pub fn small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || guard(f)).expect("thread").join().expect("guarded"));
    match r {
        Ok(r) => r,
        Err(p) => panic!("{}", p),
    }
}
