//! Freshness of everything random.

use super::common::*;
use crate::ensure;
use crate::kdbx::Salts;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    db: MDb,
    creds: MCreds,
    /// saves of the same database in a row
    saves: u16,
    /// continue on the reopened database every so many saves
    reopen: u8,
    /// another database (and key) in between
    other: bool,
    entropy: u64,
}

fn strat() -> BoxedStrategy<Case> {
    (gen::small_db(), gen::creds(), 2u16..24, 0u8..5, any::<bool>(), any::<u64>())
        .prop_map(|(mut db, creds, saves, reopen, other, entropy)| {
            db.rounds = db.rounds.min(1);
            Case { db, creds, saves, reopen, other, entropy }
        })
        .boxed()
}

fn many() -> BoxedStrategy<Case> {
    (gen::creds(), any::<u64>())
        .prop_map(|(creds, entropy)| Case { db: MDb { rounds: 0, ..MDb::blank() }, creds, saves: 400, reopen: 0, other: false, entropy })
        .boxed()
}

fn named(s: &Salts) -> [(&'static str, &[u8]); 5] {
    [
        ("master seed", &s.master_seed),
        ("transform seed", &s.transform_seed),
        ("initialization vector", &s.iv),
        ("protected stream key", &s.stream_key),
        ("stream start bytes", &s.start),
    ]
}

fn collect(case: &Case, n: usize, files: &mut Vec<Vec<u8>>) -> Res<Vec<Salts>> {
    let mut out = Vec::new();
    let mut d = conv::database(&case.db, &case.creds);
    let other = conv::database(&MDb::blank(), &MCreds::pw("x"));
    for i in 0..n {
        let f = save(&d)?;
        out.push(kdbx::Header::parse(&f)?.0.salts()?);
        if case.other {
            let f = save(&other)?;
            out.push(kdbx::Header::parse(&f)?.0.salts()?);
        }
        if case.reopen > 0 && i % case.reopen as usize == 0 {
            d = open_ok(&f, &case.creds)?;
        }
        files.push(f);
    }
    Ok(out)
}

fn check(case: &Case, o: &mut Obs) -> Check {
    crate::rng::seed(case.entropy);
    let mut files = Vec::new();
    let all = collect(case, case.saves as usize, &mut files)?;
    o.nontrivial = true;
    o.evals = all.len() as u64 + 1;
    o.class_if(case.reopen > 0, "reopened in between");
    o.class_if(case.other, "another database in between");
    let seen = windows(&all)?;
    derived(&all, &case.creds, &seen)?;
    if all.len() >= 100 {
        o.class(">= 100 saves");
        bits(&all)?;
        let joined: Vec<Vec<u8>> = all.iter().map(|s| named(s).concat2()).collect();
        equal_bytes("the random values of a save", &joined)?;
        for f in 0..5 {
            values(named(&all[0])[f].0, all.iter().map(|s| named(s)[f].1))?;
        }
    }
    // the encrypted payloads share no block
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    if files.len() <= 30 {
        for (i, f) in files.iter().enumerate() {
            let (_, n) = kdbx::Header::parse(f)?;
            for b in f[n..].chunks(16) {
                if let Some(j) = seen.insert(b.to_vec(), i) {
                    return Err(format!("saves {} and {} share an encrypted block", j, i));
                }
            }
        }
    }
    // same content, other entropy: every part of every value changes
    crate::rng::seed(case.entropy ^ 0x5555_5555_0000_1111);
    let again = collect(case, 1, &mut Vec::new())?;
    for ((name, a), (_, b)) in named(&all[0]).iter().zip(named(&again[0]).iter()) {
        for (k, (x, y)) in a.chunks(8).zip(b.chunks(8)).enumerate() {
            ensure!(x != y, "bytes {}.. of the {} do not depend on the system's randomness", k * 8, name);
        }
    }
    Ok(())
}

/// No 8-byte part of any value occurs twice, in whatever field or save.
fn windows(all: &[Salts]) -> Res<Seen> {
    let mut seen: Seen = HashMap::new();
    for (i, s) in all.iter().enumerate() {
        for (name, v) in named(s) {
            for (k, w) in v.windows(8).enumerate() {
                if let Some((j, n2, k2)) = seen.insert(w.try_into().unwrap(), (i, name, k)) {
                    return Err(format!("bytes {}.. of the {} of save {} repeat bytes {}.. of the {} of save {}", k, name, i, k2, n2, j));
                }
            }
        }
    }
    Ok(seen)
}

type Seen = HashMap<[u8; 8], (usize, &'static str, usize)>;

trait Concat2 {
    fn concat2(&self) -> Vec<u8>;
}

impl Concat2 for [(&'static str, &[u8]); 5] {
    fn concat2(&self) -> Vec<u8> {
        self.iter().flat_map(|f| f.1.iter().copied()).collect()
    }
}

/// No value is computed from another value of its save, from the one of the save before, or from
/// the credentials, by one of the functions at hand: a hash (once or twice), the complement,
/// reversal, or adding one.
fn derived(all: &[Salts], creds: &MCreds, seen: &Seen) -> Check {
    let look = |what: String, v: &[u8]| -> Check {
        for w in v.windows(8) {
            if w.iter().eq(w.iter().rev()) {
                continue;
            }
            if let Some((i, name, k)) = seen.get(<&[u8; 8]>::try_from(w).unwrap()) {
                return Err(format!("bytes {}.. of the {} of save {} are part of {}", k, name, i, what));
            }
        }
        Ok(())
    };
    for s in all.iter().take(40) {
        for (name, v) in named(s) {
            look(format!("the SHA-256 of a {}", name), &crate::crypto::sha256(&[v]))?;
            look(format!("the double SHA-256 of a {}", name), &crate::crypto::sha256(&[&crate::crypto::sha256(&[v])]))?;
            look(format!("the complement of a {}", name), &v.iter().map(|b| !b).collect::<Vec<_>>())?;
            look(format!("the reversal of a {}", name), &v.iter().rev().copied().collect::<Vec<_>>())?;
            for (n2, w) in named(s) {
                look(format!("the SHA-256 of a {} and a {}", name, n2), &crate::crypto::sha256(&[v, w]))?;
                let x: Vec<u8> = v.iter().zip(w).map(|(a, b)| a ^ b).collect();
                if name != n2 {
                    look(format!("the exclusive or of a {} and a {}", name, n2), &x)?;
                }
            }
        }
    }
    let key = creds.composite();
    look("the composite key".into(), &key)?;
    look("the SHA-256 of the composite key".into(), &crate::crypto::sha256(&[&key]))
}

/// Bytes at two places of a value agree by chance only: once in 256.
fn equal_bytes(what: &str, values: &[Vec<u8>]) -> Check {
    let n = values[0].len();
    let limit = values.len() as f64 / 256.0 + 8.0 * (values.len() as f64 / 256.0).sqrt() + 16.0;
    for i in 0..n {
        for j in i + 1..n {
            let same = values.iter().filter(|v| v[i] == v[j]).count();
            ensure!((same as f64) < limit, "bytes {} and {} of {} agree in {} of {}", i, j, what, same, values.len());
        }
    }
    Ok(())
}

/// Every byte value occurs about equally often.
fn values<'a>(what: &str, it: impl Iterator<Item = &'a [u8]>) -> Check {
    let mut count = [0usize; 256];
    let mut n = 0usize;
    for v in it {
        v.iter().for_each(|b| count[*b as usize] += 1);
        n += v.len();
    }
    let e = n as f64 / 256.0;
    if e < 24.0 {
        return Ok(());
    }
    for (b, c) in count.iter().enumerate() {
        ensure!((*c as f64 - e).abs() < 8.0 * e.sqrt() + 8.0 && *c > 0, "byte {:#04x} occurs {} times in {} bytes of the {}", b, c, n, what);
    }
    Ok(())
}

/// Every bit of every value takes both values about equally often (8 standard deviations).
fn bits(all: &[Salts]) -> Check {
    let n = all.len() as f64;
    for f in 0..5 {
        let len = named(&all[0])[f].1.len();
        for bit in 0..len * 8 {
            let ones = all.iter().filter(|s| named(s)[f].1[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
            ensure!((ones - n / 2.0).abs() < 8.0 * n.sqrt() / 2.0, "bit {} of the {} is set in {} of {} saves", bit, named(&all[0])[f].0, ones, n);
        }
    }
    Ok(())
}

// ------------------------------------------------------------- identifiers and keys

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Ids {
    n: u16,
    entropy: u64,
}

fn ids() -> BoxedStrategy<Ids> {
    (prop_oneof![4 => 2u16..60, 1 => Just(600u16)], any::<u64>()).prop_map(|(n, entropy)| Ids { n, entropy }).boxed()
}

fn check_ids(c: &Ids, o: &mut Obs) -> Check {
    crate::rng::seed(c.entropy);
    o.nontrivial = true;
    o.evals = c.n as u64 * 8;
    let make = || -> Res<(Vec<(&'static str, [u8; 16])>, Vec<(&'static str, Vec<u8>)>)> {
        let mut ids = Vec::new();
        let mut keys = Vec::new();
        let key = kpdb::CompositeKey::from_password("p");
        for i in 0..c.n {
            ids.push(("entry", *kpdb::Entry::new().uuid.0.as_bytes()));
            ids.push(("group", *kpdb::Group::new("same name").uuid.0.as_bytes()));
            ids.push(("entry id", *kpdb::EntryUuid::new_random().0.as_bytes()));
            ids.push(("group id", *kpdb::GroupUuid::new_random().0.as_bytes()));
            ids.push(("icon id", *kpdb::CustomIconUuid::new_random().0.as_bytes()));
            if i % 4 == 0 {
                ids.push(("root group", *kpdb::Database::new(&key).root_group.uuid.0.as_bytes()));
            }
            for (n, k) in [("xml key", kpdb::KeyFile::new_xml()), ("hex key", kpdb::KeyFile::new_hex()), ("binary key", kpdb::KeyFile::new_binary()), ("default key", kpdb::KeyFile::new())] {
                let k = k.map_err(|e| format!("{}: {:?}", n, e))?;
                keys.push((n, k.key.unsecure().to_vec()));
            }
        }
        Ok((ids, keys))
    };
    let (ids, keys) = make()?;
    let mut seen = HashMap::new();
    for (n, i) in &ids {
        ensure!(*i != [0; 16], "{} has the nil identifier", n);
        if let Some(m) = seen.insert(*i, *n) {
            return Err(format!("{} and {} have the same identifier", m, n));
        }
    }
    let mut seen = HashMap::new();
    for (n, k) in &keys {
        ensure!(k.len() == 32, "{} has {} bytes", n, k.len());
        for w in k.windows(8) {
            if let Some(m) = seen.insert(w.to_vec(), *n) {
                return Err(format!("part of a {} repeats in a {}", m, n));
            }
        }
    }
    // identifiers: 122 random bits; keys: all bits
    if ids.len() > 1500 {
        o.class("bit counts");
        for bit in 0..128 {
            if (48..52).contains(&bit) || (bit / 8 == 6 && bit % 8 >= 4) || (bit / 8 == 8 && bit % 8 >= 6) {
                continue;
            }
            balanced("identifiers", bit, ids.iter().map(|i| &i.1[..]))?;
        }
        for bit in 0..256 {
            balanced("keys", bit, keys.iter().map(|i| &i.1[..]))?;
        }
        equal_bytes("new keys", &keys.iter().map(|k| k.1.clone()).collect::<Vec<_>>())?;
        for kind in ["xml key", "hex key", "binary key", "default key"] {
            values(kind, keys.iter().filter(|k| k.0 == kind).map(|k| &k.1[..]))?;
        }
        let random: Vec<Vec<u8>> = ids.iter().map(|i| [&i.1[..6], &i.1[9..]].concat()).collect();
        equal_bytes("new identifiers", &random)?;
        values("new identifiers", random.iter().map(|i| &i[..]))?;
    }
    crate::rng::seed(c.entropy ^ 0x77);
    let (ids2, keys2) = make()?;
    for ((n, a), (_, b)) in ids.iter().zip(&ids2) {
        ensure!(a != b, "the identifier of a new {} does not depend on the system's randomness", n);
    }
    for ((n, a), (_, b)) in keys.iter().zip(&keys2) {
        ensure!(a.chunks(8).zip(b.chunks(8)).all(|(x, y)| x != y), "part of a new {} does not depend on the system's randomness", n);
    }
    Ok(())
}

fn balanced<'a>(what: &str, bit: usize, it: impl Iterator<Item = &'a [u8]>) -> Check {
    let (mut n, mut ones) = (0f64, 0f64);
    for v in it {
        n += 1.0;
        ones += (v[bit / 8] >> (bit % 8) & 1) as f64;
    }
    ensure!((ones - n / 2.0).abs() < 8.0 * n.sqrt() / 2.0, "bit {} of new {} is set in {} of {}", bit, what, ones, n);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "every case compares at least two saves (or several new identifiers and keys) with each other and with those of other system randomness",
        assumptions: &[
            "the operating system's randomness is good; it is replaced by a seeded generator inside a case",
            "statistical bounds at 8 standard deviations; random 8-byte coincidences are below 2^-30 over a run",
        ],
        lanes: vec![lane("saves", 800, 10_000, strat, check), lane("many-saves", 8, 60, many, check), lane("identifiers", 200, 2_000, ids, check_ids)],
    }
}
