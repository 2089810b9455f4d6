//! Identifiers, keys and small values.

use super::common::*;
use crate::ensure;
use kpdb::*;
use proptest::collection::vec;
use proptest::sample::select;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Equality is that of what the values hold; `held` gives it as a comparable value.
fn equality<T: PartialEq + Clone + Debug, H: PartialEq>(v: &[T], held: impl Fn(&T) -> H) -> Check {
    for a in v {
        for b in v {
            ensure!((a == b) == (held(a) == held(b)), "{:?} == {:?} is {}", a, b, a == b);
            ensure!((a != b) != (a == b), "{:?} and {:?} are both equal and unequal", a, b);
        }
        ensure!(a.clone() == *a, "the copy of {:?} differs", a);
        ensure!(held(&a.clone()) == held(a), "the copy of {:?} holds something else", a);
    }
    Ok(())
}

/// A total order that agrees with equality.
fn order<T: Ord + Clone + Debug>(v: &[T]) -> Check {
    for a in v {
        for b in v {
            let c = a.cmp(b);
            ensure!(a.partial_cmp(b) == Some(c), "{:?} and {:?}: partial_cmp {:?}, cmp {:?}", a, b, a.partial_cmp(b), c);
            ensure!(b.cmp(a) == c.reverse(), "{:?} and {:?}: cmp {:?} both ways", a, b, c);
            ensure!((c == Ordering::Equal) == (a == b), "{:?} and {:?}: cmp {:?}, == {}", a, b, c, a == b);
            ensure!((a < b) == (c == Ordering::Less) && (a > b) == (c == Ordering::Greater), "{:?} and {:?}: cmp {:?}, < {}, > {}", a, b, c, a < b, a > b);
            ensure!((a <= b) == (c != Ordering::Greater) && (a >= b) == (c != Ordering::Less), "{:?} and {:?}: cmp {:?}, <= {}, >= {}", a, b, c, a <= b, a >= b);
            for d in v {
                if c != Ordering::Greater && b.cmp(d) != Ordering::Greater {
                    ensure!(a.cmp(d) != Ordering::Greater, "{:?}, {:?} and {:?} are not in order", a, b, d);
                }
            }
        }
    }
    let mut s = v.to_vec();
    s.sort();
    ensure!(s.windows(2).all(|w| w[0] <= w[1]), "not sorted: {:?}", s);
    // tree maps find every value again
    let m: BTreeMap<T, usize> = v.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    for a in v {
        ensure!(m.get(a).map(|i| v[*i] == *a) == Some(true), "{:?} is not found in a BTreeMap", a);
    }
    let mut kinds: Vec<&T> = Vec::new();
    v.iter().for_each(|a| if !kinds.contains(&a) { kinds.push(a) });
    ensure!(v.iter().collect::<BTreeSet<_>>().len() == kinds.len(), "a BTreeSet of {:?} holds a different number", v);
    Ok(())
}

/// The order is that of what the values hold.
fn order_by<T: Ord + Debug, H: Ord>(v: &[T], held: impl Fn(&T) -> H) -> Check {
    for a in v {
        for b in v {
            ensure!(a.cmp(b) == held(a).cmp(&held(b)), "{:?} and {:?}: {:?}", a, b, a.cmp(b));
        }
    }
    Ok(())
}

fn one_hash<T: Hash>(a: &T) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

/// Equal values have equal hashes, and hash maps find every value again.
fn hashing<T: Hash + Eq + Clone + Debug>(v: &[T]) -> Check {
    for a in v {
        for b in v {
            ensure!(a != b || one_hash(a) == one_hash(b), "{:?} and {:?} are equal and have different hashes", a, b);
        }
    }
    let m: HashMap<T, usize> = v.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
    let mut kinds: Vec<&T> = Vec::new();
    for a in v {
        ensure!(m.get(a).map(|i| v[*i] == *a) == Some(true), "{:?} is not found in a HashMap", a);
        if !kinds.contains(&a) {
            kinds.push(a);
        }
    }
    ensure!(v.iter().collect::<HashSet<_>>().len() == kinds.len(), "a HashSet of {:?} holds a different number", v);
    Ok(())
}

/// Printed as the identifier it holds, whole and in the usual form.
fn printed<T: std::fmt::Display + Debug>(v: &[(T, uuid::Uuid)]) -> Check {
    for (a, u) in v {
        let s = a.to_string();
        ensure!(uuid::Uuid::parse_str(&s) == Ok(*u), "{:?} is printed as {:?}", a, s);
        let hex: String = u.as_bytes().iter().map(|b| format!("{:02x}", b)).collect();
        let form = [&hex[..8], &hex[8..12], &hex[12..16], &hex[16..20], &hex[20..]].join("-");
        ensure!(s == form, "{:?} is printed as {:?}, not {:?}", a, s, form);
    }
    Ok(())
}

type IdCase = Vec<Id>;

fn check_ids(ids: &IdCase, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let uuids: Vec<uuid::Uuid> = ids.iter().map(|i| conv::uuid(*i)).collect();
    let bytes = |u: &uuid::Uuid| *u.as_bytes();
    let e: Vec<EntryUuid> = uuids.iter().map(|u| EntryUuid(*u)).collect();
    equality(&e, |x| bytes(&x.0))?;
    order(&e)?;
    order_by(&e, |x| bytes(&x.0))?;
    hashing(&e)?;
    printed(&e.iter().map(|x| (*x, x.0)).collect::<Vec<_>>())?;
    let g: Vec<GroupUuid> = uuids.iter().map(|u| GroupUuid(*u)).collect();
    equality(&g, |x| bytes(&x.0))?;
    order(&g)?;
    order_by(&g, |x| bytes(&x.0))?;
    hashing(&g)?;
    printed(&g.iter().map(|x| (*x, x.0)).collect::<Vec<_>>())?;
    let i: Vec<CustomIconUuid> = uuids.iter().map(|u| CustomIconUuid(*u)).collect();
    equality(&i, |x| bytes(&x.0))?;
    hashing(&i)?;
    ensure!(EntryUuid::nil() == EntryUuid::default() && EntryUuid::nil().0.is_nil(), "the nil entry identifier is {}", EntryUuid::nil());
    ensure!(GroupUuid::nil() == GroupUuid::default() && GroupUuid::nil().0.is_nil(), "the nil group identifier is {}", GroupUuid::nil());
    ensure!(CustomIconUuid::nil() == CustomIconUuid::default() && CustomIconUuid::nil().0.is_nil(), "the nil icon identifier is {:?}", CustomIconUuid::nil());
    let mut s = uuids.clone();
    s.sort();
    s.dedup();
    o.class_if(s.len() < uuids.len(), "equal identifiers");
    o.class_if(s.len() > 1, "different identifiers");
    o.evals = (ids.len() * ids.len()) as u64;
    Ok(())
}

fn ids() -> BoxedStrategy<IdCase> {
    let one = prop_oneof![2 => gen::id(), 2 => (0u8..4).prop_map(gen::small_id)].boxed();
    prop_oneof![
        2 => vec(one.clone(), 1..9),
        // differing in one byte or bit, or permuted
        3 => (one, vec((0u8..16, any::<u8>(), 0u8..4), 1..8)).prop_map(|(i, ch)| {
            let mut v = vec![i];
            for (p, x, k) in ch {
                let mut j = i;
                let b = &mut j.0;
                match k {
                    0 => b[p as usize] = x,
                    1 => b[p as usize] ^= 1 << (x % 8),
                    2 => b.rotate_left(p as usize),
                    _ => b.swap(p as usize, x as usize % 16),
                }
                v.push(j);
            }
            v
        }),
    ]
    .boxed()
}

fn check_texts(v: &Vec<(String, String)>, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let a: Vec<BinaryId> = v.iter().map(|x| BinaryId(x.0.clone())).collect();
    equality(&a, |x| x.0.clone())?;
    order(&a)?;
    order_by(&a, |x| x.0.clone())?;
    hashing(&a)?;
    let a: Vec<BinaryKey> = v.iter().map(|x| BinaryKey(x.0.clone())).collect();
    equality(&a, |x| x.0.clone())?;
    order(&a)?;
    order_by(&a, |x| x.0.clone())?;
    hashing(&a)?;
    let a: Vec<Comment> = v.iter().map(|x| Comment(x.0.clone().into_bytes())).collect();
    equality(&a, |x| x.0.clone())?;
    order(&a)?;
    order_by(&a, |x| x.0.clone())?;
    let a: Vec<Association> = v.iter().map(|x| Association { keystroke_sequence: x.0.clone(), window: x.1.clone() }).collect();
    equality(&a, |x| (x.keystroke_sequence.clone(), x.window.clone()))?;
    order(&a)?;
    // the five standard names and others, also ones that read like a standard one
    let mut a: Vec<StringKey> = v.iter().map(|x| StringKey::from_string(&x.0)).collect();
    a.extend(v.iter().take(4).map(|x| StringKey::Other(x.1.clone())));
    a.extend([StringKey::Title, StringKey::Notes, StringKey::Password, StringKey::Url, StringKey::Username]);
    let held = |k: &StringKey| match k {
        StringKey::Notes => (1, String::new()),
        StringKey::Password => (2, String::new()),
        StringKey::Title => (3, String::new()),
        StringKey::Url => (4, String::new()),
        StringKey::Username => (5, String::new()),
        StringKey::Other(s) => (6, s.clone()),
    };
    equality(&a, held)?;
    order(&a)?;
    hashing(&a)?;
    o.evals = (a.len() * a.len()) as u64;
    Ok(())
}

fn texts() -> BoxedStrategy<Vec<(String, String)>> {
    let one = prop_oneof![2 => gen::any_text(), 2 => gen::string_name(), 1 => select(vec!["", "a", "A", "a ", "aa", "0", "1", "01", "10", "Title", "title", "TITLE", "Notes", "URL", "é", "e\u{301}"]).prop_map(String::from)].boxed();
    vec((one.clone(), one), 1..7).boxed()
}

type NumCase = Vec<(u64, u16, u16, [u8; 3])>;

fn check_nums(v: &NumCase, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let a: Vec<TransformRounds> = v.iter().map(|x| TransformRounds(x.0)).collect();
    equality(&a, |x| x.0)?;
    order(&a)?;
    order_by(&a, |x| x.0)?;
    let a: Vec<Version> = v.iter().map(|x| Version { major: x.1, minor: x.2 }).collect();
    equality(&a, |x| (x.major, x.minor))?;
    order(&a)?;
    order_by(&a, |x| (x.major, x.minor))?;
    let a: Vec<Color> = v.iter().map(|x| Color { red: x.3[0], green: x.3[1], blue: x.3[2] }).collect();
    equality(&a, |x| (x.red, x.green, x.blue))?;
    order(&a)?;
    let a: Vec<Icon> = v.iter().filter_map(|x| Icon::from_i32((x.0 % 69) as i32).ok()).collect();
    equality(&a, |x| x.to_i32())?;
    order(&a)?;
    hashing(&a)?;
    let a: Vec<Obfuscation> = v.iter().filter_map(|x| Obfuscation::from_i32((x.0 % 2) as i32).ok()).collect();
    equality(&a, |x| x.to_i32())?;
    order(&a)?;
    hashing(&a)?;
    o.evals = (v.len() * v.len()) as u64;
    Ok(())
}

fn nums() -> BoxedStrategy<NumCase> {
    let n = prop_oneof![2 => 0u64..70, 1 => any::<u64>(), 1 => select(vec![0, 1, u64::MAX, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, 6000])];
    let s = || prop_oneof![2 => 0u16..4, 1 => any::<u16>(), 1 => select(vec![0u16, 1, 255, 256, 257, u16::MAX])];
    let c = || prop_oneof![2 => 0u8..2, 1 => any::<u8>()];
    vec((n, s(), s(), [c(), c(), c()]), 1..8).boxed()
}

/// All values of the small types at once.
fn check_all(_: &(), o: &mut Obs) -> Check {
    o.nontrivial = true;
    let icons: Vec<Icon> = (0..69).map(|i| Icon::from_i32(i).map_err(|e| format!("icon {}: {}", i, e))).collect::<Res<Vec<_>>>()?;
    equality(&icons, |x| x.to_i32())?;
    order(&icons)?;
    hashing(&icons)?;
    let all = [Compression::None, Compression::GZip];
    equality(&all, |x| matches!(x, Compression::GZip))?;
    order(&all)?;
    let all = [DbType::Kdb1, DbType::Kdb2];
    equality(&all, |x| matches!(x, DbType::Kdb2))?;
    order(&all)?;
    let all = [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml];
    equality(&all, |x| match x {
        KeyFileType::Binary => 0,
        KeyFileType::Hex => 1,
        KeyFileType::Xml => 2,
    })?;
    order(&all)?;
    order(&[MasterCipher::Aes256])?;
    order(&[StreamCipher::Salsa20])?;
    order(&[Obfuscation::None, Obfuscation::UseClipboard])?;
    ensure!(Obfuscation::None != Obfuscation::UseClipboard, "the obfuscations are equal");
    o.evals = 69 * 69;
    Ok(())
}

fn all(_: Tier) -> Vec<()> {
    vec![()]
}

/// Identifiers in use: trees of objects found and sorted by them.
fn check_use(m: &MDb, o: &mut Obs) -> Check {
    let d = conv::database(m, &MCreds::pw("x"));
    let mut entries: HashMap<EntryUuid, usize> = HashMap::new();
    let mut groups: BTreeMap<GroupUuid, usize> = BTreeMap::new();
    let (mut es, mut gs): (BTreeMap<Id, usize>, BTreeMap<Id, usize>) = Default::default();
    for g in d.root_group.iter() {
        *groups.entry(g.uuid).or_default() += 1;
        g.entries.iter().for_each(|e| *entries.entry(e.uuid).or_default() += 1);
    }
    for g in m.root.bfs() {
        *gs.entry(g.uuid).or_default() += 1;
        g.entries.iter().for_each(|e| *es.entry(e.uuid).or_default() += 1);
    }
    o.nontrivial = gs.len() > 1 || es.len() > 1;
    ensure!(groups.len() == gs.len() && gs.iter().all(|(i, n)| groups.get(&conv::gid(*i)) == Some(n)), "groups counted by identifier: {:?}, not {:?}", groups, gs);
    ensure!(entries.len() == es.len() && es.iter().all(|(i, n)| entries.get(&conv::eid(*i)) == Some(n)), "entries counted by identifier: {:?}, not {:?}", entries, es);
    let listed: Vec<Id> = groups.keys().map(|u| conv::id(&u.0)).collect();
    ensure!(listed.windows(2).all(|w| w[0].0 < w[1].0), "groups sorted by identifier: {:?}", listed);
    Ok(())
}

fn dbs() -> BoxedStrategy<MDb> {
    prop_oneof![1 => gen::db(), 2 => gen::small_db()].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C31",
        rule: "values were compared, or a tree with more than one group or entry was listed",
        assumptions: &["of colours, associations, string keys, icons and the other enumerations the order itself is not specified, only that it is one"],
        lanes: vec![
            lane("identifiers", 6000, 200_000, ids, check_ids),
            lane("texts", 5000, 100_000, texts, check_texts),
            lane("numbers", 5000, 100_000, nums, check_nums),
            Box::new(EnumLane { name: "enumerations", cases: all, check: check_all }),
            lane("in-use", 800, 15_000, dbs, check_use),
        ],
    }
}
