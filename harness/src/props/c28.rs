//! Comparison and copies.

use super::common::*;
use crate::ensure;
use proptest::collection::vec;
use serde_json::{json, Value};

/// One change somewhere in a value: which leaf, how.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Poke {
    leaf: u32,
    how: u8,
}

fn leaves(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            out.push(path.clone());
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                leaves(x, path, out);
                path.pop();
            }
        }
        Value::Object(m) => {
            out.push(path.clone());
            for (k, x) in m {
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
        _ => out.push(path.clone()),
    }
}

fn get<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            Value::Object(m) => m.get_mut(p).unwrap(),
            _ => unreachable!(),
        };
    }
    v
}

fn change_text(s: &str, how: u8) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = how as usize / 8 % c.len().max(1);
    match how % 8 {
        _ if c.is_empty() => return "x".into(),
        0 => c.push('x'),
        1 => c.push(' '),
        2 => drop(c.remove(i)),
        3 => c.insert(0, ' '),
        4 => c[i] = if c[i] == 'A' { 'B' } else { 'A' },
        5 => c[i] = if c[i].is_lowercase() { c[i].to_uppercase().next().unwrap() } else { c[i].to_lowercase().next().unwrap() },
        6 => c.reverse(),
        // still hex or base64 when it was
        _ => c[i] = if c[i] == '0' { '1' } else { '0' },
    }
    c.into_iter().collect()
}

/// The changed value, if the change makes sense there.
fn poke<T: Serialize + serde::de::DeserializeOwned>(v: &T, p: &Poke) -> Option<(T, String)> {
    let mut j = serde_json::to_value(v).unwrap();
    let mut all = Vec::new();
    leaves(&j, &mut Vec::new(), &mut all);
    // first the kind of place, then the place
    let mut kinds: std::collections::BTreeMap<Vec<String>, Vec<Vec<String>>> = Default::default();
    for l in all {
        let field = |s: &&String| s.len() > 1 && s.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') || matches!(s.as_str(), "Plain" | "Protected" | "Ref");
        kinds.entry(l.iter().filter(field).cloned().collect()).or_default().push(l);
    }
    let places = kinds.values().nth(p.leaf as usize % kinds.len())?;
    let path = places[(p.leaf >> 12) as usize % places.len()].clone();
    let name = path.iter().filter(|s| s.parse::<usize>().is_err()).cloned().collect::<Vec<_>>().join("/");
    let x = get(&mut j, &path);
    match x {
        Value::Bool(b) => *b = !*b,
        Value::Number(n) => {
            let n = n.as_i64()?;
            *x = json!(if n > 0 { n - 1 } else { n + 1 })
        }
        Value::String(s) => *x = json!(change_text(s, p.how)),
        Value::Null => {
            for c in [json!(true), json!([1, 2, 3]), json!("00000000000000000000000000000001"), json!("AAAA")] {
                *get(&mut j, &path) = c;
                if let Ok(t) = serde_json::from_value(j.clone()) {
                    return Some((t, name));
                }
            }
            return None;
        }
        Value::Array(a) => {
            if a.is_empty() {
                return None;
            }
            let i = p.how as usize % a.len();
            match p.how % 3 {
                0 => drop(a.remove(i)),
                1 => {
                    let e = a[i].clone();
                    a.push(e)
                }
                _ => a.reverse(),
            }
        }
        Value::Object(m) => {
            let k = m.keys().nth(p.how as usize / 4 % m.len().max(1))?.clone();
            let v = m.remove(&k)?;
            match p.how % 4 {
                0 => {}
                // from plain to protected and back
                1 if k == "Plain" => drop(m.insert("Protected".into(), v)),
                1 if k == "Protected" => drop(m.insert("Plain".into(), v)),
                1 | 2 => drop(m.insert(change_text(&k, p.how / 4), v)),
                _ => {
                    m.insert(change_text(&k, p.how / 4), v.clone());
                    m.insert(k, v);
                }
            }
        }
    }
    serde_json::from_value(j).ok().map(|t| (t, name))
}

fn sane(m: &MDb) -> bool {
    let mut ok = true;
    m.root.walk_entries(true, &mut |e| ok &= (0..=68).contains(&e.icon) && (0..=1).contains(&e.at_obf));
    ok && m.root.bfs().iter().all(|g| (0..=68).contains(&g.icon))
}

fn two<T: PartialEq>(a: &T, b: &T, equal: bool, what: &str) -> Check {
    ensure!((a == b) == equal && (b == a) == equal, "{}: compared {} although {}", what, if equal { "unequal" } else { "equal" }, if equal { "nothing differs" } else { "they differ" });
    ensure!((a != b) != equal, "{}: != disagrees with ==", what);
    Ok(())
}

type Case = (MDb, MCreds, Vec<Poke>);

/// Equality tells every difference and no other.
fn check_eq((m, c, pokes): &Case, o: &mut Obs) -> Check {
    let a = conv::unlinked(m, c);
    two(&a, &conv::unlinked(m, c), true, "the same content")?;
    let mut b = m.clone();
    let mut names = Vec::new();
    for p in pokes {
        if let Some((x, n)) = poke(&b, p).filter(|(x, _)| sane(x)) {
            b = x;
            names.push(n);
        }
    }
    o.nontrivial = b != *m;
    for n in names.iter() {
        // the innermost field; names of strings and the like are no fields
        if let Some(f) = n.split('/').rfind(|s| (3..25).contains(&s.len()) && s.bytes().all(|b| b.is_ascii_lowercase() || b == b'_')) {
            o.class(f);
        }
    }
    let names = names.join(", ");
    let db = conv::unlinked(&b, c);
    two(&a, &db, b == *m, &format!("databases differing in {}", names))?;
    two(&a.root_group, &db.root_group, b.root == m.root, &format!("root groups differing in {}", names))?;
    for (x, y) in m.root.bfs().iter().zip(b.root.bfs()) {
        two(&conv::group(x), &conv::group(y), *x == y, &format!("groups differing in {}", names))?;
        for (e, f) in x.entries.iter().zip(&y.entries) {
            two(&conv::entry(e), &conv::entry(f), e == f, &format!("entries differing in {}", names))?;
        }
    }
    Ok(())
}

fn eq_s() -> BoxedStrategy<Case> {
    let p = (any::<u32>(), any::<u8>()).prop_map(|(leaf, how)| Poke { leaf, how });
    (prop_oneof![1 => gen::small_db(), 2 => gen::db()], gen::creds(), vec(p, 1..3)).boxed()
}

/// The fields the model has no place for, and keys.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Other {
    id: Id,
    a: MCreds,
    b: MCreds,
    k: MKeyFile,
    bit: u16,
    ty: u8,
}

fn check_other(x: &Other, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let other = if x.id == Id::default() { Id([1; 16]) } else { x.id };
    let (mut e, mut g) = (kpdb::Entry::default(), kpdb::Group::default());
    let (e0, g0) = (e.clone(), g.clone());
    e.parent = conv::gid(other);
    g.parent = conv::gid(other);
    two(&e0, &e, false, "entries with different parents")?;
    two(&g0, &g, false, "groups with different parents")?;
    let equal = x.a.composite() == x.b.composite();
    o.class_if(equal, "equal credentials");
    two(&conv::key(&x.a), &conv::key(&x.b), equal, "composite keys")?;
    let (da, mut db) = (kpdb::Database::new(&conv::key(&x.a)), kpdb::Database::new(&conv::key(&x.a)));
    ensure!(da != db, "two new databases are equal, identifiers and all");
    db = da.clone();
    two(&da, &db, true, "a clone")?;
    db.composite_key = conv::key(&x.b);
    two(&da, &db, equal, "databases with different keys")?;
    db = da.clone();
    db.db_type = kpdb::DbType::Kdb1;
    two(&da, &db, false, "databases of different types")?;
    let k = conv::key_file(&x.k);
    let mut y = x.k.clone();
    if y.key.0.is_empty() {
        y.key.0.push(0);
    } else {
        let n = x.bit as usize % (y.key.0.len() * 8);
        y.key.0[n / 8] ^= 1 << (n % 8);
    }
    two(&k, &conv::key_file(&y), false, "key files with different keys")?;
    let mut y = x.k.clone();
    y.ty = [KfType::Binary, KfType::Hex, KfType::Xml][x.ty as usize % 3].clone();
    two(&k, &conv::key_file(&y), y.ty == x.k.ty, "key files of different types")?;
    two(&k, &k.clone(), true, "a key file's clone")
}

fn other_s() -> BoxedStrategy<Other> {
    (gen::id(), gen::creds(), gen::creds(), gen::key_file(), any::<u16>(), any::<u8>(), any::<bool>())
        .prop_map(|(id, a, b, k, bit, ty, alike)| Other { id, b: if alike { a.clone() } else { b }, a, k, bit, ty })
        .boxed()
}

/// A copy has the same content and is independent.
fn check_clone((m, c, pokes): &Case, o: &mut Obs) -> Check {
    let mut a = conv::unlinked(m, c);
    o.nontrivial = features(m, o) >= 4;
    let b = a.clone();
    two(&a, &b, true, "a clone")?;
    same("a clone", m, &conv::from_db(&b)?)?;
    ensure!(a.composite_key.unsecure() == b.composite_key.unsecure(), "a clone has another key");
    let e = a.root_group.clone();
    // change one of the two in place, everywhere
    let touch = |d: &mut kpdb::Database| {
        d.name.push('!');
        d.custom_data.insert("!".into(), "!".into());
        d.binaries.values_mut().for_each(|v| v.push(1));
        d.custom_icons.values_mut().for_each(|v| v.push(1));
        d.comment.iter_mut().for_each(|c| drop(c.0.pop()));
        for g in d.root_group.iter_mut() {
            g.name.push('!');
            g.expires = !g.expires;
            for e in &mut g.entries {
                e.set_title("changed");
                e.set_password("changed");
                e.strings.values_mut().for_each(|v| {
                    if let kpdb::StringValue::Plain(s) = v {
                        s.push('!')
                    }
                });
                e.history.clear();
                e.associations.clear();
                for b in e.binaries.values_mut() {
                    if let kpdb::BinaryValue::Plain(v) = b {
                        v.push(1)
                    }
                }
            }
        }
        d.root_group.add_group(kpdb::Group::new("added"));
    };
    touch(&mut a);
    same("the clone after the original was changed", m, &conv::from_db(&b)?)?;
    let saved = {
        let mut w = Vec::new();
        a.save(&mut w).map_err(|e| format!("save failed: {:?}", e))?;
        w
    };
    drop(a);
    same("the clone after the original was dropped", m, &conv::from_db(&b)?)?;
    let mut again = b.clone();
    touch(&mut again);
    drop(b);
    drop(saved);
    two(&e, &conv::group(&m.root), true, "a clone of the root group")?;
    // clones of parts
    for g in m.root.bfs() {
        for x in &g.entries {
            let k = conv::entry(x);
            let y = k.clone();
            two(&k, &y, true, "an entry's clone")?;
            drop(k);
            ensure!(conv::from_entry(&y)? == *x, "an entry's clone differs");
        }
    }
    // both sides of any later change
    if let Some((x, n)) = pokes.first().and_then(|p| poke(m, p)).filter(|(x, _)| sane(x)) {
        let d = conv::unlinked(&x, c);
        let e = d.clone();
        two(&d, &e, true, &format!("a clone of a database with another {}", n))?;
        same("a clone", &x, &conv::from_db(&e)?)?;
    }
    Ok(())
}

fn clone_s() -> BoxedStrategy<Case> {
    let p = (any::<u32>(), any::<u8>()).prop_map(|(leaf, how)| Poke { leaf, how });
    (prop_oneof![3 => gen::small_db(), 1 => gen::db()], gen::creds(), vec(p, 1..2)).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "equality: the change made a difference; copies: the database exercises four features or more; keys and links: all",
        assumptions: &["DateTime, Uuid and SecStr compare as their crates document"],
        lanes: vec![
            lane("equality", 8000, 300_000, eq_s, check_eq),
            lane("keys-and-links", 1500, 50_000, other_s, check_other),
            lane("copies", 1200, 50_000, clone_s, check_clone),
        ],
    }
}
