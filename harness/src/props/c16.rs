//! Accessors.

use super::common::*;
use crate::ensure;
use kpdb::{Entry, StringKey, Times};
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Op {
    Notes(String),
    Password(String),
    Title(String),
    Url(String),
    Username(String),
    Other(String, String),
    /// put a value into the map directly
    Raw(String, MStr),
    /// a protected value that is not UTF-8
    RawBytes(String, Bytes),
    Remove(String),
}

fn op() -> BoxedStrategy<Op> {
    use Op::*;
    let t = gen::any_text;
    prop_oneof![
        2 => t().prop_map(Notes), 2 => t().prop_map(Password), 2 => t().prop_map(Title), 2 => t().prop_map(Url), 2 => t().prop_map(Username),
        3 => (gen::string_name(), t()).prop_map(|(a, b)| Other(a, b)),
        1 => (t().prop_map(gen::canonical_key), t()).prop_map(|(a, b)| Other(a, b)),
        2 => (gen::string_name(), t(), any::<bool>()).prop_map(|(a, v, p)| Raw(a, MStr { v, p })),
        1 => (gen::string_name(), vec(128u8..=255, 1..5).prop_filter("not UTF-8", |b| std::str::from_utf8(b).is_err())).prop_map(|(a, b)| RawBytes(a, Bytes(b))),
        1 => gen::string_name().prop_map(Remove),
    ]
    .boxed()
}

pub(super) type Case = (MEntry, Vec<Op>);

pub(super) fn entry_ops((m0, ops): &Case, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let mut e = conv::entry(&m);
    let mut broken: std::collections::BTreeSet<String> = Default::default();
    for op in ops {
        let mut put = |k: &str, v: &str, p: bool| {
            broken.remove(k);
            m.set(k, v, p);
        };
        match op {
            Op::Notes(s) => {
                e.set_notes(s.as_str());
                put("Notes", s, false);
            }
            Op::Password(s) => {
                e.set_password(s.clone());
                put("Password", s, true);
            }
            Op::Title(s) => {
                e.set_title(s.as_str());
                put("Title", s, false);
            }
            Op::Url(s) => {
                e.set_url(s.clone());
                put("URL", s, false);
            }
            Op::Username(s) => {
                e.set_username(s.as_str());
                put("UserName", s, false);
            }
            Op::Other(k, s) => {
                e.set_other(conv::string_key(k), s.as_str());
                put(k, s, false);
            }
            Op::Raw(k, v) => {
                e.strings.insert(conv::string_key(k), conv::string_value(v));
                put(k, &v.v, v.p);
            }
            Op::RawBytes(k, b) => {
                e.strings.insert(conv::string_key(k), kpdb::StringValue::Protected(secstr::SecStr::new(b.0.clone())));
                put(k, "", true);
                broken.insert(k.clone());
            }
            Op::Remove(k) => {
                e.strings.remove(&conv::string_key(k));
                m.strings.remove(k);
                broken.remove(k);
            }
        }
        // getters
        let want = |k: &str| if broken.contains(k) { None } else { m.strings.get(k).map(|s| s.v.as_str()) };
        for (name, got, key) in [
            ("notes", e.notes(), "Notes"),
            ("password", e.password(), "Password"),
            ("title", e.title(), "Title"),
            ("url", e.url(), "URL"),
            ("username", e.username(), "UserName"),
        ] {
            ensure!(got == want(key), "after {:?}: {}() is {:?} instead of {:?}", op, name, got, want(key));
            let other = e.other(conv::string_key(key));
            ensure!(other == want(key), "after {:?}: other({}) is {:?} instead of {:?}", op, key, other, want(key));
        }
        for k in m.strings.keys() {
            let got = e.other(conv::string_key(k));
            ensure!(got == want(k), "after {:?}: other({:?}) is {:?} instead of {:?}", op, k, got, want(k));
        }
        ensure!(e.other(StringKey::Other("no such key".into())).is_none(), "other() of an absent key");
        // the whole entry
        let mut c = e.clone();
        for k in &broken {
            c.strings.insert(conv::string_key(k), conv::string_value(&MStr { v: String::new(), p: true }));
        }
        let got = conv::from_entry(&c)?;
        if got != m {
            let d = crate::model::diff_json("entry", &serde_json::to_value(&m).unwrap(), &serde_json::to_value(&got).unwrap());
            return Err(format!("after {:?}: {}", op, d.unwrap_or_default()));
        }
    }
    o.class_if(!broken.is_empty(), "protected value that is not UTF-8");
    o.class_if(ops.len() > 5, "> 5 operations");
    o.nontrivial = ops.len() >= 2;
    o.evals = ops.len() as u64;
    Ok(())
}

pub(super) fn estrat() -> BoxedStrategy<Case> {
    (prop_oneof![2 => gen::entry(), 1 => Just(MEntry::blank(Id([3; 16])))], vec(op(), 1..16)).boxed()
}

// ------------------------------------------------------------- times

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum T {
    Creation(MTime),
    Expiry(MTime),
    Access(MTime),
    Modified(MTime),
    Location(MTime),
    Expires(bool),
    Usage(i32),
}

fn t() -> BoxedStrategy<T> {
    let x = gen::extreme_time;
    prop_oneof![
        x().prop_map(T::Creation), x().prop_map(T::Expiry), x().prop_map(T::Access), x().prop_map(T::Modified), x().prop_map(T::Location),
        any::<bool>().prop_map(T::Expires), gen::num().prop_map(T::Usage),
    ]
    .boxed()
}

fn run_times<X: Times>(x: &mut X, m: &mut MTimes, ops: &[T], now: &dyn Fn(&X) -> Res<bool>) -> Check {
    let check = |x: &X, m: &MTimes, what: &str| -> Check {
        let got = MTimes {
            creation: conv::mtime(x.creation_time()),
            expiry: conv::mtime(x.expiry_time()),
            expires: x.expires(),
            access: conv::mtime(x.last_accessed()),
            modified: conv::mtime(x.last_modified()),
            location: conv::mtime(x.location_changed()),
            usage: x.usage_count(),
        };
        ensure!(got == *m, "{}: accessors give {:?} instead of {:?}", what, got, m);
        Ok(())
    };
    check(x, m, "at first")?;
    for op in ops {
        match op {
            T::Creation(t) => {
                x.set_creation_time(conv::time(*t));
                m.creation = *t;
            }
            T::Expiry(t) => {
                x.set_expiry_time(conv::time(*t));
                m.expiry = *t;
            }
            T::Access(t) => {
                x.set_last_accessed(conv::time(*t));
                m.access = *t;
            }
            T::Modified(t) => {
                x.set_last_modified(conv::time(*t));
                m.modified = *t;
            }
            T::Location(t) => {
                x.set_location_changed(conv::time(*t));
                m.location = *t;
            }
            T::Expires(b) => {
                x.set_expires(*b);
                m.expires = *b;
            }
            T::Usage(n) => {
                x.set_usage_count(*n);
                m.usage = *n;
            }
        }
        check(x, m, &format!("after {:?}", op))?;
        ensure!(now(x)?, "after {:?}: another field changed", op);
    }
    Ok(())
}

pub(super) type TCase = (MEntry, MGroup, Vec<T>);

fn time_ops((e0, g0, ops): &TCase, o: &mut Obs) -> Check {
    o.nontrivial = ops.len() >= 2;
    o.evals = ops.len() as u64 * 2;
    let mut e: Entry = conv::entry(e0);
    let mut t = e0.times.clone();
    run_times(&mut e, &mut t, ops, &|x| {
        let mut got = conv::from_entry(x)?;
        got.times = e0.times.clone();
        Ok(got == *e0)
    })?;
    ensure!(conv::from_entry(&e)?.times == t, "the fields of the entry differ from what the accessors set");
    let mut g = conv::group(g0);
    let mut t = g0.times.clone();
    run_times(&mut g, &mut t, ops, &|x| {
        let mut got = conv::from_group(x)?;
        got.times = g0.times.clone();
        Ok(got == *g0)
    })?;
    ensure!(conv::from_group(&g)?.times == t, "the fields of the group differ from what the accessors set");
    Ok(())
}

fn tstrat() -> BoxedStrategy<TCase> {
    (gen::entry(), gen::times(gen::time()), vec(t(), 1..12))
        .prop_map(|(e, times, ops)| (e.clone(), MGroup { times, entries: vec![e], ..MGroup::blank(Id([8; 16]), "g") }, ops))
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "at least two accessor calls in a row",
        assumptions: &["StringKey::Other never holds a case variant of a standard key", "a protected value that is not UTF-8 reads as absent"],
        lanes: vec![lane("strings", 5000, 100_000, estrat, entry_ops), lane("times", 2500, 40_000, tstrat, time_ops)],
    }
}
