//! Searches.

use super::common::*;
use super::tree::*;
use crate::ensure;
use proptest::collection::vec;
use proptest::sample::select;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Query {
    Text(String),
    Empty,
    /// a piece (start, length) of the n-th text of the tree, recased
    Piece(u32, u32, u32, u8),
}

fn query() -> BoxedStrategy<Query> {
    prop_oneof![
        2 => gen::any_text().prop_map(Query::Text),
        2 => select(vec!["a", "A", "ot", "Σ", "ς", "σ", "ss", "ß", "ẞ", "i", "I", "İ", "ı", "K", "é", "É", "e\u{301}", " ", "о", "Ⱥ", "ⱥ", "ȾȺ", "İİ", "K", "Ω", "å", "ΟΔΟΣ", "οδος", "dž", "ﬁ", "日"]).prop_map(|s| Query::Text(s.into())),
        1 => Just(Query::Empty),
        9 => (any::<u32>(), any::<u32>(), any::<u32>(), 0u8..4).prop_map(|(a, b, c, d)| Query::Piece(a, b, c, d)),
    ]
    .boxed()
}

fn texts(m: &MDb) -> Vec<String> {
    let mut v: Vec<String> = m.root.bfs().iter().map(|g| g.name.clone()).collect();
    m.root.walk_entries(true, &mut |e| v.extend(e.strings.values().map(|s| s.v.clone())));
    v.retain(|s| !s.is_empty());
    v
}

impl Query {
    fn text(&self, ts: &[String]) -> String {
        match self {
            Query::Text(s) => s.clone(),
            Query::Empty => String::new(),
            Query::Piece(i, s, n, case) => {
                if ts.is_empty() {
                    return "x".into();
                }
                let t: Vec<char> = ts[at(*i, ts.len())].chars().collect();
                let a = at(*s, t.len());
                let b = a + 1 + at(*n, t.len() - a);
                let p: String = t[a..b.min(t.len())].iter().collect();
                // sometimes the whole text
                let p = if s % 4 == 0 { t.iter().collect() } else { p };
                match case {
                    0 => p,
                    1 => p.to_lowercase(),
                    2 => p.to_uppercase(),
                    _ => p.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                }
            }
        }
    }
}

/// Lower case, character by character.
fn lower(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}

/// A generous folding: texts that differ here differ under every notion of ignoring case.
fn fold(s: &str) -> String {
    let once = |s: &str| -> String { s.chars().flat_map(|c| c.to_uppercase()).collect::<String>().chars().flat_map(|c| c.to_lowercase()).collect() };
    once(&once(s)).chars().map(|c| match c { 'ς' => 'σ', 'ı' => 'i', c => c }).filter(|c| *c != '\u{307}').collect()
}

/// Some(must match) or None where notions of case differ.
fn oracle(hay: &str, needle: &str) -> Option<bool> {
    if lower(hay).contains(&lower(needle)) || hay.contains(needle) {
        Some(true)
    } else if !fold(hay).contains(&fold(needle)) {
        Some(false)
    } else {
        None
    }
}

fn entry_matches(e: &kpdb::Entry, q: &str) -> Option<bool> {
    let mut r = Some(false);
    for v in e.strings.values() {
        if let kpdb::StringValue::Plain(s) = v {
            match oracle(s, q) {
                Some(true) => return Some(true),
                None => r = None,
                _ => {}
            }
        }
    }
    r
}

fn judge(what: &str, q: &str, all: &[(usize, Option<bool>, String)], got: &[usize]) -> Check {
    let mut seen = std::collections::HashSet::new();
    for g in got {
        ensure!(seen.insert(*g), "{}({:?}) returned an object twice", what, q);
        match all.iter().find(|(a, _, _)| a == g) {
            None => return Err(format!("{}({:?}) returned an object that is not a current one of the tree", what, q)),
            Some((_, Some(false), d)) => return Err(format!("{}({:?}) returned {} which does not match", what, q, d)),
            _ => {}
        }
    }
    for (a, m, d) in all {
        ensure!(*m != Some(true) || seen.contains(a), "{}({:?}) misses {}", what, q, d);
    }
    Ok(())
}

pub(super) type Case = (MDb, Vec<Query>);

pub(super) fn check((m, qs): &Case, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let mut d = conv::database(m, &c);
    let ts = texts(m);
    o.class_if(m.root.depth() > 2, "depth > 2");
    for q in qs {
        let q = q.text(&ts);
        o.class_if(q.is_empty(), "empty text");
        o.class_if(!q.is_ascii(), "non-ASCII text");
        let es: Vec<(usize, Option<bool>, String)> = entries(&d.root_group).iter().map(|e| (addr(*e), entry_matches(e, &q), format!("entry {:?}", e.strings))).collect();
        let gs: Vec<(usize, Option<bool>, String)> = groups(&d.root_group).iter().map(|g| (addr(*g), oracle(&g.name, &q), format!("group {:?}", g.name))).collect();
        let fe: Vec<usize> = d.find_entries(q.as_str()).into_iter().map(addr).collect();
        let fg: Vec<usize> = d.find_groups(q.as_str()).into_iter().map(addr).collect();
        judge("find_entries", &q, &es, &fe)?;
        judge("find_groups", &q, &gs, &fg)?;
        let hits = fe.len() + fg.len();
        o.nontrivial |= hits > 0 && hits < es.len() + gs.len();
        o.class_if(fe.len() > 1, "several entries found");
        o.class_if(fg.len() > 1, "several groups found");

        // mutable: the same objects in the same order, and edits reach exactly them
        let mut exp = conv::from_db(&d)?;
        {
            let found = d.find_entries_mut(q.as_str());
            let fm: Vec<usize> = found.iter().map(|e| addr(&**e)).collect();
            ensure!(fm == fe, "find_entries_mut({:?}) returns {} objects, find_entries {} (or another order)", q, fm.len(), fe.len());
            for e in found {
                e.tags.push('!');
                e.usage_count = e.usage_count.wrapping_add(1);
            }
        }
        {
            let found = d.find_groups_mut(q.as_str());
            let fm: Vec<usize> = found.iter().map(|g| addr(&**g)).collect();
            ensure!(fm == fg, "find_groups_mut({:?}) returns {} objects, find_groups {} (or another order)", q, fm.len(), fg.len());
            for g in found {
                g.notes.push('!');
            }
        }
        let order_e: Vec<bool> = es.iter().map(|(a, _, _)| fe.contains(a)).collect();
        let order_g: Vec<bool> = gs.iter().map(|(a, _, _)| fg.contains(a)).collect();
        mark(&mut exp.root, &order_e, &order_g);
        same("after editing the results", &exp, &conv::from_db(&d)?)?;
    }
    o.evals = qs.len() as u64 * 4;
    Ok(())
}

/// Applies the edits to the model, in the same level order.
fn mark(root: &mut MGroup, es: &[bool], gs: &[bool]) {
    let mut q: std::collections::VecDeque<&mut MGroup> = std::collections::VecDeque::new();
    q.push_back(root);
    let (mut i, mut k) = (0, 0);
    while let Some(g) = q.pop_front() {
        if gs[k] {
            g.notes.push('!');
        }
        k += 1;
        for e in &mut g.entries {
            if es[i] {
                e.tags.push('!');
                e.times.usage = e.times.usage.wrapping_add(1);
            }
            i += 1;
        }
        q.extend(g.groups.iter_mut());
    }
}

pub(super) fn strat() -> BoxedStrategy<Case> {
    (gen::db(), vec(query(), 1..8)).boxed()
}

/// Few letters, so that matches are frequent.
fn dense() -> BoxedStrategy<Case> {
    let t = || vec(
            prop_oneof![3 => select("aAbBéÉσςΣ ".chars().collect::<Vec<_>>()), 1 => select("ȺⱥȾⱦİiıßẞKkΩω".chars().collect::<Vec<_>>())],
            0..5,
        ).prop_map(|v| v.into_iter().collect::<String>());
    let e = move || {
        (proptest::collection::btree_map(gen::string_name(), (t(), any::<bool>()), 0..4), vec(t(), 0..2)).prop_map(|(s, h)| {
            let mut e = MEntry::blank(Id([5; 16]));
            for (k, (v, p)) in s {
                e.set(&k, &v, p);
            }
            for x in h {
                let mut y = MEntry::blank(Id([5; 16]));
                y.set("Title", &x, false);
                e.history.push(y);
            }
            e
        })
    };
    let leaf = (t(), vec(e(), 0..4)).prop_map(|(n, es)| {
        let mut g = MGroup::blank(Id([6; 16]), &n);
        g.entries = es;
        g
    });
    let tree = leaf.prop_recursive(4, 16, 4, move |inner| {
        (t(), vec(e(), 0..3), vec(inner, 0..4)).prop_map(|(n, es, gs)| {
            let mut g = MGroup::blank(Id([6; 16]), &n);
            g.entries = es;
            g.groups = gs;
            g
        })
    });
    (tree, vec(prop_oneof![t().prop_map(Query::Text), query()], 1..8)).prop_map(|(root, q)| (MDb { root, ..MDb::blank() }, q)).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "at least one search found something but not everything",
        assumptions: &[
            "ignoring case: equal lower case (character by character) must match; texts that differ under full upper/lower folding must not; in between either answer is accepted, but all four searches must agree",
        ],
        lanes: vec![lane("any", 1500, 30_000, strat, check), lane("dense", 6000, 100_000, dense, check)],
    }
}
