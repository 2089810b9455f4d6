//! Lookup by identifier.

use super::common::*;
use super::tree::*;
use crate::ensure;
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Ask {
    Id(Id),
    /// the identifier of the n-th group / entry / history item, perhaps with one bit changed
    Group(u32, Option<u8>),
    Entry(u32, Option<u8>),
    History(u32),
}

fn ask() -> BoxedStrategy<Ask> {
    let bit = || prop_oneof![2 => Just(None), 1 => (0u8..128).prop_map(Some)];
    prop_oneof![
        2 => gen::id().prop_map(Ask::Id),
        4 => (any::<u32>(), bit()).prop_map(|(a, b)| Ask::Group(a, b)),
        4 => (any::<u32>(), bit()).prop_map(|(a, b)| Ask::Entry(a, b)),
        1 => any::<u32>().prop_map(Ask::History),
    ]
    .boxed()
}

type Case = (MDb, Vec<Ask>);

fn check((m, asks): &Case, o: &mut Obs) -> Check {
    let mut d = conv::database(m, &MCreds::pw("p"));
    o.class_if(m.root.depth() > 3, "depth > 3");
    for (step, a) in asks.iter().enumerate() {
        let gids: Vec<Id> = groups(&d.root_group).iter().map(|g| conv::id(&g.uuid.0)).collect();
        let es: Vec<(Id, Vec<Id>)> = entries(&d.root_group).iter().map(|e| (conv::id(&e.uuid.0), e.history.iter().map(|h| conv::id(&h.uuid.0)).collect())).collect();
        let hist: Vec<Id> = es.iter().flat_map(|e| e.1.clone()).collect();
        let flip = |i: Id, b: &Option<u8>| {
            let mut i = i;
            if let Some(b) = b {
                i.0[*b as usize / 8] ^= 1 << (b % 8);
            }
            i
        };
        let want = match a {
            Ask::Id(i) => *i,
            Ask::Group(n, b) => flip(gids[at(*n, gids.len())], b),
            Ask::Entry(n, b) if !es.is_empty() => flip(es[at(*n, es.len())].0, b),
            Ask::History(n) if !hist.is_empty() => hist[at(*n, hist.len())],
            _ => Id([1; 16]),
        };
        let has_e = es.iter().any(|e| e.0 == want);
        let has_g = gids.contains(&want);
        o.nontrivial |= has_e || has_g;
        o.class(match (has_e, has_g) {
            (true, true) => "both an entry and a group",
            (true, false) => "an entry",
            (false, true) => "a group",
            _ => "nothing",
        });
        o.class_if(hist.contains(&want) && !has_e, "only in history");
        let ea: Vec<usize> = entries(&d.root_group).iter().map(|e| addr(*e)).collect();
        let ga: Vec<usize> = groups(&d.root_group).iter().map(|g| addr(*g)).collect();
        o.class_if(es.iter().filter(|e| e.0 == want).count() > 1 || gids.iter().filter(|i| **i == want).count() > 1, "identifier used twice");

        let e = d.get_entry(conv::eid(want));
        ensure!(e.is_some() == has_e, "get_entry({:?}) is_some = {}, but the tree {} such an entry", want, e.is_some(), if has_e { "holds" } else { "does not hold" });
        let epos = match e {
            None => None,
            Some(e) => {
                ensure!(conv::id(&e.uuid.0) == want, "get_entry({:?}) returned entry {}", want, e.uuid.0);
                Some(ea.iter().position(|x| *x == addr(e)).ok_or("get_entry returned an entry that is not a current one")?)
            }
        };
        let g = d.get_group(conv::gid(want));
        ensure!(g.is_some() == has_g, "get_group({:?}) is_some = {}, but the tree {} such a group", want, g.is_some(), if has_g { "holds" } else { "does not hold" });
        let gpos = match g {
            None => None,
            Some(g) => {
                ensure!(conv::id(&g.uuid.0) == want, "get_group({:?}) returned group {}", want, g.uuid.0);
                Some(ga.iter().position(|x| *x == addr(g)).ok_or("get_group returned a group that is not in the tree")?)
            }
        };
        // mutable: the same object, and a change is visible there and nowhere else
        let mut exp = conv::from_db(&d)?;
        let tag = format!("edit {}", step);
        match d.get_entry_mut(conv::eid(want)) {
            None => ensure!(epos.is_none(), "get_entry_mut({:?}) finds nothing, get_entry does", want),
            Some(e) => {
                ensure!(epos.is_some_and(|p| ea[p] == addr(e)), "get_entry_mut({:?}) returns another entry than get_entry", want);
                e.set_title(tag.as_str());
                e.tags = tag.clone();
            }
        }
        match d.get_group_mut(conv::gid(want)) {
            None => ensure!(gpos.is_none(), "get_group_mut({:?}) finds nothing, get_group does", want),
            Some(g) => {
                ensure!(gpos.is_some_and(|p| ga[p] == addr(g)), "get_group_mut({:?}) returns another group than get_group", want);
                g.name = tag.clone();
                g.notes.clear();
            }
        }
        let mut q = std::collections::VecDeque::new();
        q.push_back(&mut exp.root);
        let (mut i, mut k) = (0, 0);
        while let Some(g) = q.pop_front() {
            if gpos == Some(k) {
                g.name = tag.clone();
                g.notes.clear();
            }
            k += 1;
            for e in &mut g.entries {
                if epos == Some(i) {
                    e.set("Title", &tag, false);
                    e.tags = tag.clone();
                }
                i += 1;
            }
            q.extend(g.groups.iter_mut());
        }
        same("after editing the result", &exp, &conv::from_db(&d)?)?;
    }
    o.evals = asks.len() as u64 * 4;
    Ok(())
}

fn strat() -> BoxedStrategy<Case> {
    (gen::db(), vec(ask(), 1..8)).boxed()
}

/// Trees whose identifiers are all different and similar.
fn similar() -> BoxedStrategy<Case> {
    (gen::tree_t(Just(T0).boxed()), vec(ask(), 1..10), any::<u8>())
        .prop_map(|(mut root, q, start)| {
            let mut n = 0u32;
            fn go(g: &mut MGroup, n: &mut u32, start: u8) {
                let next = |n: &mut u32| {
                    let mut a = [0u8; 16];
                    a[(start as usize + *n as usize / 200) % 16] = (*n % 200) as u8;
                    *n += 1;
                    Id(a)
                };
                g.uuid = next(n);
                for e in &mut g.entries {
                    e.uuid = next(n);
                    for h in &mut e.history {
                        h.uuid = if *n % 2 == 0 { e.uuid } else { next(n) };
                    }
                }
                for s in &mut g.groups {
                    go(s, n, start);
                }
            }
            go(&mut root, &mut n, start % 16);
            (MDb { root, ..MDb::blank() }, q)
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "at least one requested identifier is that of an entry or a group of the tree",
        assumptions: &["where an identifier occurs several times any of its objects may be returned"],
        lanes: vec![lane("any", 1500, 30_000, strat, check), lane("similar", 3000, 60_000, similar, check)],
    }
}
