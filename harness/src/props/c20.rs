//! Parent links after opening.

use super::c15::g_at;
use super::common::*;
use crate::ensure;
use crate::xmlmap::Layout;
use proptest::collection::vec;

type Case = (MDb, Layout, u64);

fn sizes(m: &MDb, o: &mut Obs) {
    let gs = m.root.bfs();
    o.class_if(m.root.depth() > 2, "depth > 2");
    o.class_if(m.root.depth() > 10, "depth > 10");
    o.class_if(gs.iter().any(|g| !g.entries.is_empty() && !g.groups.is_empty()), "entries next to groups");
    o.class_if(gs.iter().skip(1).any(|g| g.entries.iter().any(|e| !e.history.is_empty())), "history below the root");
    o.nontrivial = gs.len() > 1 && m.root.count_entries() > 0;
}

fn check((m, l, seed): &Case, o: &mut Obs) -> Check {
    sizes(m, o);
    o.class_if(l.shuffle > 0, "elements shuffled");
    let c = MCreds::pw("p");
    let d = open_ok(&encode(m, l, &c, *seed), &c)?;
    same("opened", m, &conv::from_db(&d)?)?;
    conv::check_parents(&d)?;
    let again = open_ok(&save(&d)?, &c)?;
    o.evals = 2;
    conv::check_parents(&again).map_err(|e| format!("after saving and reopening: {}", e))
}

fn strat() -> BoxedStrategy<Case> {
    (tree_db(), gen::layout(), any::<u64>())
        .prop_map(|(m, mut l, s)| {
            l.style.split = 0;
            l.style.charref = 0;
            (m, l, s)
        })
        .boxed()
}

/// Identifiers are few, so that an entry or group can carry that of another one, or of its parent.
fn tree_db() -> BoxedStrategy<MDb> {
    let id = || prop_oneof![2 => (0u8..6).prop_map(gen::small_id), 1 => gen::id()];
    let entry = move || (id(), 0usize..3).prop_map(|(u, h)| {
        let mut e = MEntry::blank(u);
        e.set("Title", "t", false);
        e.history = vec![MEntry::blank(u); h];
        e
    });
    let leaf = (id(), vec(entry(), 0..3)).prop_map(|(u, es)| {
        let mut g = MGroup::blank(u, "g");
        g.entries = es;
        g
    });
    let tree = leaf.prop_recursive(8, 30, 4, move |inner| {
        (id(), vec(entry(), 0..3), vec(inner, 0..4)).prop_map(|(u, es, gs)| {
            let mut g = MGroup::blank(u, "g");
            g.entries = es;
            g.groups = gs;
            g
        })
    });
    prop_oneof![6 => tree, 1 => gen::shape(), 1 => gen::tree_t(Just(T0).boxed())].prop_map(|root| MDb { root, ..MDb::blank() }).boxed()
}

/// Moves: (kind, from group, which child, to group), all scaled.
type Moves = (MDb, Vec<(bool, u32, u32, u32)>, bool);

fn moved((m, ops, open_first): &Moves, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let mut d = conv::database(m, &c);
    if *open_first {
        d = open_ok(&save(&d)?, &c)?;
    }
    let mut n = 0;
    for (entry, from, k, to) in ops {
        let count = super::tree::groups(&d.root_group).len();
        let src = g_at(&mut d.root_group, at(*from, count));
        if *entry {
            if src.entries.is_empty() {
                continue;
            }
            let u = src.entries[at(*k, src.entries.len())].uuid;
            let e = src.remove_entry(u).ok_or("remove_entry found nothing")?;
            g_at(&mut d.root_group, at(*to, count)).add_entry(e);
        } else {
            if src.groups.is_empty() {
                continue;
            }
            let u = src.groups[at(*k, src.groups.len())].uuid;
            let g = src.remove_group(u).ok_or("remove_group found nothing")?;
            let left = super::tree::groups(&d.root_group).len();
            g_at(&mut d.root_group, at(*to, left)).add_group(g);
        }
        n += 1;
    }
    o.class_if(n > 0, "moved");
    o.class_if(n > 5, "more than five moves");
    let exp = conv::from_db(&d)?;
    sizes(&exp, o);
    o.nontrivial &= n > 0;
    let again = open_ok(&save(&d)?, &c)?;
    o.evals = 2;
    ensure!(conv::from_db(&again)?.root == exp.root, "the tree changed");
    conv::check_parents(&again)
}

fn moves() -> BoxedStrategy<Moves> {
    (tree_db(), vec((any::<bool>(), any::<u32>(), any::<u32>(), any::<u32>()), 1..12), any::<bool>()).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "the tree has a group below the root and an entry (and, in the second lane, something was moved)",
        assumptions: &["history items are not entries of a group and their parent is not looked at"],
        lanes: vec![lane("layouts", 3000, 60_000, strat, check), lane("moves", 3000, 60_000, moves, moved)],
    }
}
