//! Tree editing and traversal against a model.

use super::common::*;
use super::tree::addr;
use crate::ensure;
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Op {
    /// group (by position in level order), identifier number
    AddEntry(u32, u8),
    AddGroup(u32, u8),
    /// so many entries and groups
    AddMany(u32, u8, u8),
    /// a subtree: numbers of its groups
    AddTree(u32, Vec<u8>),
    RemoveEntry(u32, u8),
    RemoveGroup(u32, u8),
    /// remove the n-th direct child by its own identifier
    RemoveEntryAt(u32, u32),
    RemoveGroupAt(u32, u32),
    /// take a subgroup out of one group and add it to another
    MoveGroup(u32, u32, u32),
    MoveEntry(u32, u32, u32),
    /// visit mutably from the group on, changing every k-th visited group
    Visit(u32, u8),
    /// visit mutably, but stop after n groups
    VisitSome(u32, u8),
    /// visit mutably, changing the subgroups of the visited groups with these numbers
    VisitGrow(u32, Vec<(u8, Grow)>),
}

/// What happens to the subgroups of a visited group.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Grow {
    /// so many new ones
    Add(u8),
    RemoveAt(u32),
    Clear,
    Reverse,
    /// new first one
    Front,
}

fn grow() -> BoxedStrategy<Grow> {
    use Grow::*;
    prop_oneof![4 => (1u8..6).prop_map(Add), 2 => any::<u32>().prop_map(RemoveAt), 1 => Just(Clear), 1 => Just(Reverse), 1 => Just(Front)].boxed()
}

fn op() -> BoxedStrategy<Op> {
    use Op::*;
    let p = || any::<u32>();
    let i = || 0u8..10;
    prop_oneof![
        4 => (p(), i()).prop_map(|(a, b)| AddEntry(a, b)),
        4 => (p(), i()).prop_map(|(a, b)| AddGroup(a, b)),
        2 => (p(), vec(i(), 1..6)).prop_map(|(a, b)| AddTree(a, b)),
        1 => (p(), 0u8..40, 0u8..20).prop_map(|(a, b, c)| AddMany(a, b, c)),
        2 => (p(), i()).prop_map(|(a, b)| RemoveEntry(a, b)),
        2 => (p(), i()).prop_map(|(a, b)| RemoveGroup(a, b)),
        2 => (p(), p()).prop_map(|(a, b)| RemoveEntryAt(a, b)),
        2 => (p(), p()).prop_map(|(a, b)| RemoveGroupAt(a, b)),
        2 => (p(), p(), p()).prop_map(|(a, b, c)| MoveGroup(a, b, c)),
        2 => (p(), p(), p()).prop_map(|(a, b, c)| MoveEntry(a, b, c)),
        1 => (p(), 1u8..4).prop_map(|(a, b)| Visit(a, b)),
        1 => (p(), 0u8..9).prop_map(|(a, b)| VisitSome(a, b)),
        1 => (p(), vec((0u8..8, grow()), 1..4)).prop_map(|(a, b)| VisitGrow(a, b)),
    ]
    .boxed()
}

pub(super) fn g_at(g: &mut kpdb::Group, n: usize) -> &mut kpdb::Group {
    // path by level order, over the public fields
    let mut paths: Vec<Vec<usize>> = vec![vec![]];
    let mut i = 0;
    while i <= n {
        let p = paths[i].clone();
        let mut x = &*g;
        for s in &p {
            x = &x.groups[*s];
        }
        for k in 0..x.groups.len() {
            let mut q = p.clone();
            q.push(k);
            paths.push(q);
        }
        i += 1;
    }
    let mut x = g;
    for s in &paths[n] {
        x = &mut x.groups[*s];
    }
    x
}

pub(super) fn m_at(g: &mut MGroup, n: usize) -> &mut MGroup {
    let mut q = std::collections::VecDeque::new();
    q.push_back(g);
    let mut i = 0;
    loop {
        let x = q.pop_front().expect("position in range");
        if i == n {
            return x;
        }
        i += 1;
        q.extend(x.groups.iter_mut());
    }
}

fn ent(i: u8, serial: u32) -> MEntry {
    let mut e = MEntry::blank(gen::small_id(i));
    e.set("Title", &format!("entry {}", serial), false);
    e.set("Password", &format!("pw {}", serial), true);
    e
}

fn grp(i: u8, serial: u32) -> MGroup {
    MGroup::blank(gen::small_id(i), &format!("group {}", serial))
}

/// The parent link an added object has, from the number in its name. Editing leaves it alone.
fn link(name: &str) -> Id {
    let n: u64 = name.chars().filter(char::is_ascii_digit).collect::<String>().parse().unwrap_or(0);
    let mut i = [0xa5u8; 16];
    i[..8].copy_from_slice(&n.to_le_bytes());
    Id(i)
}

fn kent(m: &MEntry) -> kpdb::Entry {
    let mut e = conv::entry(m);
    e.parent = conv::gid(link(e.title().unwrap_or("")));
    e
}

fn kgrp(m: &MGroup) -> kpdb::Group {
    fn put(g: &mut kpdb::Group) {
        g.parent = conv::gid(link(&g.name));
        for e in &mut g.entries {
            e.parent = conv::gid(link(e.title().unwrap_or("")));
        }
        g.groups.iter_mut().for_each(put);
    }
    let mut g = conv::group(m);
    put(&mut g);
    g
}

fn link_kept(e: &kpdb::Entry) -> Check {
    let t = e.title().unwrap_or("");
    ensure!(e.parent == conv::gid(link(t)), "editing changed the parent link of {}", t);
    Ok(())
}

fn links_kept(g: &kpdb::Group) -> Check {
    ensure!(g.parent == conv::gid(link(&g.name)), "editing changed the parent link of {}", g.name);
    for e in &g.entries {
        link_kept(e)?;
    }
    g.groups.iter().try_for_each(links_kept)
}

/// The traversals of kpdb against level order over the public fields.
fn traversals(root: &mut kpdb::Group) -> Check {
    let exp: Vec<usize> = super::tree::groups(root).into_iter().map(addr).collect();
    let got: Vec<usize> = root.iter().map(addr).collect();
    ensure!(got == exp, "iter() visits {} groups (or in another order), there are {}", got.len(), exp.len());
    let got: Vec<usize> = root.iter_mut().map(|g| addr(&*g)).collect();
    ensure!(got == exp, "iter_mut() visits {} groups (or in another order), there are {}", got.len(), exp.len());
    let mut it = root.iter();
    for _ in 0..exp.len() {
        it.next();
    }
    ensure!(it.next().is_none() && it.next().is_none(), "iter() goes on after its end");
    let mut it = root.iter_mut();
    for _ in 0..exp.len() {
        it.next();
    }
    ensure!(it.next().is_none() && it.next().is_none(), "iter_mut() goes on after its end");
    // two at a time
    let (mut a, mut b) = (root.iter(), root.iter());
    a.next();
    for i in 0..exp.len() {
        let (x, y) = (a.next().map(addr), b.next().map(addr));
        ensure!(y == Some(exp[i]) && x == exp.get(i + 1).copied(), "interleaved iterators disturb each other");
    }
    adaptors("iter()", &exp, || root.iter().map(addr), || root.iter())?;
    // every kind of use of the mutable one on its own
    let n = exp.len();
    ensure!(root.iter_mut().count() == n, "iter_mut().count() is {}, not {}", root.iter_mut().count(), n);
    ensure!(root.iter_mut().last().map(|g| addr(&*g)) == exp.last().copied(), "iter_mut().last() is another group");
    for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        ensure!(root.iter_mut().nth(k).map(|g| addr(&*g)) == exp.get(k).copied(), "iter_mut().nth({}) of {} is another group", k, n);
        let got: Vec<usize> = root.iter_mut().skip(k).map(|g| addr(&*g)).collect();
        ensure!(got == exp[k.min(n)..], "iter_mut().skip({}) of {} visits others", k, n);
        let got: Vec<usize> = root.iter_mut().step_by(k + 1).map(|g| addr(&*g)).collect();
        ensure!(got.into_iter().eq(exp.iter().copied().step_by(k + 1)), "iter_mut().step_by({}) of {} visits others", k + 1, n);
    }
    let mut it = root.iter_mut();
    for k in 0..n {
        hint(it.size_hint(), n - k, "iter_mut()")?;
        it.next();
    }
    hint(it.size_hint(), 0, "iter_mut()")
}

/// The number of items left is within the announced bounds.
fn hint((lo, hi): (usize, Option<usize>), left: usize, what: &str) -> Check {
    ensure!(lo <= left && hi.map_or(true, |h| left <= h), "{} announces between {} and {:?} groups, {} are left", what, lo, hi, left);
    Ok(())
}

/// What the adaptors of the standard library make of an iterator.
fn adaptors<'a, I: Iterator<Item = usize>, J: Iterator<Item = &'a kpdb::Group>>(what: &str, exp: &[usize], it: impl Fn() -> I, raw: impl Fn() -> J) -> Check {
    let n = exp.len();
    ensure!(raw().count() == n, "{}.count() is {}, not {}", what, raw().count(), n);
    ensure!(raw().last().map(addr) == exp.last().copied(), "{}.last() is another group", what);
    ensure!(raw().fold(Vec::new(), |mut v, g| { v.push(addr(g)); v }) == exp, "{}.fold() visits others", what);
    for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut i = raw();
        ensure!(i.nth(k).map(addr) == exp.get(k).copied(), "{}.nth({}) of {} is another group", what, k, n);
        let rest: Vec<usize> = i.map(addr).collect();
        ensure!(rest == exp[(k + 1).min(n)..], "{} after nth({}) of {} visits others", what, k, n);
        ensure!(it().skip(k).eq(exp.iter().copied().skip(k)), "{}.skip({}) of {} visits others", what, k, n);
        ensure!(it().step_by(k + 1).eq(exp.iter().copied().step_by(k + 1)), "{}.step_by({}) of {} visits others", what, k + 1, n);
        ensure!(it().take(k).eq(exp.iter().copied().take(k)), "{}.take({}) of {} visits others", what, k, n);
        let mut i = raw();
        i.by_ref().take(k).for_each(|_| ());
        ensure!(i.count() == n - k.min(n), "{}.count() after {} of {} groups", what, k, n);
    }
    let mut i = raw();
    for k in 0..n {
        hint(i.size_hint(), n - k, what)?;
        i.next();
    }
    hint(i.size_hint(), 0, what)
}

pub(super) fn check(ops: &Vec<Op>, o: &mut Obs) -> Check {
    let mut m = grp(0, 0);
    let mut g = kgrp(&m);
    let mut serial = 1;
    for op in ops {
        let n = m.bfs().len();
        let p = |x: &u32| at(*x, n);
        match op {
            Op::AddEntry(a, i) => {
                let e = ent(*i, serial);
                g_at(&mut g, p(a)).add_entry(kent(&e));
                m_at(&mut m, p(a)).entries.push(e);
            }
            Op::AddGroup(a, i) => {
                let x = grp(*i, serial);
                g_at(&mut g, p(a)).add_group(kgrp(&x));
                m_at(&mut m, p(a)).groups.push(x);
            }
            Op::AddMany(a, es, gs) => {
                for k in 0..*es {
                    let e = ent(k, serial * 1000 + k as u32);
                    g_at(&mut g, p(a)).add_entry(kent(&e));
                    m_at(&mut m, p(a)).entries.push(e);
                }
                for k in 0..*gs {
                    let x = grp(k, serial * 1000 + k as u32);
                    g_at(&mut g, p(a)).add_group(kgrp(&x));
                    m_at(&mut m, p(a)).groups.push(x);
                }
                o.class("many added to one group");
            }
            Op::AddTree(a, ids) => {
                let mut t = grp(ids[0], serial);
                for (k, i) in ids[1..].iter().enumerate() {
                    let mut x = grp(*i, serial * 100 + k as u32);
                    x.entries.push(ent(*i, serial * 100 + k as u32));
                    if k % 2 == 0 { t.groups.push(x) } else {
                        t.groups.last_mut().unwrap().groups.push(x)
                    }
                }
                g_at(&mut g, p(a)).add_group(kgrp(&t));
                m_at(&mut m, p(a)).groups.push(t);
            }
            Op::RemoveEntry(..) | Op::RemoveEntryAt(..) | Op::MoveEntry(..) => {
                let (a, id, to) = match op {
                    Op::RemoveEntry(a, i) => (p(a), gen::small_id(*i), None),
                    Op::RemoveEntryAt(a, k) | Op::MoveEntry(a, k, _) => {
                        let l = &m_at(&mut m, p(a)).entries;
                        if l.is_empty() {
                            continue;
                        }
                        (p(a), l[at(*k, l.len())].uuid, if let Op::MoveEntry(_, _, b) = op { Some(p(b)) } else { None })
                    }
                    _ => unreachable!(),
                };
                let ml = &mut m_at(&mut m, a).entries;
                let exp = ml.iter().position(|e| e.uuid == id).map(|i| ml.remove(i));
                let got = g_at(&mut g, a).remove_entry(conv::eid(id));
                let gotm = got.as_ref().map(conv::from_entry).transpose()?;
                ensure!(gotm == exp, "remove_entry returned {:?} instead of {:?}", gotm.map(|e| e.strings), exp.map(|e| e.strings));
                got.iter().try_for_each(link_kept)?;
                o.class(if exp.is_some() { "entry removed" } else { "no entry to remove" });
                if let (Some(b), Some(e), Some(x)) = (to, got, exp) {
                    g_at(&mut g, b).add_entry(e);
                    m_at(&mut m, b).entries.push(x);
                    o.class("entry moved");
                }
            }
            Op::RemoveGroup(..) | Op::RemoveGroupAt(..) | Op::MoveGroup(..) => {
                let (a, id, to) = match op {
                    Op::RemoveGroup(a, i) => (p(a), gen::small_id(*i), None),
                    Op::RemoveGroupAt(a, k) | Op::MoveGroup(a, k, _) => {
                        let l = &m_at(&mut m, p(a)).groups;
                        if l.is_empty() {
                            continue;
                        }
                        (p(a), l[at(*k, l.len())].uuid, if let Op::MoveGroup(_, _, b) = op { Some(*b) } else { None })
                    }
                    _ => unreachable!(),
                };
                let ml = &mut m_at(&mut m, a).groups;
                let exp = ml.iter().position(|e| e.uuid == id).map(|i| ml.remove(i));
                let got = g_at(&mut g, a).remove_group(conv::gid(id));
                let gotm = got.as_ref().map(conv::from_group).transpose()?;
                ensure!(gotm == exp, "remove_group returned {:?} instead of {:?}", gotm.map(|e| e.name), exp.map(|e| e.name));
                got.iter().try_for_each(links_kept)?;
                o.class(if exp.is_some() { "group removed" } else { "no group to remove" });
                if let (Some(b), Some(e), Some(x)) = (to, got, exp) {
                    let n = m.bfs().len();
                    g_at(&mut g, at(b, n)).add_group(e);
                    m_at(&mut m, at(b, n)).groups.push(x);
                    o.class("group moved");
                }
            }
            Op::Visit(a, k) => {
                for (i, x) in g_at(&mut g, p(a)).iter_mut().enumerate() {
                    if i % *k as usize == 0 {
                        x.name.push('v');
                        x.add_entry(kent(&ent(3, serial)));
                        x.expires = !x.expires;
                    }
                }
                let sub = m_at(&mut m, p(a));
                let n = sub.bfs().len();
                for i in (0..n).step_by(*k as usize) {
                    let x = m_at(sub, i);
                    x.name.push('v');
                    x.entries.push(ent(3, serial));
                    x.times.expires = !x.times.expires;
                }
                o.class("modified while visiting");
            }
            Op::VisitSome(a, k) => {
                let mut done = 0;
                for x in g_at(&mut g, p(a)).iter_mut().take(*k as usize) {
                    x.notes.push('s');
                    done += 1;
                }
                let sub = m_at(&mut m, p(a));
                let n = sub.bfs().len();
                ensure!(done == n.min(*k as usize), "iter_mut().take({}) visited {} of {}", k, done, n);
                for i in 0..done {
                    m_at(sub, i).notes.push('s');
                }
            }
            Op::VisitGrow(a, steps) => {
                // level order, in which the subgroups of a group count as they are when it has been visited
                fn apply(gs: &mut Vec<MGroup>, w: &Grow, serial: u32) {
                    match w {
                        Grow::Add(k) => gs.extend((0..*k).map(|i| grp(i, serial * 1000 + i as u32))),
                        Grow::RemoveAt(i) if !gs.is_empty() => {
                            let i = at(*i, gs.len());
                            gs.remove(i);
                        }
                        Grow::RemoveAt(_) => {}
                        Grow::Clear => gs.clear(),
                        Grow::Reverse => gs.reverse(),
                        Grow::Front => gs.insert(0, grp(4, serial * 1000)),
                    }
                }
                let mut visited = vec![];
                for (i, x) in g_at(&mut g, p(a)).iter_mut().enumerate() {
                    ensure!(i < 100_000, "iter_mut() does not end");
                    x.notes.push('g');
                    visited.push(x.name.clone());
                    for (_, w) in steps.iter().filter(|(k, _)| *k as usize == i) {
                        match w {
                            Grow::Add(k) => (0..*k).for_each(|j| x.add_group(kgrp(&grp(j, serial * 1000 + j as u32)))),
                            Grow::RemoveAt(j) if !x.groups.is_empty() => {
                                let j = at(*j, x.groups.len());
                                x.groups.remove(j);
                            }
                            Grow::RemoveAt(_) => {}
                            Grow::Clear => x.groups.clear(),
                            Grow::Reverse => x.groups.reverse(),
                            Grow::Front => x.groups.insert(0, kgrp(&grp(4, serial * 1000))),
                        }
                    }
                }
                let sub = m_at(&mut m, p(a));
                let mut exp = vec![];
                let mut i = 0;
                while i < sub.bfs().len() {
                    let x = m_at(sub, i);
                    x.notes.push('g');
                    exp.push(x.name.clone());
                    for (_, w) in steps.iter().filter(|(k, _)| *k as usize == i) {
                        apply(&mut x.groups, w, serial);
                    }
                    i += 1;
                }
                ensure!(visited == exp, "iter_mut() while subgroups of the visited group change: visited {:?}, expected {:?}", visited, exp);
                o.class("subgroups changed while visiting");
            }
        }
        serial += 1;
        let got = conv::from_group(&g)?;
        if got != m {
            let a = serde_json::to_value(&m).unwrap();
            let b = serde_json::to_value(&got).unwrap();
            return Err(format!("after {:?}: {}", op, crate::model::diff_json("tree", &a, &b).unwrap_or_default()));
        }
        links_kept(&g)?;
        traversals(&mut g)?;
    }
    o.evals = ops.len() as u64;
    o.class_if(m.bfs().len() > 6, "> 6 groups at the end");
    o.class_if(m.depth() > 3, "depth > 3 at the end");
    o.nontrivial = ops.len() >= 4 && m.bfs().len() >= 3;
    Ok(())
}

pub(super) fn strat() -> BoxedStrategy<Vec<Op>> {
    prop_oneof![3 => vec(op(), 1..25), 1 => vec(op(), 25..80)].boxed()
}

/// Traversal of given shapes.
fn shapes(m: &MGroup, o: &mut Obs) -> Check {
    o.nontrivial = m.bfs().len() > 2;
    o.class_if(m.depth() > 10, "depth > 10");
    o.class_if(m.bfs().len() > 100, "> 100 groups");
    let mut g = conv::group(m);
    traversals(&mut g)?;
    for (i, x) in g.iter_mut().enumerate() {
        x.usage_count = i as i32;
    }
    for (i, x) in super::tree::groups(&g).into_iter().enumerate() {
        ensure!(x.usage_count == i as i32, "group {} was changed as number {}", i, x.usage_count);
    }
    o.evals = 4;
    Ok(())
}

fn shape() -> BoxedStrategy<MGroup> {
    prop_oneof![2 => gen::tree_t(Just(T0).boxed()), 1 => gen::shape()].boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "histories of at least four operations that end with at least three groups; shapes of more than two groups",
        assumptions: &["groups kept from earlier in a mutable visit are not restructured later in it (their references alias by the design of the interface)"],
        lanes: vec![lane("histories", 4000, 80_000, strat, check), lane("shapes", 1500, 20_000, shape, shapes)],
    }
}
