//! Identity of entries and groups inside a tree, by address.

use kpdb::{Entry, Group};

/// Groups of a tree, level by level, walked over the public fields.
pub fn groups(g: &Group) -> Vec<&Group> {
    let mut v = vec![g];
    let mut i = 0;
    while i < v.len() {
        let x = v[i];
        v.extend(x.groups.iter());
        i += 1;
    }
    v
}

pub fn entries(g: &Group) -> Vec<&Entry> {
    groups(g).into_iter().flat_map(|g| g.entries.iter()).collect()
}

pub fn addr<T>(x: &T) -> usize {
    x as *const T as usize
}
