//! The work grows no faster than the content.

use super::common::*;
use crate::ensure;
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::serialize;
use proptest::collection::vec;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum What {
    Entries,
    Groups,
    Spread,
    History,
    Strings,
    Protected,
    Attachments,
    Pool,
    Icons,
    Data,
    Associations,
    Text,
    Escapes,
    ProtectedText,
    Blob,
    ProtectedBlob,
    PoolBlob,
    Tags,
    // of files only
    Blocks,
    Cdata,
    Comments,
    References,
    Unknown,
    Same,
    Attributes,
}
use What::*;

const ALL: &[What] = &[
    Entries, Groups, Spread, History, Strings, Protected, Attachments, Pool, Icons, Data, Associations, Text, Escapes, ProtectedText, Blob, ProtectedBlob, PoolBlob, Tags, Blocks, Cdata, Comments,
    References, Unknown, Same, Attributes,
];

/// How many of it a small database has.
fn base(w: What) -> usize {
    match w {
        Entries | Spread | History => 4_000,
        Groups => 5_000,
        Strings | Protected | Attachments | Pool | Icons | Data | Associations | Unknown | Same | Comments | Cdata => 10_000,
        Text | Escapes | ProtectedText | References | Tags => 300_000,
        Blob | ProtectedBlob | PoolBlob => 1_000_000,
        Blocks => 20_000,
        Attributes => 500,
    }
}

/// Content that has each of `ws`, so much.
fn model(ws: &[(What, usize)], gzip: bool) -> MDb {
    let mut m = MDb { gzip, ..MDb::blank() };
    let mut e = MEntry::blank(gen::nid(1));
    let count = |x: What| ws.iter().find(|w| w.0 == x).map(|w| w.1);
    let (icons, pool) = (count(Icons), count(Pool));
    let small = |j: usize| {
        let mut e = MEntry::blank(gen::nid(10 + j as u32));
        e.set("Title", &format!("entry {}", j), false);
        e.set("Password", &format!("secret {}", j), true);
        e.custom_icon = icons.map(|n| gen::nid((j % n) as u32));
        if let Some(n) = pool {
            e.binaries.insert("a".into(), MBin::Ref((j % n).to_string()));
        }
        e
    };
    let grp = |j: usize| MGroup { custom_icon: icons.map(|n| gen::nid((j % n) as u32)), ..MGroup::blank(gen::nid(1_000_000 + j as u32), &format!("group {}", j)) };
    let text = |n: usize| crate::crypto::b64(&kdbx::pattern(n * 3 / 4, 9));
    for &(w, n) in ws {
        match w {
            Entries => m.root.entries.extend((0..n).map(small)),
            Groups => m.root.groups.extend((0..n).map(grp)),
            Spread => {
                let k = (n as f64).sqrt() as usize;
                m.root.groups.extend((0..k).map(|i| MGroup { entries: (0..n / k).map(|j| small(100_000 + i * (n / k) + j)).collect(), ..grp(100_000 + i) }));
            }
            History => e.history = (0..n).map(|j| small(500_000 + j)).collect(),
            Strings => (0..n).for_each(|j| e.set(&format!("field {}", j), "value", false)),
            Protected => (0..n).for_each(|j| e.set(&format!("secret {}", j), "value", true)),
            Attachments => (0..n).for_each(|j| drop(e.binaries.insert(format!("file {}", j), MBin::Plain(Bytes(vec![1, 2, 3]))))),
            Pool => (0..n).for_each(|j| drop(m.meta.binaries.insert(j.to_string(), Bytes(vec![1, 2, 3])))),
            Icons => (0..n).for_each(|j| drop(m.meta.custom_icons.insert(gen::nid(j as u32), Bytes(vec![1, 2, 3])))),
            Data => (0..n).for_each(|j| drop(m.meta.custom_data.insert(j.to_string(), "x".into()))),
            Associations => e.assoc = (0..n).map(|j| (format!("window {}", j), "{TAB}".into())).collect(),
            Text | Blocks => e.set("Notes", &text(n), false),
            Escapes => e.set("Title", &"<&>\r\"é".repeat(n / 7), false),
            ProtectedText => e.set("Password", &text(n), true),
            Blob => drop(e.binaries.insert("b".into(), MBin::Plain(Bytes(kdbx::pattern(n, 3))))),
            ProtectedBlob => drop(e.binaries.insert("p".into(), MBin::Protected(Bytes(kdbx::pattern(n, 3))))),
            PoolBlob => drop(m.meta.binaries.insert("a".into(), Bytes(kdbx::pattern(n, 3)))),
            Tags => e.tags = text(n),
            Cdata | Comments | References | Unknown | Same | Attributes => e.set("URL", "@@", false),
        }
    }
    m.root.entries.push(e);
    m
}

fn file(ws: &[(What, usize)], m: &MDb, c: &MCreds) -> Vec<u8> {
    let blocks = ws.iter().any(|w| w.0 == Blocks);
    let l = Layout { blocks: if blocks { vec![1] } else { vec![] }, ..Layout::default() };
    let ps = parts(m, &l, c, 5);
    let xml = serialize(&ps.finish_xml(to_xml(m, &l), &l), &l.style);
    let mut t = String::from_utf8(xml).expect("the harness writes UTF-8");
    // the element of the entry that has it all is the last one
    let mut at = |mark: &str, with: String| {
        if let Some(i) = t.rfind(mark) {
            t.replace_range(i..i + mark.len(), &with);
        }
    };
    for &(w, n) in ws {
        match w {
            Cdata => at("@@", "<![CDATA[x]]>".repeat(n) + "@@"),
            Comments => at("@@", "x<!-- y -->".repeat(n) + "@@"),
            References => at("@@", "&#65;&lt;&amp;".repeat(n / 14) + "@@"),
            Unknown => at("</Entry>", "<Other a=\"b\">x</Other>".repeat(n) + "</Entry>"),
            Same => at("</Entry>", "<String><Key>Same</Key><Value>x</Value></String>".repeat(n) + "</Entry>"),
            Attributes => at("<Value>@@", format!("<Value {}>@@", (0..n).map(|i| format!("a{}=\"b\" ", i)).collect::<String>())),
            _ => {}
        }
    }
    ps.file_from_xml_bytes(t.as_bytes(), &l)
}

unsafe extern "C" {
    fn clock_gettime(clock: i32, tp: *mut [i64; 2]) -> i32;
}

/// The processor time of this thread.
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

fn timed<R>(f: impl FnOnce() -> R) -> (R, f64) {
    let t = cpu();
    let r = f();
    (r, cpu() - t)
}

const OPS: &[&str] = &["open", "save", "clone", "compare", "find entries", "find groups", "visit", "visit mutably", "look up", "remove", "drop", "add"];

/// The processor time of each operation.
fn measure(ws: &[(What, usize)], gzip: bool, times: usize, factor: usize) -> Res<Vec<f64>> {
    let c = MCreds::pw("p");
    let m = model(ws, gzip);
    let f = file(ws, &m, &c);
    let key = conv::key(&c);
    let last_e = m.root.bfs().iter().flat_map(|g| &g.entries).last().map(|e| conv::eid(e.uuid)).unwrap();
    let last_g = m.root.bfs().last().map(|g| conv::gid(g.uuid)).unwrap();
    drop(m);
    let mut out = vec![f64::MAX; OPS.len()];
    for _ in 0..times {
        let mut t = Vec::new();
        let (r, x) = timed(|| guard(|| kpdb::Database::open(&mut &f[..], &key)));
        t.push(x);
        let d = r.map_err(|p| format!("open: {}", p))?.map_err(|e| format!("open failed: {:?}", e))?;
        let mut v = Vec::with_capacity(2 * f.len() + 1000);
        let (r, x) = timed(|| d.save(&mut v));
        t.push(x);
        r.map_err(|e| format!("save failed: {:?}", e))?;
        let (mut k, x) = timed(|| d.clone());
        t.push(x);
        let (r, x) = timed(|| d == k);
        t.push(x);
        ensure!(r, "a copy differs");
        t.push(timed(|| d.find_entries("nowhere").len()).1);
        t.push(timed(|| d.find_groups("nowhere").len()).1);
        t.push(timed(|| d.root_group.iter().map(|g| g.entries.len()).sum::<usize>()).1);
        t.push(timed(|| k.root_group.iter_mut().map(|g| g.entries.len()).sum::<usize>()).1);
        t.push(timed(|| (k.get_entry(last_e).is_some(), k.get_group(last_g).is_some(), k.get_entry_mut(last_e).is_some(), k.get_group_mut(last_g).is_some())).1);
        t.push(timed(|| (k.root_group.remove_entry(last_e).is_some(), k.root_group.remove_group(last_g).is_some())).1);
        t.push(timed(|| drop(k)).1);
        let new: Vec<_> = (0..2000 * factor)
            .map(|j| (kpdb::Entry { uuid: conv::eid(gen::nid(j as u32)), ..Default::default() }, kpdb::Group { uuid: conv::gid(gen::nid(j as u32)), ..Default::default() }))
            .collect();
        let mut g = kpdb::Group::new("new");
        t.push(
            timed(|| {
                for (e, s) in new {
                    g.add_entry(e);
                    g.add_group(s);
                }
            })
            .1,
        );
        for (a, b) in out.iter_mut().zip(t) {
            *a = a.min(b);
        }
    }
    Ok(out)
}

const STEP: usize = 8;
/// How many times longer it may take.
const MORE: f64 = 14.0;
/// Below this many seconds nothing can be said.
const FLOOR: f64 = 0.02;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    /// with the percentage of the usual amount
    what: Vec<(What, u32)>,
    gzip: bool,
}

fn check(k: &Case, o: &mut Obs) -> Check {
    let ws = |f: usize| -> Vec<(What, usize)> { k.what.iter().map(|(w, p)| (*w, f * (base(*w) * *p as usize / 100).max(1))).collect() };
    let (small, large) = (ws(1), ws(STEP));
    let mut a = measure(&small, k.gzip, 2, 1)?;
    let mut b = measure(&large, k.gzip, 1, STEP)?;
    o.nontrivial = true;
    o.evals = 2 * OPS.len() as u64;
    for w in &k.what {
        o.class(&format!("{:?}", w.0));
    }
    // other work on the machine may slow it, so it is only too slow if it is so again and again
    for attempt in 0.. {
        let slow: Vec<usize> = (0..OPS.len()).filter(|i| b[*i] > MORE * a[*i] + FLOOR).collect();
        let Some(&i) = slow.first() else { break };
        ensure!(attempt < 4, "with {} times as much ({:?}), the operation \"{}\" takes {:.0} times as long: {:.1} ms instead of {:.1} ms", STEP, large, OPS[i], b[i] / a[i], b[i] * 1e3, a[i] * 1e3);
        o.class("measured again");
        std::thread::sleep(std::time::Duration::from_millis(50 << attempt));
        // the larger time of the small one, the smaller time of the large one
        let (x, y) = (measure(&small, k.gzip, 2, 1)?, measure(&large, k.gzip, 1, STEP)?);
        a.iter_mut().zip(x).for_each(|(p, q)| *p = p.max(q));
        b.iter_mut().zip(y).for_each(|(p, q)| *p = p.min(q));
    }
    Ok(())
}

fn all(_: Tier) -> Vec<Case> {
    ALL.iter().map(|w| Case { what: vec![(*w, 100)], gzip: false }).collect()
}

fn mixed() -> BoxedStrategy<Case> {
    (proptest::sample::subsequence(ALL.to_vec(), 2..4), vec(20u32..60, 4), any::<bool>())
        .prop_map(|(ws, ps, gzip)| Case { what: ws.into_iter().zip(ps).collect(), gzip })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C33",
        rule: "always",
        assumptions: &["processor time of the thread, as the system counts it", "growth that stays below 20 ms at the larger size is not seen"],
        lanes: vec![Box::new(EnumLane { name: "each", cases: all, check }), lane("mixed", 40, 600, mixed, check)],
    }
}
