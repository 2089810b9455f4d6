//! Files of other programs, written by the harness's encoder in many layouts.

use super::common::*;
use crate::xmlmap::Layout;

type Case = (MDb, MCreds, Layout, u64);

fn check((m, c, l, seed): &Case, o: &mut Obs) -> Check {
    o.class_if(l.shuffle > 0, "elements shuffled");
    o.class_if(l.unknown > 0, "unknown elements");
    o.class_if(l.omit > 0, "default-valued elements left out");
    o.class_if(l.bool_case > 0, "boolean casing");
    o.class_if(l.attr_case > 0, "attribute casing");
    o.class_if(l.mem > 0, "ProtectInMemory attributes");
    o.class_if(l.offset > 0, "time offsets");
    o.class_if(l.pool_plain > 0, "uncompressed pool attachments");
    o.class_if(l.pool_protected > 0, "protected pool attachments");
    o.class_if(l.inline_gzip > 0, "compressed inline attachments");
    o.class_if(!l.header_hash, "no header hash");
    o.class_if(!l.blocks.is_empty(), "several blocks");
    o.class_if(l.hdr_seed != 0, "header order");
    o.class_if(l.style.cdata > 0, "CDATA");
    o.class_if(l.style.charref > 0, "character references");
    o.class_if(l.style.comment > 0, "XML comments and instructions");
    o.class_if(l.style.split > 0, "comments inside text");
    o.class_if(l.style.bom, "byte order mark");
    o.nontrivial = o.classes.len() >= 5;
    features(m, o);
    let file = encode(m, l, c, *seed);
    let d = open_ok(&file, c)?;
    same("opened", m, &conv::from_db(&d)?)?;
    // and what was read can be saved
    let again = save(&d)?;
    o.evals = 3;
    same("saved after opening", &m.as_saved(), &open_model(&again, c)?)
}

fn layout() -> BoxedStrategy<Layout> {
    (gen::layout(), prop_oneof![2 => Just(0u8), 1 => 1u8..=100]).prop_map(|(l, mem)| Layout { mem, ..l }).boxed()
}
fn strat() -> BoxedStrategy<Case> {
    (gen::db(), gen::creds(), layout(), any::<u64>()).boxed()
}
/// Little content, so that every single layout choice shrinks to the point.
fn small() -> BoxedStrategy<Case> {
    (gen::small_db(), gen::creds(), layout(), any::<u64>()).boxed()
}
fn big() -> BoxedStrategy<Case> {
    (gen::db_big(), gen::creds(), gen::layout(), any::<u64>())
        .prop_map(|(m, c, mut l, s)| {
            l.style.split = 0;
            l.style.charref = 0;
            if l.blocks.iter().all(|b| *b < 512) {
                l.blocks = vec![4096, 100_000];
            }
            (m, c, l, s)
        })
        .boxed()
}

/// Documents of many megabytes, in and out of compression.
fn huge() -> BoxedStrategy<(u32, bool, u32, u64)> {
    (prop_oneof![3 => 3u32..12, 1 => 12u32..20], any::<bool>(), prop_oneof![Just(1u32 << 20), Just(1 << 16), 100_000u32..5_000_000], any::<u64>()).boxed()
}
fn check_huge((mib, gzip, block, seed): &(u32, bool, u32, u64), o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class_if(*mib > 8, "> 8 MiB");
    let mut m = MDb { gzip: *gzip, ..MDb::blank() };
    let n = (*mib as usize) << 20;
    m.meta.binaries.insert("0".into(), Bytes(crate::kdbx::pattern(n / 2, *seed)));
    let mut e = MEntry::blank(gen::nid(5));
    e.binaries.insert("file".into(), MBin::Ref("0".into()));
    e.binaries.insert("own".into(), MBin::Protected(Bytes(crate::kdbx::pattern(n / 4, *seed + 1))));
    e.set("Notes", &gen::fill(n / 8, "notes é\n"), false);
    e.set("Zzz", &gen::fill(n / 8, "secret ß "), true);
    m.root.entries.push(e);
    let c = MCreds::pw("p");
    let l = Layout { blocks: vec![*block], gz_level: 1, ..Layout::default() };
    same("opened", &m, &open_model(&encode(&m, &l, &c, *seed), &c)?)
}

/// The files of real programs.
fn check_sample(i: &u8, o: &mut Obs) -> Check {
    let (file, c, full) = crate::samples::sample(*i as usize)?;
    o.nontrivial = true;
    features(&full.db, o);
    let d = open_ok(file, &c)?;
    same("opened", &full.db, &conv::from_db(&d)?)?;
    if let Some(k) = crate::samples::key_file(*i as usize) {
        let got = kpdb::KeyFile::open(&mut &k[..]).map_err(|e| format!("key file: {:?}", e))?;
        let exp = &c.keyfile.as_ref().unwrap().key.0;
        crate::ensure!(got.key.unsecure() == &exp[..], "the key of the key file is read as other bytes");
    }
    same("saved after opening", &full.db.as_saved(), &open_model(&save(&d)?, &c)?)
}

/// Their content in other layouts.
fn sample_layouts() -> BoxedStrategy<(u8, Layout, u64)> {
    (0u8..crate::samples::N as u8, gen::layout(), any::<u64>()).boxed()
}
fn check_sample_layout((i, l, s): &(u8, Layout, u64), o: &mut Obs) -> Check {
    let (_, c, full) = crate::samples::sample(*i as usize)?;
    let mut m = full.db;
    m.rounds = m.rounds.min(100);
    check(&(m, c, l.clone(), *s), o)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "the layout departs from the library's own in at least five of the counted ways",
        assumptions: &[
            "no base64 with embedded white space, numbers within 32 bits, known icons only",
            "within a list (entries, groups, associations, history) order is content and is kept",
        ],
        lanes: vec![
            lane("layouts", 2500, 60_000, strat, check),
            lane("small-layouts", 5000, 100_000, small, check),
            Box::new(EnumLane { name: "real-files", cases: |_| (0..crate::samples::N as u8).collect(), check: check_sample }),
            lane("real-content", 1500, 20_000, sample_layouts, check_sample_layout),
            lane("large", 16, 200, big, check),
            lane("huge", 16, 80, huge, check_huge),
        ],
    }
}
