//! Memory use.

use super::c03::{hostile, Hostile, HOSTILE_PW};
use super::common::*;
use crate::alloc::peak;
use crate::ensure;
use crate::kdbx::*;
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::serialize;
use proptest::collection::vec;
use proptest::sample::select;

const MIB: usize = 1 << 20;

/// What any operation may use beyond a multiple of the data.
const BASE: usize = 16 * MIB;
/// How many times the data (file and document together) an operation may hold.
const TIMES: usize = 16;

fn allowed(data: usize) -> usize {
    BASE + TIMES * data
}

fn class_peak(o: &mut Obs, p: usize, data: usize) {
    o.class(match p {
        x if x < 256 << 10 => "peak < 256 KiB",
        x if x < MIB => "peak < 1 MiB",
        x if x < BASE => "peak < 16 MiB",
        x if x < 4 * data => "peak < 4 x data",
        x if x < 10 * data => "peak < 10 x data",
        _ => "peak >= 10 x data",
    });
}

// ------------------------------------------------------------- small hostile files

/// None of them holds more than a few MB, compressed or not.
fn check_hostile(h: &Hostile, o: &mut Obs) -> Check {
    let b = h.bytes()?;
    if !affordable(&b) {
        o.class("skipped: too many rounds");
        return Ok(());
    }
    let key = conv::key(&MCreds::pw(HOSTILE_PW));
    let (r, p) = peak(|| guard(|| kpdb::Database::open(&mut &b[..], &key).is_ok()));
    r.map_err(|p| format!("open: {}", p))?;
    class_peak(o, p, b.len());
    o.nontrivial = b.len() > 100;
    ensure!(p <= 4 * BASE + allowed(b.len()), "opening a file of {} bytes held {} bytes", b.len(), p);
    Ok(())
}

// ------------------------------------------------------------- sizes that promise more than there is

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Claim {
    /// good blocks before the one that lies
    before: u8,
    id_good: bool,
    claim: u32,
    have: u32,
    gzip: bool,
    /// the size field of the gzip trailer
    isize: Option<u32>,
}

fn claim() -> BoxedStrategy<Claim> {
    let n = prop_oneof![2 => select(vec![u32::MAX, 1 << 31, i32::MAX as u32, 1 << 30, 1 << 28, 1 << 26, 1 << 25]), 1 => (1u32 << 24)..u32::MAX];
    (0u8..4, prop_oneof![5 => Just(true), 1 => Just(false)], n.clone(), prop_oneof![3 => 0u32..200, 1 => 0u32..100_000], any::<bool>(), prop_oneof![2 => Just(None), 1 => n.prop_map(Some)])
        .prop_map(|(before, id_good, claim, have, gzip, isize)| Claim { before, id_good, claim, have, gzip, isize })
        .boxed()
}

fn check_claim(k: &Claim, o: &mut Obs) -> Check {
    let m = MDb { gzip: k.gzip, ..MDb::blank() };
    let (l, c) = (Layout::default(), MCreds::pw("p"));
    let ps = parts(&m, &l, &c, 31);
    let mut body = ps.salts.start.to_vec();
    if let Some(n) = k.isize {
        // the whole content, in good blocks, with a trailer that promises more
        let mut d = ps.compress(&serialize(&ps.finish_xml(to_xml(&m, &l), &l), &l.style), &l);
        let at = d.len() - 4;
        d[at..].copy_from_slice(&n.to_le_bytes());
        body = payload(&ps.salts.start, &split_blocks(&d, &[]));
        o.class("gzip trailer");
    } else {
        for i in 0..k.before as u32 {
            Block::good(i, pattern(40, i as u64)).put(&mut body);
        }
        let id = if k.id_good { k.before as u32 } else { 77 };
        let data = pattern(k.have as usize, 5);
        Block { id, hash: Bytes(crate::crypto::sha256(&[&data]).to_vec()), size: k.claim, data: Bytes(data) }.put(&mut body);
        o.class("block size");
    }
    let f = ps.file_from_payload(&body);
    let key = conv::key(&c);
    let (r, p) = peak(|| guard(|| kpdb::Database::open(&mut &f[..], &key).is_ok()));
    let ok = r.map_err(|p| format!("open: {}", p))?;
    ensure!(!ok || k.isize.is_some(), "a block with too little data is accepted");
    o.nontrivial = true;
    class_peak(o, p, f.len());
    ensure!(p <= allowed(f.len()), "opening a file of {} bytes held {} bytes", f.len(), p);
    Ok(())
}

// ------------------------------------------------------------- real content

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    Attachment,
    ProtectedAttachment,
    Pool,
    Plain,
    Protected,
    Notes,
    Icon,
    Data,
    Entries,
    Groups,
    History,
    Strings,
}

/// (kind, bytes or number of items), compression, compressible, blocks of the file to open
type Large = (Vec<(What, u32)>, bool, bool, Vec<u32>);

fn large() -> BoxedStrategy<Large> {
    use What::*;
    let w = prop_oneof![
        6 => (select(vec![Attachment, ProtectedAttachment, Pool, Plain, Protected, Notes, Icon, Data]), prop_oneof![2 => 100_000u32..1_500_000, 1 => 1_000u32..100_000]),
        4 => (select(vec![Entries, Groups, History, Strings]), 100u32..4_000),
    ];
    (vec(w, 1..4), any::<bool>(), any::<bool>(), gen::block_sizes()).boxed()
}

fn fill_db(m: &mut MDb, (what, n): (What, u32), i: u32, easy: bool) {
    let n = n as usize;
    let bytes = || Bytes(if easy { vec![b'a'; n] } else { pattern(n, i as u64) });
    let text = || if easy { "a".repeat(n) } else { crate::crypto::b64(&pattern(n * 3 / 4, i as u64)) };
    let small = |j: usize| {
        let mut e = MEntry::blank(gen::nid(10_000 * i + j as u32));
        e.set("Title", &format!("entry {}", j), false);
        e.set("Password", &format!("secret {}", j), true);
        e
    };
    let mut e = MEntry::blank(gen::nid(i));
    match what {
        What::Attachment => drop(e.binaries.insert("a".into(), MBin::Plain(bytes()))),
        What::ProtectedAttachment => drop(e.binaries.insert("a".into(), MBin::Protected(bytes()))),
        What::Pool => drop(m.meta.binaries.insert(i.to_string(), bytes())),
        What::Plain => e.set("Notes", &text(), false),
        What::Protected => e.set("Password", &text(), true),
        What::Notes => m.root.notes = text(),
        What::Icon => drop(m.meta.custom_icons.insert(gen::nid(i), bytes())),
        What::Data => drop(m.meta.custom_data.insert(i.to_string(), text())),
        What::Entries => m.root.entries.extend((1..n).map(small)),
        What::Groups => m.root.groups.extend((1..n).map(|j| MGroup::blank(gen::nid(10_000 * i + j as u32), "g"))),
        What::History => e.history = (1..n).map(small).collect(),
        What::Strings => (1..n).for_each(|j| e.set(&format!("field {}", j), &format!("value {}", j), j % 2 == 0)),
    }
    m.root.entries.push(e);
}

fn check_large((ws, gzip, easy, blocks): &Large, o: &mut Obs) -> Check {
    let mut m = MDb { gzip: *gzip, ..MDb::blank() };
    for (i, w) in ws.iter().enumerate() {
        fill_db(&mut m, *w, i as u32 + 1, *easy);
    }
    let c = MCreds::pw("p");
    let l = Layout { blocks: blocks.clone(), ..Layout::default() };
    let ps = parts(&m, &l, &c, 32);
    let xml = serialize(&ps.finish_xml(to_xml(&m, &l), &l), &l.style);
    let f = ps.file_from_xml_bytes(&xml, &l);
    let data = xml.len() + f.len();
    drop(ps);
    let key = conv::key(&c);
    let (r, p) = peak(|| guard(|| kpdb::Database::open(&mut &f[..], &key)));
    let d = r.map_err(|p| format!("open: {}", p))?.map_err(|e| format!("open failed: {:?}", e))?;
    o.evals = 2;
    o.nontrivial = data > 200_000;
    o.class_if(data > 4_000_000, "> 4 MB");
    class_peak(o, p, data);
    ensure!(p <= allowed(data), "opening {} bytes of document ({} bytes of file) held {} bytes", xml.len(), f.len(), p);
    drop(f);
    let mut sink = Count(0);
    let (r, p) = peak(|| guard(|| d.save(&mut sink)));
    r.map_err(|p| format!("save: {}", p))?.map_err(|e| format!("save failed: {:?}", e))?;
    class_peak(o, p, data);
    ensure!(p <= allowed(data), "saving {} bytes of document held {} bytes", xml.len(), p);
    ensure!(sink.0 > 300, "only {} bytes were written", sink.0);
    Ok(())
}

struct Count(usize);

impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------- key files

/// A large file that is no key file: kind, length.
fn check_key(&(kind, n): &(u8, u32), o: &mut Obs) -> Check {
    let n = n as usize;
    let b = match kind % 4 {
        0 => pattern(n, 3),
        1 => "0".repeat(n).into_bytes(),
        2 => format!("<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", "A".repeat(n)).into_bytes(),
        _ => format!("<KeyFile><Meta>{}</Meta></KeyFile>", "<X/>".repeat(n / 4)).into_bytes(),
    };
    let (r, p) = peak(|| guard(|| kpdb::KeyFile::open(&mut &b[..]).is_ok()));
    let ok = r.map_err(|p| format!("KeyFile::open: {}", p))?;
    ensure!(!ok || kind % 4 == 2, "{} bytes are a key file", b.len());
    o.nontrivial = n > 100_000;
    class_peak(o, p, b.len());
    ensure!(p <= allowed(b.len()), "opening a key file of {} bytes held {} bytes", b.len(), p);
    Ok(())
}

fn key_s() -> BoxedStrategy<(u8, u32)> {
    (any::<u8>(), prop_oneof![1 => 100u32..100_000, 2 => 100_000u32..3_000_000]).boxed()
}

/// Repeated use leaves nothing behind: (database, credentials, times, where to damage it, fault).
type Leak = (MDb, MCreds, u8, u32, u16);

fn check_leak((m, c, n, p, fault): &Leak, o: &mut Obs) -> Check {
    let b = encode(m, &Layout::default(), c, 33);
    let key = conv::key(c);
    let other = conv::key(&MCreds::pw("certainly another password"));
    let mut hurt = b.clone();
    let i = at(*p, b.len());
    hurt[i] ^= 1 << (i % 8);
    if !affordable(&hurt) {
        hurt = b[..i].to_vec();
    }
    let hostile = parts(m, &Layout::default(), c, 34).file_from_xml_bytes(b"<KeePassFile><Root><Group><Entry><String><Key>a</Key><Value Protected=\"True\">AAAA</Value><Bad", &Layout::default());
    let round = || {
        let d = kpdb::Database::open(&mut &b[..], &key).map_err(|e| format!("open failed: {:?}", e))?;
        let mut w = Count(0);
        d.save(&mut w).map_err(|e| format!("save failed: {:?}", e))?;
        // failing ones, too
        let _ = kpdb::Database::open(&mut &b[..b.len() - 1], &key).is_ok();
        let _ = kpdb::Database::open(&mut &b[..], &other).is_ok();
        let _ = kpdb::Database::open(&mut &hurt[..], &key).is_ok();
        let _ = kpdb::Database::open(&mut &hostile[..], &key).is_ok();
        let _ = d.save(&mut FaultWriter(*fault as usize)).is_ok();
        let mut e = kpdb::Entry::new();
        e.set_title("\u{1}");
        let mut x = d.clone();
        x.root_group.add_entry(e);
        let _ = x.save(&mut w).is_ok();
        let k = kpdb::KeyFile::new_xml().map_err(|e| format!("{:?}", e))?;
        let mut v = Vec::new();
        k.save(&mut v).map_err(|e| format!("{:?}", e))?;
        let _ = kpdb::KeyFile::open(&mut &v[..]).is_ok();
        let _ = kpdb::KeyFile::open(&mut &v[..v.len() - 1]).is_ok();
        d.find_entries("a").len();
        d.find_groups("a").len();
        Ok::<(), String>(())
    };
    round()?;
    round()?;
    let before = crate::alloc::live();
    for _ in 0..*n {
        round()?;
    }
    let after = crate::alloc::live();
    o.evals = *n as u64 * 9;
    o.nontrivial = *n >= 3;
    // one allocation kept per round would be more
    ensure!(after < before + *n as isize, "{} rounds of opening and saving left {} bytes allocated", n, after - before);
    Ok(())
}

/// Accepts so many bytes and then fails.
struct FaultWriter(usize);

impl std::io::Write for FaultWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = self.0.min(b.len());
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn leak_s() -> BoxedStrategy<Leak> {
    (gen::small_db(), gen::creds(), 2u8..8, any::<u32>(), 0u16..3000).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "hostile: the file is longer than 100 bytes; claims: all; contents: more than 200 kB of document and file; key files: more than 100 kB; repeated: three rounds or more",
        assumptions: &[
            "the bound is 16 MiB plus 16 times the data, several times what the library needs",
            "memory is what the process's allocator hands to the thread that opens or saves",
        ],
        lanes: vec![
            lane("hostile", 6000, 200_000, hostile, check_hostile),
            lane("claims", 1500, 50_000, claim, check_claim),
            lane("contents", 120, 4_000, large, check_large),
            lane("key-files", 300, 5_000, key_s, check_key),
            lane("repeated", 400, 10_000, leak_s, check_leak),
        ],
    }
}
