//! Arbitrary and hostile input never panics.

use super::common::*;
use crate::ensure;
use crate::io::ChunkReader;
use crate::kdbx::*;
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::{serialize, El, Node};
use proptest::collection::vec;
use proptest::sample::select;

fn class_of<T>(r: &Result<T, kpdb::Error>) -> String {
    match r {
        Ok(_) => "Ok".into(),
        Err(e) => {
            let s = format!("{:?}", e);
            s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
        }
    }
}

/// Opens hostile bytes. Result or violation; an opened database must also be usable.
fn try_open(b: &[u8], c: &MCreds, o: &mut Obs) -> Check {
    if !affordable(b) {
        o.class("skipped: too many rounds");
        return Ok(());
    }
    let key = conv::key(c);
    let mut r = ChunkReader::new(b, &[]);
    let res = guard(|| kpdb::Database::open(&mut r, &key)).map_err(|p| format!("open: {}", p))?;
    let c = class_of(&res);
    o.class(&c);
    o.nontrivial |= !matches!(c.as_str(), "InvalidDbSignature");
    if let Ok(d) = res {
        guard(|| {
            let _ = d.find_entries("a").len() + d.find_groups("").len();
            let _ = format!("{:?}", d);
            let _ = d.save(&mut Vec::new());
        })
        .map_err(|p| format!("using the opened database: {}", p))?;
    }
    Ok(())
}

const PW: &str = "p";

// ------------------------------------------------------------- raw bytes

fn raw() -> BoxedStrategy<Bytes> {
    prop_oneof![
        1 => vec(any::<u8>(), 0..300),
        2 => vec(any::<u8>(), 0..300).prop_map(|v| [&SIG1[..], &SIG2[..], &v[..]].concat()),
        2 => vec(any::<u8>(), 0..100).prop_map(|v| [&SIG1[..], &SIG2[..], &[1, 0, 3, 0], &v[..]].concat()),
        1 => (0usize..12).prop_map(|n| [&SIG1[..], &SIG2[..], &[1, 0, 3, 0]].concat()[..n].to_vec()),
        1 => vec(any::<u8>(), 0..40).prop_map(|v| [&SIG1[..], &SIG2_KDB1[..], &v[..]].concat()),
    ]
    .prop_map(Bytes)
    .boxed()
}

fn bytes_raw(b: &Bytes) -> Res<Vec<u8>> {
    Ok(b.0.clone())
}

fn check_raw(case: &Bytes, o: &mut Obs) -> Check {
    try_open(&bytes_raw(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- damaged files

pub(super) type Damaged = (MDb, bool, Vec<Edit>, Vec<Edit>);

pub(super) fn damaged() -> BoxedStrategy<Damaged> {
    (gen::small_db(), any::<bool>(), vec(edit(), 0..3), vec(edit(), 0..3)).boxed()
}

fn bytes_damaged((m, own, head, body): &Damaged) -> Res<Vec<u8>> {
    let c = MCreds::pw(PW);
    let file = if *own { save(&conv::database(m, &c))? } else { encode(m, &Layout::default(), &c, 3) };
    let (_, n) = Header::parse(&file)?;
    let mut h = file[..n].to_vec();
    let mut b = file[n..].to_vec();
    for e in head {
        e.apply(&mut h, 0);
    }
    for e in body {
        e.apply(&mut b, 0);
    }
    Ok([h, b].concat())
}

pub(super) fn check_damaged(case: &Damaged, o: &mut Obs) -> Check {
    try_open(&bytes_damaged(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- header fields

pub(super) type Fields = (Vec<(u8, Bytes)>, bool, Bytes);

fn fields() -> BoxedStrategy<Fields> {
    let field = prop_oneof![
        4 => (0u8..12, vec(any::<u8>(), 0..40)),
        2 => select(REQUIRED.to_vec()).prop_flat_map(|id| vec(any::<u8>(), size_of(id).unwrap()).prop_map(move |v| (id, v))),
        1 => Just((CIPHER, AES_ID.to_vec())),
        1 => Just((COMPRESSION, vec![1, 0, 0, 0])),
        1 => Just((STREAM_CIPHER, vec![2, 0, 0, 0])),
        1 => (0u64..9).prop_map(|r| (ROUNDS, r.to_le_bytes().to_vec())),
    ];
    (vec(field.prop_map(|(a, b)| (a, Bytes(b))), 0..14), any::<bool>(), vec(any::<u8>(), 0..80).prop_map(Bytes)).boxed()
}

fn bytes_fields((f, all, rest): &Fields) -> Res<Vec<u8>> {
    let mut h = Header::standard(&Salts::from_seed(1), true, 1, None, (3, 1));
    if *all {
        h.fields.extend(f.iter().filter(|f| f.0 != 0).cloned());
    } else {
        h.fields = f.clone();
    }
    let mut b = h.bytes();
    b.extend_from_slice(&rest.0);
    Ok(b)
}

fn check_fields(case: &Fields, o: &mut Obs) -> Check {
    try_open(&bytes_fields(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- payloads under valid encryption

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) struct Payload {
    gzip: bool,
    /// keep the start bytes, or how many of them
    start: u8,
    data: Bytes,
    pad: Pad,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Pad {
    Good,
    None,
    Last(u8),
    All(u8),
    /// plain bytes appended to the ciphertext
    Odd(Bytes),
    Empty,
}

fn payload_s() -> BoxedStrategy<Payload> {
    let pad = prop_oneof![
        4 => Just(Pad::Good), 1 => Just(Pad::None), 2 => any::<u8>().prop_map(Pad::Last), 1 => (0u8..20).prop_map(Pad::Last),
        1 => (0u8..20).prop_map(Pad::All), 1 => vec(any::<u8>(), 1..20).prop_map(|b| Pad::Odd(Bytes(b))), 1 => Just(Pad::Empty),
    ];
    (any::<bool>(), prop_oneof![4 => Just(32u8), 2 => 0u8..33], vec(any::<u8>(), 0..120), pad)
        .prop_map(|(gzip, start, data, pad)| Payload { gzip, start, data: Bytes(data), pad })
        .boxed()
}

fn seal_with(p: &crate::file::Parts, payload: &[u8], pad: &Pad) -> Vec<u8> {
    use crate::crypto::*;
    let mut plain = pkcs7_pad(payload);
    match pad {
        Pad::None => plain.truncate(payload.len() / 16 * 16),
        Pad::Last(b) => *plain.last_mut().unwrap() = *b,
        Pad::All(b) => {
            let n = plain.len();
            plain[n - 16..].fill(*b);
        }
        Pad::Empty => plain.clear(),
        _ => {}
    }
    let mut o = p.header.bytes();
    if !plain.is_empty() {
        o.extend_from_slice(&cbc_encrypt_raw(&p.key, &p.salts.iv, &plain));
    }
    if let Pad::Odd(b) = pad {
        o.extend_from_slice(&b.0);
    }
    o
}

fn bytes_payload(p: &Payload) -> Res<Vec<u8>> {
    let mut m = MDb::blank();
    m.gzip = p.gzip;
    let c = MCreds::pw(PW);
    let ps = parts(&m, &Layout::default(), &c, 5);
    let mut body = ps.salts.start[..(p.start as usize).min(32)].to_vec();
    body.extend_from_slice(&p.data.0);
    Ok(seal_with(&ps, &body, &p.pad))
}

fn check_payload(case: &Payload, o: &mut Obs) -> Check {
    try_open(&bytes_payload(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- block streams

pub(super) type Blocks = (bool, Vec<(Block, bool)>, Bytes);

fn blocks() -> BoxedStrategy<Blocks> {
    let id = prop_oneof![4 => 0u32..4, 1 => any::<u32>()];
    let size = prop_oneof![
        3 => 0u32..40,
        1 => select(vec![0xffff_ffffu32, 0x8000_0000, 0x7fff_ffff, 0x4000_0000, 0x0100_0000]),
        1 => any::<u32>().prop_map(|x| x >> 4),
    ];
    let b = (id, prop_oneof![Just(vec![0u8; 32]), vec(any::<u8>(), 32)], prop_oneof![2 => Just(None), 1 => size.prop_map(Some)], vec(any::<u8>(), 0..60), any::<bool>()).prop_map(
        |(id, hash, size, data, good)| {
            (Block { id, hash: Bytes(hash), size: size.unwrap_or(data.len() as u32), data: Bytes(data) }, good)
        },
    );
    (any::<bool>(), vec(b, 0..5), vec(any::<u8>(), 0..45).prop_map(Bytes)).boxed()
}

fn bytes_blocks((gzip, bs, tail): &Blocks) -> Res<Vec<u8>> {
    let mut m = MDb::blank();
    m.gzip = *gzip;
    let c = MCreds::pw(PW);
    let ps = parts(&m, &Layout::default(), &c, 6);
    let mut body = ps.salts.start.to_vec();
    for (i, (b, good)) in bs.iter().enumerate() {
        let mut b = b.clone();
        if *good {
            b = Block { size: b.size, ..Block::good(i as u32, b.data.0) };
        }
        b.put(&mut body);
    }
    body.extend_from_slice(&tail.0);
    Ok(ps.file_from_payload(&body))
}

fn check_blocks(case: &Blocks, o: &mut Obs) -> Check {
    try_open(&bytes_blocks(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- compressed data and XML text

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Inner {
    Bytes(Bytes),
    GzipEdits(MDb, Vec<Edit>),
    XmlEdits(MDb, Vec<Edit>, Box<crate::xmlmini::Style>),
    Text(String),
}

pub(super) type Inners = (bool, Vec<u32>, Inner);

pub(super) fn inner() -> BoxedStrategy<Inners> {
    let i = prop_oneof![
        1 => vec(any::<u8>(), 0..200).prop_map(|b| Inner::Bytes(Bytes(b))),
        2 => (gen::small_db(), vec(edit(), 1..4)).prop_map(|(m, e)| Inner::GzipEdits(m, e)),
        5 => (gen::small_db(), vec(edit(), 1..5), gen::style()).prop_map(|(m, e, s)| Inner::XmlEdits(m, e, Box::new(s))),
        2 => vec(select(SNIPPETS.to_vec()), 0..14).prop_map(|v| Inner::Text(v.concat())),
        1 => (select(vec!["Meta", "Root"]), vec(select(SNIPPETS.to_vec()), 0..10)).prop_map(|(a, v)| Inner::Text(format!("<KeePassFile><{}>{}</{}></KeePassFile>", a, v.concat(), a))),
        2 => (select(vec!["Group", "Entry"]), vec(select(SNIPPETS.to_vec()), 0..10)).prop_map(|(a, v)| Inner::Text(format!("<KeePassFile><Root><Group><{}>{}</{}></Group></Root></KeePassFile>", a, v.concat(), a))),
    ];
    (any::<bool>(), gen::block_sizes(), i).boxed()
}

const SNIPPETS: &[&str] = &[
    "<KeePassFile>", "</KeePassFile>", "<Meta>", "</Meta>", "<Root>", "</Root>", "<Group>", "</Group>", "<Entry>", "</Entry>",
    "<String>", "</String>", "<Key>", "</Key>", "<Value>", "</Value>", "<Value Protected=\"True\">", "<Value Ref=\"0\"/>",
    "<Binary>", "</Binary>", "<Binary ID=\"0\" Compressed=\"True\">", "<Binaries>", "</Binaries>", "<History>", "</History>",
    "<UUID>", "</UUID>", "<UUID>AAAA</UUID>", "<UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID>", "<Times>", "</Times>", "<Expires>", "</Expires>", "<IconID>99999999999</IconID>",
    "<IconID>-1</IconID>", "<CustomIcons>", "</CustomIcons>", "<Icon>", "</Icon>", "<Data>", "</Data>", "<Data>!</Data>", "<CustomData>", "</CustomData>", "<Item>", "</Item>",
    "<HeaderHash>", "</HeaderHash>", "<HeaderHash/>", "<HeaderHash>AAAA</HeaderHash>", "<Color>#é1234</Color>", "<Color>#ééé</Color>", "<ForegroundColor>#\u{10ffff}é</ForegroundColor>", "<Color>ééé1</Color>",
    "<AutoType>", "</AutoType>", "<Association>", "</Association>", "<Window>", "</Window>", "<Unknown>", "</Unknown>", "<Unknown/>",
    "<CreationTime>", "</CreationTime>", "<CreationTime>2015-02-30T00:00:00Z</CreationTime>", "<CreationTime>+999999-01-01T00:00:00Z</CreationTime>",
    "<DatabaseNameChanged>262143-12-31T23:59:60Z</DatabaseNameChanged>", "<MemoryProtection>", "</MemoryProtection>",
    "<!DOCTYPE a [<!ENTITY x \"y\">]>", "<!DOCTYPE a [<!ENTITY x \"&x;&x;\">]>", "&x;", "&amp;", "&#0;", "&#xD800;", "&", "<", ">", "]]>", "<![CDATA[", "<!--", "-->", "<?xml version=\"1.0\"?>", "<?pi ?>", "\u{feff}",
    "text", "AAAA", "==", " ", "\n", "\u{0}", "\"", "True", "null", "0", "<Group/>", "<Entry/>", "<Times/>", "<String/>", "<Binary/>", "<UsageCount>2147483648</UsageCount>",
];

fn bytes_inner((gzip, sizes, inner): &Inners) -> Res<Vec<u8>> {
    let c = MCreds::pw(PW);
    let mut l = Layout { blocks: sizes.clone(), ..Layout::default() };
    let mut m = match inner {
        Inner::GzipEdits(m, _) | Inner::XmlEdits(m, _, _) => m.clone(),
        _ => MDb::blank(),
    };
    m.gzip = *gzip || matches!(inner, Inner::GzipEdits(..));
    let ps = parts(&m, &l, &c, 7);
    let data = match inner {
        Inner::Bytes(b) => b.0.clone(),
        Inner::Text(t) => ps.compress(t.as_bytes(), &l),
        Inner::GzipEdits(_, es) => {
            let mut d = ps.compress(&serialize(&ps.finish_xml(to_xml(&m, &l), &l), &l.style), &l);
            for e in es {
                e.apply(&mut d, 0);
            }
            d
        }
        Inner::XmlEdits(_, es, st) => {
            l.style = (**st).clone();
            let mut d = serialize(&ps.finish_xml(to_xml(&m, &l), &l), &l.style);
            for e in es {
                e.apply(&mut d, 0);
            }
            ps.compress(&d, &l)
        }
    };
    let blocks = split_blocks(&data, sizes);
    Ok(ps.file_from_payload(&payload(&ps.salts.start, &blocks)))
}

pub(super) fn check_inner(case: &Inners, o: &mut Obs) -> Check {
    try_open(&bytes_inner(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- XML trees

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TreeEdit {
    Delete(u32),
    Dup(u32),
    Rename(u32, String),
    Text(u32, String),
    AddText(u32, String),
    Attr(u32, String, String),
    DropAttrs(u32),
    Wrap(u32, String, u8),
    Move(u32, u32),
    CopyInto(u32, u32),
    Clear(u32),
}

pub const NAMES: &[&str] = &[
    "KeePassFile", "Meta", "Root", "Group", "Entry", "String", "Key", "Value", "Binary", "Binaries", "History", "UUID", "Times", "Name", "Notes",
    "IconID", "CustomIconUUID", "CustomIcons", "Icon", "Data", "CustomData", "Item", "HeaderHash", "Color", "AutoType", "Association", "Window",
    "KeystrokeSequence", "CreationTime", "Expires", "UsageCount", "MemoryProtection", "ProtectTitle", "Tags", "OverrideURL", "Enabled",
    "DataTransferObfuscation", "ForegroundColor", "EnableAutoType", "LastTopVisibleEntry", "DeletedObjects", "Generator", "Unknown", "RecycleBinUUID", "IsExpanded",
];

const NASTY: &[&str] = &[
    "", " ", "\n", "True", "FALSE", "null", "NULL", "yes", "0", "-1", "1", "68", "69", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "1.5", "0x10", "+1", " 1", "1 ", "٣",
    "AAAA", "A", "AA==", "AAAAAAAAAAAAAAAAAAAAAA==", "====", "!!!!", "AAAA\nAAAA", "H4sI", "H4sIAAAAAAAA", "H4sIAAAAAAAA/wMAAAAAAAAAAAA=",
    "#000000", "#GGGGGG", "#FFF", "#", "#é1234", "#ééé", "é", "#0000000", "#+f+f+f", "0000000", "#\u{10ffff}11", "ééé1", "#1é345", "#12é45", "#123é5", "#1234é",
    "2015-10-17T12:34:56Z", "2015-10-17", "0000-00-00T00:00:00Z", "2015-13-01T00:00:00Z", "2015-02-29T00:00:00Z", "9999-12-31T23:59:59Z", "2015-10-17T12:34:60Z",
    "2015-10-17T12:34:56", "2015-10-17T12:34:56+99:99", "2015-10-17T12:34:56.999999999999Z", "-0001-01-01T00:00:00Z", "+262143-01-01T00:00:00Z", "2015-10-17t12:34:56z", "2015-10-17T12:34:56+23:59",
    "2015-10-17T12:34:56-23:59", "\u{85}", "\u{2028}", "日本", "\r", "\t",
];

pub fn tree_edit() -> BoxedStrategy<TreeEdit> {
    use TreeEdit::*;
    let name = || select(NAMES.to_vec()).prop_map(|s| s.to_string());
    let nasty = || prop_oneof![3 => select(NASTY.to_vec()).prop_map(|s| s.to_string()), 1 => gen::text()];
    prop_oneof![
        2 => any::<u32>().prop_map(Delete),
        2 => any::<u32>().prop_map(Dup),
        2 => (any::<u32>(), name()).prop_map(|(a, b)| Rename(a, b)),
        6 => (any::<u32>(), nasty()).prop_map(|(a, b)| Text(a, b)),
        1 => (any::<u32>(), nasty()).prop_map(|(a, b)| AddText(a, b)),
        2 => (any::<u32>(), select(vec!["Protected", "Compressed", "ID", "Ref", "protected", "COMPRESSED", "x"]), nasty()).prop_map(|(a, b, c)| Attr(a, b.into(), c)),
        1 => any::<u32>().prop_map(DropAttrs),
        1 => (any::<u32>(), name(), prop_oneof![3 => Just(1u8), 1 => 1u8..40]).prop_map(|(a, b, c)| Wrap(a, b, c)),
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Move(a, b)),
        2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| CopyInto(a, b)),
        1 => any::<u32>().prop_map(Clear),
    ]
    .boxed()
}

pub fn count(e: &El) -> usize {
    1 + e.els().map(count).sum::<usize>()
}

/// The n-th element in document order.
pub fn nth(e: &mut El, n: &mut usize, f: &mut dyn FnMut(&mut El)) -> bool {
    if *n == 0 {
        f(e);
        return true;
    }
    *n -= 1;
    for k in &mut e.kids {
        if let Node::El(c) = k {
            if nth(c, n, f) {
                return true;
            }
        }
    }
    false
}

/// Removes the n-th element (not the root).
pub fn take_nth(e: &mut El, n: &mut usize) -> Option<El> {
    let mut i = 0;
    while i < e.kids.len() {
        if let Node::El(c) = &mut e.kids[i] {
            *n -= 1;
            if *n == 0 {
                match e.kids.remove(i) {
                    Node::El(c) => return Some(c),
                    _ => unreachable!(),
                }
            }
            if let Some(r) = take_nth(c, n) {
                return Some(r);
            }
        }
        i += 1;
    }
    None
}

impl TreeEdit {
    pub fn apply(&self, root: &mut El) {
        use TreeEdit::*;
        let total = count(root);
        if total > 20_000 {
            return;
        }
        let on = |root: &mut El, p: u32, f: &mut dyn FnMut(&mut El)| {
            let mut n = at(p, total);
            nth(root, &mut n, f);
        };
        let get = |root: &mut El, p: u32| {
            let mut r = None;
            on(root, p, &mut |e| r = Some(e.clone()));
            r.unwrap()
        };
        match self {
            Delete(p) => {
                let mut n = at(*p, total);
                if n > 0 {
                    take_nth(root, &mut n);
                }
            }
            Dup(p) => on(root, *p, &mut |e| {
                if let Some(k) = e.kids.last().cloned() {
                    e.kids.push(k);
                }
            }),
            Rename(p, s) => on(root, *p, &mut |e| e.name = s.clone()),
            Text(p, s) => on(root, *p, &mut |e| {
                e.secret = None;
                e.kids = El::text("", s).kids;
            }),
            AddText(p, s) => on(root, *p, &mut |e| e.kids.insert(e.kids.len() / 2, Node::Text(s.clone()))),
            Attr(p, k, v) => on(root, *p, &mut |e| {
                e.attrs.retain(|(n, _)| n != k);
                e.attrs.push((k.clone(), v.clone()));
            }),
            DropAttrs(p) => on(root, *p, &mut |e| e.attrs.clear()),
            Wrap(p, s, n) => on(root, *p, &mut |e| {
                for _ in 0..*n {
                    let mut w = El::new(s);
                    std::mem::swap(&mut w, e);
                    e.kids.push(Node::El(w));
                }
            }),
            Move(a, b) => {
                let mut n = at(*a, total);
                if n > 0 {
                    if let Some(x) = take_nth(root, &mut n) {
                        let t = count(root);
                        let mut n = at(*b, t);
                        nth(root, &mut n, &mut |e| e.push(x.clone()));
                    }
                }
            }
            CopyInto(a, b) => {
                let x = get(root, *a);
                if count(&x) < 500 {
                    on(root, *b, &mut |e| e.push(x.clone()));
                }
            }
            Clear(p) => on(root, *p, &mut |e| e.kids.clear()),
        }
    }
}

pub(super) type Tree = (MDb, bool, Layout, Vec<TreeEdit>);

pub(super) fn tree() -> BoxedStrategy<Tree> {
    (prop_oneof![2 => gen::small_db(), 1 => gen::db()], any::<bool>(), gen::layout(), vec(tree_edit(), 1..6)).boxed()
}

fn bytes_tree((m, hash, l, es): &Tree) -> Res<Vec<u8>> {
    let c = MCreds::pw(PW);
    let mut m = m.clone();
    m.rounds = 1;
    let l = &Layout { header_hash: *hash, ..l.clone() };
    let ps = parts(&m, l, &c, 8);
    let mut x = to_xml(&m, l);
    for e in es {
        e.apply(&mut x);
    }
    let x = ps.finish_xml(x, l);
    Ok(ps.file_from_xml_bytes(&serialize(&x, &l.style), l))
}

pub(super) fn check_tree(case: &Tree, o: &mut Obs) -> Check {
    try_open(&bytes_tree(case)?, &MCreds::pw(PW), o)
}

// ------------------------------------------------------------- one odd value in every kind of element

/// Path of element names, the attribute (or the text), and what is put there.
pub(super) type Odd = (String, Option<String>, String);

fn everything() -> MDb {
    let (e, g) = super::c24::rich(1);
    let mut m = MDb { rounds: 1, ..MDb::blank() };
    m.meta.custom_icons.insert(gen::nid(3), Bytes(vec![1, 2, 3]));
    m.meta.binaries.insert("0".into(), Bytes(vec![7; 20]));
    m.meta.binaries.insert("1".into(), Bytes(vec![8; 2]));
    m.meta.custom_data.insert("k".into(), "v".into());
    m.meta.color = Some([1, 2, 3]);
    m.root.entries.push(e);
    m.root.groups.push(g);
    m
}

fn paths(at: &str, e: &El, out: &mut Vec<(String, Vec<String>)>) {
    let p = format!("{}/{}", at, e.name);
    match out.iter_mut().find(|x| x.0 == p) {
        Some(x) => x.1.extend(e.attrs.iter().map(|a| a.0.clone())),
        None => out.push((p.clone(), e.attrs.iter().map(|a| a.0.clone()).collect())),
    }
    e.els().for_each(|c| paths(&p, c, out));
}

fn all_odd(_: crate::runner::Tier) -> Vec<Odd> {
    let mut ps = Vec::new();
    paths("", &to_xml(&everything(), &Layout::default()), &mut ps);
    let mut o = Vec::new();
    for (p, attrs) in &mut ps {
        attrs.sort();
        attrs.dedup();
        let last = p.rsplit('/').next().unwrap().to_string();
        for t in NASTY.iter().chain(EDGES) {
            o.push((p.clone(), None, t.to_string()));
            for a in attrs.iter() {
                o.push((p.clone(), Some(a.clone()), t.to_string()));
            }
            if matches!(last.as_str(), "Value" | "Binary") {
                for a in ["Protected", "Compressed", "Ref", "ID"] {
                    if !attrs.iter().any(|x| x == a) {
                        o.push((p.clone(), Some(a.to_string()), t.to_string()));
                    }
                }
            }
        }
    }
    o
}

const EDGES: &[&str] = &[
    "-2147483649", "-2147483647", "4294967295", "4294967296", "-32769", "-32768", "32767", "32768", "65535", "65536", "-129", "-128", "127", "128", "255", "256", "-256", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e999", "-0", "00000000000000000000000000000001",
    "0001-01-01T00:00:00Z", "0000-01-01T00:00:00Z", "+262142-12-31T23:59:59.999999999Z", "-262143-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-01-01T00:00:00-23:59", "2016-12-31T23:59:60.999999999Z",
    "AQID", "H4sIAAAAAAAA/wMAAAAAAAAAAAA=AAAA", "//////////////////////8=", "#ffffff", "#FFFFFF", "True", "true", "FALSE", "abcdefghijklmnopqrstuvwxyz0123456789 abcdefghijklmnopqrstuvwxyz0123456789 abcdefghijklmnopqrstuvwxyz",
    "ééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé", "👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍👍", "a👍bé中",
];

fn put(e: &mut El, path: &str, (attr, text): (&Option<String>, &str), n: &mut usize) {
    let rest = match path.strip_prefix('/').and_then(|p| p.strip_prefix(e.name.as_str())) {
        Some(r) => r,
        None => return,
    };
    if rest.is_empty() {
        *n += 1;
        match attr {
            Some(a) => {
                e.attrs.retain(|(k, _)| k != a);
                e.attrs.push((a.clone(), text.to_string()));
            }
            None => {
                e.secret = None;
                e.kids = El::text("", text).kids;
            }
        }
    } else if rest.starts_with('/') {
        for k in &mut e.kids {
            if let Node::El(c) = k {
                put(c, rest, (attr, text), n);
            }
        }
    }
}

fn check_odd((path, attr, text): &Odd, o: &mut Obs) -> Check {
    let l = Layout::default();
    let m = everything();
    let c = MCreds::pw(PW);
    let ps = parts(&m, &l, &c, 8);
    let mut x = to_xml(&m, &l);
    let mut n = 0;
    put(&mut x, path, (attr, text), &mut n);
    ensure!(n > 0, "harness: no element {}", path);
    let x = ps.finish_xml(x, &l);
    try_open(&ps.file_from_xml_bytes(&serialize(&x, &l.style), &l), &c, o)
}

/// Any of the above, for the other properties that want hostile input.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Hostile {
    Damaged(Damaged),
    Fields(Fields),
    Payload(Payload),
    Blocks(Blocks),
    Inner(Inners),
    Tree(Box<Tree>),
}

pub(super) const HOSTILE_PW: &str = PW;

pub(super) fn hostile() -> BoxedStrategy<Hostile> {
    prop_oneof![
        2 => damaged().prop_map(Hostile::Damaged),
        2 => fields().prop_map(Hostile::Fields),
        1 => payload_s().prop_map(Hostile::Payload),
        4 => blocks().prop_map(Hostile::Blocks),
        2 => inner().prop_map(Hostile::Inner),
        2 => tree().prop_map(|t| Hostile::Tree(Box::new(t))),
    ]
    .boxed()
}

impl Hostile {
    pub(super) fn bytes(&self) -> Res<Vec<u8>> {
        match self {
            Hostile::Damaged(c) => bytes_damaged(c),
            Hostile::Fields(c) => bytes_fields(c),
            Hostile::Payload(c) => bytes_payload(c),
            Hostile::Blocks(c) => bytes_blocks(c),
            Hostile::Inner(c) => bytes_inner(c),
            Hostile::Tree(c) => bytes_tree(c),
        }
    }
}

// ------------------------------------------------------------- key files

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum KeyData {
    Bytes(Bytes),
    Text(String),
    Edited(MKeyFile, Vec<Edit>),
}

const KSNIP: &[&str] = &[
    "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<KeyFile>", "</KeyFile>", "<Meta>", "</Meta>", "<Version>1.00</Version>", "<Version>2.0</Version>", "<Version>", "</Version>",
    "<Key>", "</Key>", "<Data>", "</Data>", "<Data/>", "<Data>AAAA</Data>", "<Data>!</Data>", "<Data>AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=</Data>", "text", "&x;", "<", "<!--", "<Unknown>", "</Unknown>", " ", "\u{0}",
    "<Data Hash=\"00\">AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=</Data>",
];

pub(super) fn keydata() -> BoxedStrategy<KeyData> {
    prop_oneof![
        2 => prop_oneof![vec(any::<u8>(), 0..100), vec(any::<u8>(), 32), vec(any::<u8>(), 64), (30usize..34).prop_map(|n| vec![b'0'; n]), (62usize..67).prop_map(|n| vec![b'a'; n])].prop_map(|b| KeyData::Bytes(Bytes(b))),
        1 => vec(prop_oneof![9 => select("0123456789abcdefABCDEF".as_bytes().to_vec()), 1 => any::<u8>()], 63..66).prop_map(|b| KeyData::Bytes(Bytes(b))),
        3 => vec(select(KSNIP.to_vec()), 0..10).prop_map(|v| KeyData::Text(v.concat())),
        2 => vec(select(KSNIP.to_vec()), 0..8).prop_map(|v| KeyData::Text(format!("<KeyFile>{}</KeyFile>", v.concat()))),
        3 => (gen::key_file(), vec(edit(), 1..3)).prop_map(|(k, e)| KeyData::Edited(k, e)),
    ]
    .boxed()
}

pub(super) fn check_key(k: &KeyData, o: &mut Obs) -> Check {
    let b = match k {
        KeyData::Bytes(b) => b.0.clone(),
        KeyData::Text(t) => t.as_bytes().to_vec(),
        KeyData::Edited(k, es) => {
            let mut v = Vec::new();
            conv::key_file(k).save(&mut v).map_err(|e| format!("save: {:?}", e))?;
            for e in es {
                e.apply(&mut v, 0);
            }
            v
        }
    };
    let mut r = ChunkReader::new(&b, &[]);
    let res = guard(|| kpdb::KeyFile::open(&mut r)).map_err(|p| format!("KeyFile::open: {}", p))?;
    o.class(&class_of(&res));
    o.nontrivial = b.len() >= 32;
    if let Ok(k) = res {
        guard(|| {
            let c = kpdb::CompositeKey::from_key_file(k.clone());
            let _ = c.unsecure();
            let _ = k.save(&mut Vec::new());
        })
        .map_err(|p| format!("using the opened key file: {}", p))?;
    }
    Ok(())
}

// ------------------------------------------------------------- deep nesting

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) struct Deep {
    /// what encloses the nested elements
    outer: u8,
    name: String,
    depth: u32,
    closed: bool,
    key_file: bool,
}

fn deep() -> BoxedStrategy<Deep> {
    let depth = prop_oneof![2 => 1u32..1500, 2 => 1500u32..20_000, 1 => 20_000u32..120_000];
    let name = prop_oneof![4 => Just("Group"), 1 => Just("X"), 1 => Just("Entry"), 1 => Just("History"), 1 => Just("Value"), 1 => Just("Meta"), 1 => Just("String")];
    (0u8..6, name, depth, prop_oneof![4 => Just(true), 1 => Just(false)], prop_oneof![5 => Just(false), 1 => Just(true)])
        .prop_map(|(outer, name, depth, closed, key_file)| Deep { outer, name: name.into(), depth, closed, key_file })
        .boxed()
}

fn check_deep(d: &Deep, o: &mut Obs) -> Check {
    let outer: &[&str] = if d.key_file {
        [&["KeyFile"][..], &["KeyFile", "Meta"], &["KeyFile", "Key"], &["KeyFile", "Key", "Data"], &["KeyFile", "Meta", "Version"], &[]][d.outer as usize % 6]
    } else {
        [&["KeePassFile", "Root"][..], &["KeePassFile"], &["KeePassFile", "Meta"], &["KeePassFile", "Root", "Group", "Entry"], &["KeePassFile", "Root", "Group", "Entry", "History"], &["KeePassFile", "Root", "Group"]][d.outer as usize % 6]
    };
    let mut x: String = outer.iter().map(|n| format!("<{}>", n)).collect();
    x.push_str(&format!("<{}>", d.name).repeat(d.depth as usize));
    if d.closed {
        x.push_str(&format!("</{}>", d.name).repeat(d.depth as usize));
        outer.iter().rev().for_each(|n| x.push_str(&format!("</{}>", n)));
    }
    o.nontrivial = d.depth > 100;
    o.class_if(d.depth > 1000, "> 1000 levels");
    o.class_if(d.depth > 20_000, "> 20000 levels");
    let class = if d.key_file {
        small_stack(|| class_of(&kpdb::KeyFile::open(&mut x.as_bytes())))
    } else {
        let c = MCreds::pw(PW);
        let ps = parts(&MDb { rounds: 1, gzip: true, ..MDb::blank() }, &Layout::default(), &c, 9);
        let f = ps.file_from_xml_bytes(x.as_bytes(), &Layout::default());
        let key = conv::key(&c);
        small_stack(|| class_of(&kpdb::Database::open(&mut &f[..], &key)))
    };
    o.class(&class);
    Ok(())
}

// ------------------------------------------------------------- value parsers

fn strings() -> BoxedStrategy<Vec<String>> {
    let s = prop_oneof![
        2 => vec(any::<char>(), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        3 => vec(select("#0aFg+-é€\u{10ffff} \0".chars().collect::<Vec<_>>()), 0..9).prop_map(|v| v.into_iter().collect::<String>()),
        3 => vec(select("0aFg+é€\u{10ffff}".chars().collect::<Vec<_>>()), 0..7).prop_map(|v| format!("#{}", v.into_iter().collect::<String>())),
        1 => gen::any_text(),
    ];
    vec(s, 1..40).boxed()
}

fn check_strings(v: &Vec<String>, o: &mut Obs) -> Check {
    o.evals = v.len() as u64 * 2;
    for s in v {
        let r = guard(|| kpdb::Color::from_hex_string(s)).map_err(|p| format!("Color::from_hex_string({:?}): {}", s, p))?;
        o.class(if r.is_ok() { "color Ok" } else { "color Err" });
        o.nontrivial |= s.len() == 7;
        guard(|| kpdb::StringKey::from_string(s).to_string()).map_err(|p| format!("StringKey::from_string({:?}): {}", s, p))?;
    }
    Ok(())
}

fn numbers() -> BoxedStrategy<Vec<i32>> {
    vec(prop_oneof![2 => -5i32..80, 1 => any::<i32>(), 1 => select(vec![i32::MIN, i32::MAX, -1])], 1..60).boxed()
}

fn check_numbers(v: &Vec<i32>, o: &mut Obs) -> Check {
    o.evals = v.len() as u64 * 2;
    o.nontrivial = true;
    for n in v {
        guard(|| kpdb::Icon::from_i32(*n).is_ok()).map_err(|p| format!("Icon::from_i32({}): {}", n, p))?;
        guard(|| kpdb::Obfuscation::from_i32(*n).is_ok()).map_err(|p| format!("Obfuscation::from_i32({}): {}", n, p))?;
    }
    ensure!(!v.is_empty(), "empty case");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "the input got past the file signature (databases), was at least 32 bytes long (key files) or had the length of a color (strings)",
        assumptions: &[
            "headers asking for more than 2^17 key transformation rounds are not run (they only take time)",
            "nesting up to 120000 levels is opened on a thread with a stack of 2 MiB (optimised build)",
            "debug assertions and overflow checks are on; a panic anywhere in kpdb or a library it calls counts",
        ],
        lanes: vec![
            lane("raw", 4000, 200_000, raw, check_raw),
            lane("damaged-file", 5000, 200_000, damaged, check_damaged),
            lane("header-fields", 4000, 200_000, fields, check_fields),
            lane("payload", 4000, 100_000, payload_s, check_payload),
            lane("blocks", 4000, 100_000, blocks, check_blocks),
            lane("inner", 8000, 300_000, inner, check_inner),
            lane("xml-tree", 6000, 200_000, tree, check_tree),
            Box::new(EnumLane { name: "odd-values", cases: all_odd, check: check_odd }),
            lane("deep", 40, 2_000, deep, check_deep),
            lane("key-file", 5000, 200_000, keydata, check_key),
            lane("strings", 1000, 40_000, strings, check_strings),
            lane("numbers", 300, 5_000, numbers, check_numbers),
        ],
    }
}
