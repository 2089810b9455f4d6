//! Malformed values are rejected.

use super::common::*;
use crate::crypto::{b64, gzip};
use crate::ensure;
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::{serialize, El, Node};
use proptest::sample::select;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ty {
    Bool,
    OptBool,
    Number,
    Icon,
    Obf,
    Date,
    Uuid,
    OptUuid,
    Color,
    /// plain base64
    B64,
    /// base64 of an encrypted value
    Secret,
    /// base64 of gzip
    Gz,
    Text,
}

const TYPES: [Ty; 13] = [Ty::Bool, Ty::OptBool, Ty::Number, Ty::Icon, Ty::Obf, Ty::Date, Ty::Uuid, Ty::OptUuid, Ty::Color, Ty::B64, Ty::Secret, Ty::Gz, Ty::Text];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Damage {
    /// type, site (scaled), which bad value
    Value(Ty, u32, u32),
    /// type, site: the content plus a child element (before, inside, after)
    Child(Ty, u32, u8),
    /// site of an attribute, bad value
    Attr(u32, u32),
    /// site of a keyed item; drop its first or second part, or the identifier of a pool attachment
    Part(u32, bool),
    /// root element
    Root(u8),
    /// the XML text
    Text(u8, u32),
    /// header hash: 0 bit, 1 short, 2 long, 3 bad base64, 4 the hash of something else
    Hash(u8, u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) struct Case {
    db: MDb,
    rich: u32,
    layout: Layout,
    seed: u64,
    damage: Damage,
}

fn ty(parent: &str, e: &El) -> Option<Ty> {
    let flag = |n: &str| e.attrs.iter().any(|(k, v)| k.eq_ignore_ascii_case(n) && v.eq_ignore_ascii_case("true"));
    Some(match (parent, e.name.as_str()) {
        (_, "Expires" | "IsExpanded" | "Enabled" | "RecycleBinEnabled" | "ProtectNotes" | "ProtectPassword" | "ProtectTitle" | "ProtectURL" | "ProtectUserName") => Ty::Bool,
        (_, "EnableAutoType" | "EnableSearching") => Ty::OptBool,
        (_, "IconID") => Ty::Icon,
        (_, "DataTransferObfuscation") => Ty::Obf,
        (_, "UsageCount" | "MaintenanceHistoryDays" | "MasterKeyChangeRec" | "MasterKeyChangeForce" | "HistoryMaxItems" | "HistoryMaxSize") => Ty::Number,
        (
            _,
            "CreationTime" | "LastModificationTime" | "LastAccessTime" | "ExpiryTime" | "LocationChanged" | "DatabaseNameChanged" | "DatabaseDescriptionChanged"
            | "DefaultUserNameChanged" | "MasterKeyChanged" | "RecycleBinChanged" | "EntryTemplatesGroupChanged",
        ) => Ty::Date,
        (_, "CustomIconUUID") => Ty::OptUuid,
        (_, "UUID" | "RecycleBinUUID" | "EntryTemplatesGroup" | "LastSelectedGroup" | "LastTopVisibleGroup" | "LastTopVisibleEntry") => Ty::Uuid,
        (_, "Color" | "ForegroundColor" | "BackgroundColor") => Ty::Color,
        ("Icon", "Data") => Ty::B64,
        ("Binaries", "Binary") | ("Binary", "Value") => {
            if e.attrs.iter().any(|(k, _)| k.eq_ignore_ascii_case("ref")) {
                return None;
            }
            if flag("Protected") {
                Ty::Secret
            } else if flag("Compressed") {
                Ty::Gz
            } else {
                Ty::B64
            }
        }
        ("String", "Value") if flag("Protected") => Ty::Secret,
        ("String", _) | ("Item", _) | ("Binary", "Key") | ("Association", _) => Ty::Text,
        (_, "Name" | "Notes" | "Tags" | "OverrideURL" | "DefaultSequence" | "DefaultAutoTypeSequence" | "DatabaseName" | "DatabaseDescription" | "DefaultUserName" | "Generator") => Ty::Text,
        _ => return None,
    })
}

/// Applies `f` to the `n`-th element `pick` accepts (parent name, element); how many there were.
fn visit(parent: &str, e: &mut El, i: &mut usize, n: usize, pick: &dyn Fn(&str, &El) -> bool, f: &mut dyn FnMut(&mut El)) {
    if pick(parent, e) {
        if *i == n {
            f(e);
        }
        *i += 1;
    }
    let name = e.name.clone();
    for k in &mut e.kids {
        if let Node::El(c) = k {
            visit(&name, c, i, n, pick, f);
        }
    }
}

fn change(root: &mut El, p: u32, pick: &dyn Fn(&str, &El) -> bool, f: &mut dyn FnMut(&mut El)) -> bool {
    let mut n = 0;
    visit("", root, &mut n, usize::MAX, pick, &mut |_| {});
    if n == 0 {
        return false;
    }
    let mut i = 0;
    visit("", root, &mut i, at(p, n), pick, f);
    true
}

fn bad(t: Ty, k: u32, old: &str) -> String {
    let pick = |v: &[&str]| v[at(k, v.len())].to_string();
    match t {
        Ty::Bool => pick(&["", "yes", "1", "0", "tru", "Truee", "null", "on", "wahr", "T", "true false", "TrueFalse", "fals", "-1", "\u{ff34}rue"]),
        Ty::OptBool => pick(&["yes", "1", "0", "tru", "nul", "nil", "nulll", "none", "inherit", "Falsee", "null null"]),
        Ty::Number => pick(&["", "abc", "1x", "1.5", "1,000", "--1", "0x10", "1e3", "2147483648", "-2147483649", "4294967296", "99999999999999999999", "\u{0661}", "1 2", "True", "-", "NaN", "3.0"]),
        Ty::Icon => pick(&["", "69", "-1", "70", "255", "256", "1000000", "2147483647", "-2147483648", "4294967296", "Key", "0.5", "1x", "65536"]),
        Ty::Obf => pick(&["", "2", "-1", "255", "256", "2147483647", "None", "True", "4294967296", "1.0", "65537"]),
        Ty::Date => pick(&[
            "", "yesterday", "2015-13-01T00:00:00Z", "2015-00-10T00:00:00Z", "2015-02-30T00:00:00Z", "2015-04-31T00:00:00Z", "2015-02-29T00:00:00Z", "2015-10-00T00:00:00Z", "2015-10-17",
            "2015-10-17T25:00:00Z", "2015-10-17T12:60:00Z", "2015-10-17T12:34:61Z", "2015-10-17T12:34:56", "2015-10-17T12:34:56Zx", "12:34:56", "1445085296", "AAAAAAAAAAA=", "17.10.2015 12:34:56",
            "10/17/2015", "2015-10-17T12:34:56+99:00", "Sat, 17 Oct 2015 12:34:56 GMT", "2015-1O-17T12:34:56Z", "2015-10-17T12:34:56Z 2015-10-17T12:34:56Z",
        ]),
        Ty::Uuid if at(k, 11) == 10 => String::new(),
        Ty::Uuid | Ty::OptUuid => match at(k, 10) {
            0 => b64(&[1; 15]),
            1 => b64(&[1; 17]),
            2 => b64(&[1; 1]),
            3 => b64(&[0; 32]),
            4 => "0123456789abcdef0123456789abcdef".into(),
            5 => "!!!!".into(),
            6 => format!("{}A", b64(&[1; 16])),
            7 => "AAAAAAAAAAAAAAAAAAAAA===".into(),
            8 => "01234567-89ab-cdef-0123-456789abcdef".into(),
            _ => b64(&[7; 48]),
        },
        Ty::Color => pick(&["red", "#12345", "#1234567", "123456", "#GGGGGG", "#+12345", "#12+345", "#1234-5", "# 12345", "#12345 ", "#\u{e9}1234", "#\u{e9}\u{e9}\u{e9}", "\u{e9}12345", "#", "##12345", "0x123456", "#12345G", "#FFF", "rgb(1,2,3)", "#\u{ff11}\u{ff12}"]),
        Ty::B64 | Ty::Secret => match at(k, 8) {
            0 => "!!!!".into(),
            1 => "A".into(),
            2 => "AAAAA".into(),
            3 => "A===".into(),
            4 => "AA=A".into(),
            5 => format!("{}*", old),
            6 => format!("\u{e9}{}", old),
            _ => "====".into(),
        },
        Ty::Gz => match at(k, 10) {
            0 => b64(b"not gzip at all"),
            1 => "!!!!".into(),
            2 => b64(&[0x1f, 0x8b]),
            3 => b64(&[0x1f]),
            n => {
                let data = kdbx::pattern(40 + n, 3);
                let mut z = gzip(&data, 6, None);
                let l = z.len();
                match n {
                    4 => z.truncate(l - 1),
                    5 => z.truncate(l - 8),
                    6 => z.truncate(l / 2),
                    7 => z[l - 5] ^= 0x10, // CRC
                    8 => z[l - 2] ^= 0x01, // length
                    _ => z[2] = 7,         // method
                }
                b64(&z)
            }
        },
        Ty::Text => unreachable!(),
    }
}

/// Something of everything.
pub(super) fn rich(n: u32) -> (MEntry, MGroup) {
    let mut e = MEntry::blank(gen::nid(600 + n));
    e.set("Title", "rich", false);
    e.set("Password", "protected", true);
    e.binaries.insert("plain".into(), MBin::Plain(Bytes(vec![1, 2, 3])));
    e.binaries.insert("protected".into(), MBin::Protected(Bytes(vec![4, 5, 6])));
    e.binaries.insert("ref".into(), MBin::Ref("0".into()));
    e.assoc.push(("keys".into(), "window".into()));
    e.fg = Some([1, 2, 3]);
    e.bg = Some([4, 5, 6]);
    e.custom_icon = Some(gen::nid(3));
    let mut h = e.clone();
    h.set("Title", "was", false);
    e.history.push(h);
    let mut g = MGroup::blank(gen::nid(700 + n), "rich");
    g.entries.push(e.clone());
    (e, g)
}

/// The damaged file, what was damaged, and the content without the damage.
fn damaged(case: &Case, o: &mut Obs) -> Res<Option<(Vec<u8>, String, MDb)>> {
    let c = MCreds::pw("p");
    let mut db = case.db.clone();
    let (e, g) = rich(case.rich);
    match case.rich % 3 {
        0 => db.root.entries.insert(0, e),
        1 => db.root.groups.push(g),
        _ => {
            let x = db.root.bfs().len();
            super::c15::m_at(&mut db.root, x - 1).groups.push(g);
        }
    }
    db.meta.color = Some([9, 8, 7]);
    db.meta.custom_icons.insert(gen::nid(3), Bytes(vec![1, 2, 3, 4]));
    db.meta.binaries.insert("0".into(), Bytes(b"pool".to_vec()));
    db.meta.custom_data.insert("key".into(), "value".into());
    let l = &case.layout;
    let ps = parts(&db, l, &c, case.seed);
    let tree = to_xml(&db, l);
    let good = serialize(&ps.finish_xml(tree.clone(), l), &l.style);
    // the file is fine without the damage
    same("undamaged", &db, &conv::from_db(&open_ok(&ps.file_from_xml_bytes(&good, l), &c).map_err(|e| format!("undamaged: {}", e))?)?)?;

    let mut t = tree;
    let mut xml: Option<Vec<u8>> = None;
    let what: String;
    let mut hash = false;
    let mut done = true;
    match &case.damage {
        Damage::Value(ty0, p, k) => {
            let mut v = String::new();
            done = change(&mut t, *p, &|p, e| ty(p, e) == Some(*ty0), &mut |e| {
                let old = e.only_text().unwrap_or_default();
                v = format!("{} of {:?}", e.name, bad(*ty0, *k, &old));
                e.secret = None;
                e.kids = vec![Node::Text(bad(*ty0, *k, &old))];
            });
            what = format!("value {}", v);
            o.class(&format!("bad {:?}", ty0));
        }
        Damage::Child(ty0, p, w) => {
            let mut v = String::new();
            done = change(&mut t, *p, &|p, e| ty(p, e) == Some(*ty0) && e.secret.is_none(), &mut |e| {
                v = e.name.clone();
                let child = Node::El(if w % 2 == 0 { El::new("X") } else { El::text("Name", "x") });
                match (w / 2) % 3 {
                    0 => e.kids.insert(0, child),
                    1 => e.kids.push(child),
                    _ => {
                        let s = e.only_text().unwrap_or_default();
                        let m = s.char_indices().nth(s.chars().count() / 2).map(|x| x.0).unwrap_or(0);
                        e.kids = vec![Node::Text(s[..m].into()), child, Node::Text(s[m..].into())];
                        e.kids.retain(|k| !matches!(k, Node::Text(t) if t.is_empty()));
                    }
                }
            });
            what = format!("element inside {}", v);
            o.class(&format!("element inside {:?}", ty0));
        }
        Damage::Attr(p, k) => {
            let known = ["protected", "compressed"];
            let mut v = String::new();
            let ok = |e: &El| e.attrs.iter().any(|(k, _)| known.contains(&k.to_lowercase().as_str()));
            let b = ["yes", "1", "0", "tru", "", "Truee", "null", "on", "T", "true false", " True"][at(*k, 11)];
            done = change(&mut t, *p, &|_, e| ok(e), &mut |e| {
                let a = e.attrs.iter_mut().find(|(k, _)| known.contains(&k.to_lowercase().as_str())).unwrap();
                a.1 = b.into();
                v = format!("{}/{}={:?}", e.name, a.0, b);
            });
            what = format!("attribute {}", v);
            o.class("bad attribute");
        }
        Damage::Part(p, first) => {
            let mut v = String::new();
            done = change(&mut t, *p, &|p, e| matches!((p, e.name.as_str()), ("Entry", "String" | "Binary") | ("CustomData", "Item") | ("CustomIcons", "Icon") | ("Binaries", "Binary")), &mut |e| {
                if e.els().next().is_none() {
                    v = "ID of pool attachment".into();
                    e.attrs.retain(|(k, _)| !k.eq_ignore_ascii_case("id"));
                    return;
                }
                let drop = match (e.name.as_str(), first) {
                    ("Icon", true) => "UUID",
                    ("Icon", false) => "Data",
                    (_, true) => "Key",
                    _ => "Value",
                };
                v = format!("{}/{}", e.name, drop);
                e.kids.retain(|k| !matches!(k, Node::El(c) if c.name == drop));
            });
            what = format!("missing {}", v);
            o.class("missing part");
        }
        Damage::Root(k) => {
            let wrap = |n: &str, kids: Vec<El>| {
                let mut e = El::new(n);
                for k in kids {
                    e.push(k);
                }
                e
            };
            what = "foreign root".into();
            match k % 8 {
                0 => t.name = "KeePassFiles".into(),
                1 => t.name = "keepassfile".into(),
                2 => t.name = "Root".into(),
                3 => t.name = "Meta".into(),
                4 => t.name = "html".into(),
                5 => t = wrap("Wrapper", vec![t]),
                6 => t = wrap("KeyFile", vec![t]),
                _ => t = wrap("Wrapper", vec![El::new("X"), t, El::new("Y")]),
            }
            // the hash goes into Meta wherever that is
            o.class("foreign root");
        }
        Damage::Text(k, p) => {
            let s = String::from_utf8(good.clone()).unwrap();
            // places right behind a tag, where text or markup can be put
            let ends: Vec<usize> = s.match_indices('>').map(|(i, _)| i + 1).filter(|i| !s[..*i].ends_with("?>") && !s[..*i].ends_with("->")).collect();
            let last = s.rfind("</KeePassFile").unwrap();
            let inner: Vec<usize> = ends.iter().copied().filter(|i| *i <= last && s[..*i].contains("<KeePassFile")).collect();
            let ins = |x: &str| {
                let i = inner[at(*p, inner.len())];
                format!("{}{}{}", &s[..i], x, &s[i..])
            };
            let (name, text) = match k % 10 {
                0 => {
                    let mut i = at(*p, last);
                    while !s.is_char_boundary(i) {
                        i -= 1;
                    }
                    ("cut", s[..i].to_string())
                }
                1 => {
                    // an end tag of another name
                    let tags: Vec<usize> = s.match_indices("</").map(|(i, _)| i).collect();
                    let i = tags[at(*p, tags.len())];
                    ("mismatched end tag", format!("{}</X{}", &s[..i], &s[i + 2..]))
                }
                2 => {
                    let tags: Vec<usize> = s.match_indices("</").map(|(i, _)| i).collect();
                    let i = tags[at(*p, tags.len())];
                    let j = i + s[i..].find('>').unwrap();
                    ("missing end tag", format!("{}{}", &s[..i], &s[j + 1..]))
                }
                3 => ("bare ampersand", ins("& ")),
                4 => ("unknown entity", ins("&nosuch;")),
                5 => ("reference to a forbidden character", ins(["&#0;", "&#x1;", "&#xFFFE;", "&#xD800;", "&#x110000;"][at(*p, 5)])),
                6 => ("stray end tag", ins("</Stray>")),
                7 => ("unclosed element", ins("<Open>")),
                8 => ("bad tag", ins(["<1>", "<>", "< a>", "<a b>", "<a b=c/>", "<a b=\"1\" b=\"2\"/>", "<a b=\"<\"/>"][at(*p, 7)])),
                _ => ("second root", format!("{}<KeePassFile/>", s)),
            };
            what = name.into();
            o.class(name);
            xml = Some(text.into_bytes());
        }
        Damage::Hash(k, b) => {
            hash = true;
            what = "header hash".into();
            o.class("header hash");
            let right = crate::crypto::sha256(&[&ps.header.bytes()]);
            let mut h = right.to_vec();
            match k % 5 {
                0 => h[*b as usize / 8] ^= 1 << (b % 8),
                1 => h.truncate(1 + *b as usize % 31),
                2 => h.push(*b),
                4 => h = crate::crypto::sha256(&[&right]).to_vec(),
                _ => {}
            }
            let mut v = b64(&h);
            if k % 5 == 3 {
                v.insert(*b as usize % v.len(), '!');
            }
            let mut tree = t.clone();
            for k in &mut tree.kids {
                if let Node::El(m) = k {
                    if m.name == "Meta" {
                        let i = *b as usize % (m.kids.len() + 1);
                        m.kids.insert(i, Node::El(El::text("HeaderHash", &v)));
                    }
                }
            }
            t = tree;
        }
    }
    if !done {
        o.class("no such place");
        return Ok(None);
    }
    o.nontrivial = true;
    let xml = xml.unwrap_or_else(|| {
        let l2 = Layout { header_hash: l.header_hash && !hash, ..l.clone() };
        serialize(&ps.finish_xml(t, &l2), &l.style)
    });
    ensure!(!what.is_empty(), "harness");
    Ok(Some((ps.file_from_xml_bytes(&xml, l), what, db)))
}

fn check(case: &Case, o: &mut Obs) -> Check {
    let Some((file, what, db)) = damaged(case, o)? else { return Ok(()) };
    if let Ok(d) = open(&file, &MCreds::pw("p"))? {
        let got = conv::from_db(&d).ok().and_then(|g| diff(&db, &g)).unwrap_or_else(|| "read as if undamaged".into());
        return Err(format!("accepted: {}; {}", what, got));
    }
    o.evals = 2;
    Ok(())
}

/// Whether the error is one about the content, not about credentials, header or stream.
pub(super) fn check_error(case: &Case, o: &mut Obs) -> Check {
    let Some((file, what, _)) = damaged(case, o)? else { return Ok(()) };
    let hash = matches!(case.damage, Damage::Hash(..));
    match open(&file, &MCreds::pw("p"))? {
        Err(kpdb::Error::XmlError(_)) => Ok(()),
        Err(kpdb::Error::InvalidHeaderHash) if hash => Ok(()),
        Err(e) => Err(format!("{}: reported as {:?}", what, e)),
        // C24 decides this
        Ok(_) => Ok(()),
    }
}

fn damage() -> BoxedStrategy<Damage> {
    use Damage::*;
    let p = any::<u32>;
    prop_oneof![
        10 => (select(TYPES[..11].to_vec()), p(), p()).prop_map(|(a, b, c)| Value(a, b, c)),
        3 => (select(TYPES.to_vec()), p(), 0u8..6).prop_map(|(a, b, c)| Child(a, b, c)),
        2 => (p(), p()).prop_map(|(a, b)| Attr(a, b)),
        2 => (p(), any::<bool>()).prop_map(|(a, b)| Part(a, b)),
        1 => (0u8..8).prop_map(Root),
        3 => (0u8..10, p()).prop_map(|(a, b)| Text(a, b)),
        2 => (0u8..5, any::<u8>()).prop_map(|(a, b)| Hash(a, b)),
    ]
    .boxed()
}

fn case_of(db: BoxedStrategy<MDb>) -> BoxedStrategy<Case> {
    (db, any::<u32>(), gen::layout(), any::<u64>(), damage())
        .prop_map(|(db, rich, layout, seed, damage)| {
            let mut layout = Layout { unknown: 0, omit: 0, ..layout };
            layout.style.cdata = 0;
            layout.style.comment = 0;
            layout.style.split = 0;
            layout.style.charref = 0;
            layout.style.bom = false;
            Case { db, rich: rich % 90, layout, seed, damage }
        })
        .boxed()
}

fn plain() -> BoxedStrategy<Case> {
    case_of(Just(MDb::blank()).boxed())
}
pub(super) fn small() -> BoxedStrategy<Case> {
    case_of(gen::small_db())
}
fn large() -> BoxedStrategy<Case> {
    case_of(gen::db())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "the damage was applied (the same file without it opens to the right content)",
        assumptions: &[
            "values that readers of the format differ on are not used: empty optional values, white space around values, a plus sign before a number, unusual base64 trailing bits",
            "an association without one of its parts is left out by the library and not covered",
        ],
        lanes: vec![lane("minimal", 8000, 150_000, plain, check), lane("small", 5000, 100_000, small, check), lane("large", 1000, 20_000, large, check)],
    }
}
