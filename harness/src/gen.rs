//! proptest strategies for the model and for file layouts.

use crate::kdbx::pattern;
use crate::model::*;
use crate::xmlmap::Layout;
use crate::xmlmini::{legal, Style};
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use proptest::sample::select;

pub type BS<T> = BoxedStrategy<T>;

const WORDS: &[&str] = &[
    "a", "Root", "mail", "ProtonMail", "secret", "hunter2", "https://example.org/?a=b&c=d", "Ünïcødé", "日本語", "пароль",
    "ΟΔΟΣ", "straße", "İstanbul", "null", "True", "False", "0", "-1", "2015-10-17T12:34:56Z", "AAAA", "=", "#FF0000",
    "Notes", "Value", "</Value>", "<![CDATA[x]]>", "]]>", "&amp;", "&#0;", "&lt;b&gt;", "<!-- c -->", "{USERNAME}{TAB}{PASSWORD}{ENTER}",
    "e\u{301}", "\u{1F511}\u{1F512}", "a\u{200d}b", "\u{feff}x", "rust-kpdb", "\u{a0}", "\u{2028}", "\u{85}", "\u{7f}", "\u{9f}", "\u{fffd}", "\u{e000}", "\u{10ffff}", "\u{1fffe}",
    "%00", "\\0", "'\"'", "line1\nline2", "cr\rcr", "crlf\r\nend", "tab\tend", "\u{ff}\u{100}",
];

/// Characters allowed in XML, with the troublesome ones overrepresented.
pub fn xml_char() -> BS<char> {
    prop_oneof![
        6 => proptest::char::range(' ', '~'),
        3 => select(vec!['<', '>', '&', '"', '\'', ']', '[', '-', '?', '!', ';', '#', '=', '/', '\\', '%']),
        2 => select(vec![' ', '\t', '\n', '\r']),
        2 => select(vec!['\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{10ffff}', '\u{1fffe}', '\u{1ffff}', '\u{fdd0}']),
        2 => select("äÄßẞıİΣσςéñſKÅdždzÐðДя中文字ｱ한👍".chars().collect::<Vec<_>>()),
        1 => any::<char>().prop_map(|c| if legal(c) { c } else { '?' }),
    ]
    .boxed()
}

pub fn ws() -> BS<String> {
    vec(select(vec![' ', '\t', '\n', '\r', '\u{a0}']), 1..6).prop_map(|v| v.into_iter().collect()).boxed()
}

/// Lengths around the buffer sizes a reader, writer or cipher might use.
pub fn edge_len() -> BS<usize> {
    prop_oneof![
        4 => select(vec![15usize, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        2 => select(vec![511usize, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193]),
        1 => select(vec![16383usize, 16384, 32767, 32768, 65534, 65535, 65536, 65537]),
    ]
    .boxed()
}

/// A string of XML characters.
pub fn text() -> BS<String> {
    prop_oneof![
        3 => Just(String::new()),
        8 => select(WORDS).prop_map(|s| s.to_string()),
        6 => "[a-zA-Z0-9 ._@-]{1,24}",
        2 => ws(),
        3 => (ws(), "[a-z]{1,6}", ws()).prop_map(|(a, b, c)| a + &b + &c),
        5 => vec(xml_char(), 1..16).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(xml_char(), 16..200).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (edge_len(), select(vec!["x", " ", "é", "字", "👍", "&", "]", "ab\n"])).prop_map(|(n, s)| fill(n, s)),
        2 => (select(WORDS), select(WORDS)).prop_map(|(a, b)| format!("{}{}", a, b)),
        2 => repeats(),
        3 => realistic(),
    ]
    .boxed()
}

/// What people and programs put into such fields.
pub fn realistic() -> BS<String> {
    prop_oneof![
        2 => "[0-9]{1,8}",
        1 => "[0-9]{4}([ -]?[0-9]{4}){3}",
        2 => "[A-Za-z0-9!#$%*+=?@_^~-]{8,24}",
        1 => "[a-z]{2,8}( [a-z]{2,8}){3,6}",
        1 => "https?://([a-z]{1,8}\\.){1,2}(com|org|net)(:[0-9]{2,5})?(/[a-z0-9._-]{0,8}){0,3}(\\?[a-z]=[0-9]{1,3}(&[a-z]=%[0-9A-F]{2})?)?(#[a-z]{1,5})?",
        1 => "(cmd|kdbx|ssh|file|mailto)://[a-zA-Z0-9 ./\\\\:{}-]{1,16}",
        1 => "[a-z]{1,8}([.+][a-z0-9]{1,6})?@[a-z]{1,8}\\.(com|org)",
        1 => "[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}",
        1 => "([0-9a-f]{2}){4,20}",
        1 => "[A-Z2-7]{16}",
        1 => "[A-Za-z0-9+/]{22}==",
        1 => "(19|20)[0-9]{2}-[01][0-9]-[0-3][0-9](T[0-2][0-9]:[0-5][0-9]:[0-5][0-9]Z)?",
        1 => "[0-9]{1,3}(\\.[0-9]{1,3}){3}",
        1 => "-?[0-9]{1,3}[.,][0-9]{1,3}",
        1 => "(True|False|true|false|null|yes|no|None)",
        1 => "[a-z]{1,6}([,;] ?[A-Za-z]{1,6}){1,4}",
        1 => "(\\{(USERNAME|PASSWORD|TAB|ENTER|REF:P@I:[0-9A-F]{32}|S:[a-z]{1,5}|DELAY 100|TOTP)\\}){1,3}",
        1 => "-----BEGIN [A-Z ]{3,12}-----\n([A-Za-z0-9+/]{16}\n){1,3}-----END [A-Z]{3}-----\n",
        1 => "\\{\"[a-z]{1,4}\":(\"[a-z]{0,4}\"|[0-9]{1,3}|\\[\\])\\}",
    ]
    .boxed()
}

/// The same character or word several times, and lists with empty or equal items.
pub fn repeats() -> BS<String> {
    let sep = || select(vec![",", ";", "  ", " ", "-", "/", "|", "&", "]", "\n", "\r\n", ":", ".", "\"", "\\", "=", "{", "}", "%", "\t", "\u{a0}", "_", "#", "\u{301}"]);
    let item = || select(vec!["", "", "a", "a", "B", "b", "Mail", "mail", " x", "1", "\u{e9}", "{TAB}"]);
    prop_oneof![
        2 => (sep(), 2usize..5).prop_map(|(s, n)| s.repeat(n)),
        3 => (sep(), vec(item(), 2..6)).prop_map(|(s, v)| v.join(s)),
        1 => (item(), sep(), sep(), item()).prop_map(|(a, s, t, b)| [a, s, t, s, b].concat()),
        1 => (select(WORDS), sep(), 1usize..4).prop_map(|(w, s, n)| vec![w; n + 1].join(s)),
    ]
    .boxed()
}

/// `n` bytes or slightly fewer of the repeated unit.
pub fn fill(n: usize, s: &str) -> String {
    let mut o = String::with_capacity(n);
    while o.len() + s.len() <= n {
        o.push_str(s);
    }
    while o.len() < n {
        o.push('.');
    }
    o
}

/// Any Unicode string, for places that do not go into XML as text.
pub fn any_text() -> BS<String> {
    prop_oneof![
        6 => text(),
        2 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(select(vec!['\0', '\u{1}', '\u{8}', '\u{b}', '\u{1f}', 'a', '\u{fffe}', '\u{ffff}']), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
        1 => edge_len().prop_map(|n| String::from_utf8(pattern(n, n as u64).into_iter().map(|b| b & 0x7f).collect()).unwrap()),
    ]
    .boxed()
}

pub fn bytes() -> BS<Bytes> {
    prop_oneof![
        2 => Just(Vec::new()),
        8 => vec(any::<u8>(), 1..40),
        2 => (edge_len(), any::<u64>()).prop_map(|(n, s)| pattern(n, s)),
        1 => (edge_len(), any::<u8>()).prop_map(|(n, b)| vec![b; n]),
        1 => text().prop_map(|s| s.into_bytes()),
        1 => (vec(any::<u8>(), 0..40)).prop_map(|v| crate::crypto::gzip(&v, 6, None)),
    ]
    .prop_map(Bytes)
    .boxed()
}

/// Occasionally very large.
pub fn big_bytes() -> BS<Bytes> {
    prop_oneof![
        (100_000usize..1_500_000, any::<u64>()).prop_map(|(n, s)| Bytes(pattern(n, s))),
        (100_000usize..3_000_000, any::<u8>()).prop_map(|(n, b)| Bytes(vec![b; n])),
        select(vec![1usize << 20, (1 << 20) - 1, (1 << 20) + 1, 1 << 17]).prop_map(|n| Bytes(pattern(n, 5))),
    ]
    .boxed()
}

pub fn id() -> BS<Id> {
    prop_oneof![
        1 => Just(Id([0; 16])),
        1 => Just(Id([0xff; 16])),
        8 => any::<[u8; 16]>().prop_map(Id),
        // a small pool, so that identifiers coincide across fields
        6 => (0u8..12).prop_map(small_id),
    ]
    .boxed()
}

/// Near-identical identifiers.
pub fn small_id(n: u8) -> Id {
    let mut a = [0xA5; 16];
    match n {
        0..=3 => a[15] = n,
        4..=6 => a[0] = n,
        7..=8 => a[8] = n,
        _ => a = [n; 16],
    }
    Id(a)
}

pub fn time() -> BS<MTime> {
    let common = 0i64..4_102_444_800;
    prop_oneof![
        8 => (common.clone(), Just(0u32)).prop_map(|(s, ns)| MTime { s, ns }),
        2 => (common, select(vec![1u32, 10, 999, 1_000, 500_000, 1_000_000, 123_456_789, 999_000_000, 999_999_999, 100_000_000])).prop_map(|(s, ns)| MTime { s, ns }),
        2 => (-62_167_219_200i64..253_402_300_800, Just(0u32)).prop_map(|(s, ns)| MTime { s, ns }),
        2 => select(vec![
            MTime { s: 0, ns: 0 },
            MTime { s: -1, ns: 0 },
            MTime { s: -1, ns: 999_999_999 },
            MTime { s: -62_167_219_200, ns: 0 },
            MTime { s: -62_135_596_800, ns: 0 },
            MTime { s: 253_402_300_799, ns: 0 },
            MTime { s: 951_782_400, ns: 0 },
            MTime { s: 951_868_799, ns: 0 },
            MTime { s: 2_147_483_647, ns: 0 },
            MTime { s: 2_147_483_648, ns: 0 },
            MTime { s: 4_294_967_296, ns: 0 },
            MTime { s: 1_483_228_799, ns: 0 },
            MTime { s: 1_709_164_800, ns: 0 },
        ]),
    ]
    .boxed()
}

/// Times outside the four digit years and leap seconds: round trips only.
pub fn extreme_time() -> BS<MTime> {
    prop_oneof![
        4 => time(),
        1 => (-8_000_000_000_000i64..8_000_000_000_000, 0u32..1_000_000_000).prop_map(|(s, ns)| MTime { s, ns }),
        1 => (0i64..40_000_000, 0u32..1_000_000_000).prop_map(|(m, ns)| MTime { s: m * 60 + 59, ns: 1_000_000_000 + ns }),
    ]
    .boxed()
}

pub fn num() -> BS<i32> {
    prop_oneof![
        4 => -2i32..400,
        1 => select(vec![i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX, 65535, 65536, -65536]),
        1 => any::<i32>(),
    ]
    .boxed()
}

pub fn times(t: BS<MTime>) -> BS<MTimes> {
    (t.clone(), t.clone(), any::<bool>(), t.clone(), t.clone(), t, num())
        .prop_map(|(creation, expiry, expires, access, modified, location, usage)| MTimes { creation, expiry, expires, access, modified, location, usage })
        .boxed()
}

pub fn rgb() -> BS<Option<Rgb>> {
    proptest::option::of(any::<Rgb>()).boxed()
}

pub fn canonical_key(n: String) -> String {
    const STD: [&str; 5] = ["Notes", "Password", "Title", "URL", "UserName"];
    let l = n.to_lowercase();
    if STD.iter().any(|s| s.to_lowercase() == l) && !STD.contains(&n.as_str()) { format!("{}_", n) } else { n }
}

/// Names that other programs and plugins give their strings.
pub fn known_name() -> BS<String> {
    select(vec![
        "KP2A_URL", "KP2A_URL_1", "URL2", "URL 2", "otp", "OTP", "TOTP Seed", "TOTP Settings", "TimeOtp-Secret-Base32", "HmacOtp-Counter", "User", "User Name", "Username2", "Login", "Pass", "Password2",
        "Password_1", "Comment", "Comments", "Note", "Name", "Email", "E-Mail", "Website", "_etm_template", "_etm_position_Title", "KPRPC JSON", "KeePassHttp Settings", "KPEX_PASSKEY_USERNAME", "UUID", "Key",
        "Value", "String", "Protected", "History", "Tags", "title_", "NotesX", "PIN", "Device", "AutoType", "Expires", "Title.1", "Passwort", "Benutzername", "Titel",
    ])
    .prop_map(|s| s.to_string())
    .boxed()
}

pub fn string_name() -> BS<String> {
    prop_oneof![
        6 => select(vec!["Notes", "Password", "Title", "URL", "UserName"]).prop_map(|s| s.to_string()),
        4 => text().prop_map(canonical_key),
        1 => known_name(),
        1 => select(vec!["notes2", "PIN", "Url ", " Title", "Title\n", "user name", "TOTP Seed", "Username_"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

pub fn mstr() -> BS<MStr> {
    prop_oneof![
        3 => text().prop_map(|v| MStr { v, p: false }),
        2 => any_text().prop_map(|v| MStr { v, p: true }),
    ]
    .boxed()
}

pub fn strings() -> BS<std::collections::BTreeMap<String, MStr>> {
    prop_oneof![
        8 => btree_map(string_name(), mstr(), 0..5),
        1 => btree_map(string_name(), mstr(), 5..14),
    ]
    .boxed()
}

pub fn mbin() -> BS<MBin> {
    prop_oneof![
        bytes().prop_map(MBin::Plain),
        bytes().prop_map(MBin::Protected),
        prop_oneof![select(vec!["0", "1", "2", "10", ""]).prop_map(|s: &str| s.to_string()), text()].prop_map(MBin::Ref),
    ]
    .boxed()
}

fn entry_flat(t: BS<MTime>) -> BS<MEntry> {
    (
        (id(), strings(), prop_oneof![3 => Just(Default::default()), 2 => btree_map(text(), mbin(), 0..4)]),
        (vec((text(), text()), 0..3), text(), any::<bool>(), 0i32..=1, rgb(), rgb()),
        (proptest::option::of(id()), 0i32..=68, text(), text(), times(t)),
    )
        .prop_map(|((uuid, strings, binaries), (assoc, at_seq, at_enabled, at_obf, bg, fg), (custom_icon, icon, override_url, tags, times))| MEntry {
            uuid,
            strings,
            binaries,
            assoc,
            at_seq,
            at_enabled,
            at_obf,
            bg,
            fg,
            custom_icon,
            icon,
            override_url,
            tags,
            times,
            history: Vec::new(),
        })
        .boxed()
}

pub fn entry_t(t: BS<MTime>) -> BS<MEntry> {
    let f = entry_flat(t);
    prop_oneof![
        5 => f.clone(),
        3 => (f.clone(), vec(f.clone(), 1..4)).prop_map(|(mut e, h)| { e.history = h; e }),
        // history items usually share the entry's identifier
        1 => (f.clone(), vec(f.clone(), 1..3)).prop_map(|(mut e, mut h)| { for x in &mut h { x.uuid = e.uuid; } e.history = h; e }),
        3 => (f.clone(), vec(f, 0..3), vec(0u8..20, 1..4)).prop_map(|(mut e, h, ks)| { e.history = h; for k in ks { coincide_entry(&mut e, k); } e }),
    ]
    .boxed()
}

/// Makes parts of an entry equal to each other.
fn coincide_entry(e: &mut MEntry, k: u8) {
    let flat = |e: &MEntry| MEntry { history: Vec::new(), ..e.clone() };
    match k {
        0 => {
            let l = e.history.last().cloned().unwrap_or_else(|| flat(e));
            e.history.extend(vec![l; 2]);
        }
        1 => e.history.push(flat(e)),
        2 => {
            if let Some(f) = e.history.first().cloned() {
                e.history.push(f);
            }
        }
        3 => {
            for h in &mut e.history {
                h.times = e.times.clone();
                h.uuid = e.uuid;
            }
        }
        4 => {
            for h in &mut e.history {
                h.strings = e.strings.clone();
                h.binaries = e.binaries.clone();
            }
        }
        5 => {
            if let Some(a) = e.assoc.last().cloned() {
                e.assoc.push(a.clone());
                e.assoc.push((a.1, a.0));
            }
        }
        6 => {
            if let Some(a) = e.assoc.first_mut() {
                a.1 = a.0.clone();
            }
            e.assoc.push((String::new(), String::new()));
        }
        7 => {
            if let Some(v) = e.strings.values().next().cloned() {
                for x in e.strings.values_mut() {
                    *x = v.clone();
                }
            }
        }
        8 => {
            if let Some(v) = e.strings.values().last().cloned() {
                for x in e.strings.values_mut() {
                    x.v = if x.p || !v.p { v.v.clone() } else { x.v.clone() };
                }
            }
        }
        9 => {
            if let Some(b) = e.binaries.values().next().cloned() {
                e.binaries.insert("copy".into(), b.clone());
                e.binaries.insert("COPY".into(), b);
            }
        }
        10 => {
            let t = e.times.creation;
            e.times = MTimes { creation: t, expiry: t, access: t, modified: t, location: t, ..e.times.clone() };
        }
        11 => e.bg = e.fg,
        12 => {
            e.bg = Some([0, 0, 0]);
            e.fg = Some([255, 255, 255]);
        }
        13 => e.custom_icon = Some(e.uuid),
        14 => e.tags = e.override_url.clone(),
        15 => e.at_seq = e.tags.clone(),
        16 => {
            let t = e.tags.clone();
            e.strings.insert("Title".into(), MStr { v: t.clone(), p: false });
            e.strings.insert("URL".into(), MStr { v: t, p: true });
        }
        17 => e.history = vec![flat(e); 3],
        18 => e.times.expiry = e.times.modified,
        _ => e.strings.clear(),
    }
}

/// Makes parts of a group equal to each other.
fn coincide_group(g: &mut MGroup, k: u8) {
    match k {
        0 => {
            if let Some(x) = g.entries.last().cloned() {
                g.entries.push(x);
            }
        }
        1 => {
            if let Some(x) = g.groups.first().cloned().filter(|x| x.groups.is_empty()) {
                g.groups.push(x);
            }
        }
        2 => g.notes = g.name.clone(),
        3 => {
            if let Some(e) = g.entries.first() {
                g.last_top = e.uuid;
            }
        }
        4 => g.last_top = g.uuid,
        5 => g.custom_icon = Some(g.uuid),
        6 => {
            let t = g.times.creation;
            g.times = MTimes { creation: t, expiry: t, access: t, modified: t, location: t, ..g.times.clone() };
        }
        7 => g.enable_at = g.enable_search,
        8 => {
            let n = g.name.clone();
            for x in &mut g.groups {
                x.name = n.clone();
            }
        }
        9 => {
            let u = g.uuid;
            for e in &mut g.entries {
                e.uuid = u;
            }
        }
        10 => g.def_seq = g.name.clone(),
        _ => {
            let s = g.entries.iter().flat_map(|e| e.strings.iter()).next().map(|(k, v)| (k.clone(), v.clone()));
            if let Some((k, v)) = s {
                for e in &mut g.entries {
                    e.strings.insert(k.clone(), v.clone());
                }
            }
        }
    }
}

/// Makes parts of the meta data equal to each other.
fn coincide_meta(m: &mut MMeta, k: u8) {
    match k {
        0 => {
            if let Some(b) = m.binaries.values().next().cloned() {
                m.binaries.insert("copy".into(), b.clone());
                m.binaries.insert("7".into(), b);
            }
        }
        1 => {
            if let Some(b) = m.custom_icons.values().next().cloned() {
                m.custom_icons.insert(nid(4), b.clone());
                m.custom_icons.insert(nid(5), b);
            }
        }
        2 => m.description = m.name.clone(),
        3 => m.def_username = m.name.clone(),
        4 => {
            let t = m.name_changed;
            m.def_username_changed = t;
            m.description_changed = t;
            m.templates_changed = t;
            m.key_changed = t;
            m.bin_changed = t;
        }
        5 => {
            let u = m.bin_uuid;
            m.templates = u;
            m.last_selected = u;
            m.last_top_visible = u;
        }
        6 => {
            if let Some(v) = m.custom_data.values().next().cloned() {
                m.custom_data.insert(v.clone(), v.clone());
                m.custom_data.insert(m.name.clone(), v);
            }
        }
        7 => m.history_max_size = m.history_max_items,
        8 => m.key_change_force = m.key_change_rec,
        _ => m.protect = [m.bin_enabled; 5],
    }
}

pub fn entry() -> BS<MEntry> {
    entry_t(time())
}

fn group_flat(t: BS<MTime>) -> BS<MGroup> {
    (
        (id(), text(), text(), 0i32..=68, proptest::option::of(id()), text()),
        (any::<Option<bool>>(), any::<Option<bool>>(), any::<bool>(), id(), times(t)),
    )
        .prop_map(|((uuid, name, notes, icon, custom_icon, def_seq), (enable_at, enable_search, expanded, last_top, times))| MGroup {
            uuid,
            name,
            notes,
            icon,
            custom_icon,
            def_seq,
            enable_at,
            enable_search,
            expanded,
            last_top,
            times,
            entries: Vec::new(),
            groups: Vec::new(),
        })
        .boxed()
}

pub fn tree_t(t: BS<MTime>) -> BS<MGroup> {
    let leaf = (group_flat(t.clone()), vec(entry_t(t.clone()), 0..3)).prop_map(|(mut g, e)| {
        g.entries = e;
        g
    });
    let t2 = t.clone();
    let small = leaf.prop_recursive(4, 10, 3, move |inner| {
        let alike = prop_oneof![3 => Just(Vec::new()), 1 => vec(0u8..12, 1..3)];
        (group_flat(t2.clone()), vec(entry_t(t2.clone()), 0..3), vec(inner, 0..3), alike).prop_map(|(mut g, e, s, ks)| {
            g.entries = e;
            g.groups = s;
            for k in ks {
                coincide_group(&mut g, k);
            }
            g
        })
    });
    prop_oneof![
        20 => small,
        2 => shape(),
    ]
    .boxed()
}

/// Deep chains, wide levels, long entry and history lists of small objects.
pub fn shape() -> BS<MGroup> {
    prop_oneof![
        (1usize..48).prop_map(|d| {
            let mut g = MGroup::blank(nid(d as u32 + 1), &format!("level {}", d));
            g.entries.push(titled(9000 + d as u32, "deepest"));
            for i in (0..d).rev() {
                let mut p = MGroup::blank(nid(i as u32 + 1), &format!("level {}", i));
                if i % 3 == 0 {
                    p.entries.push(titled(1000 + i as u32, "on the way"));
                }
                p.groups.push(g);
                g = p;
            }
            g
        }),
        (1usize..400).prop_map(|n| {
            let mut g = MGroup::blank(nid(1), "wide");
            for i in 0..n {
                g.groups.push(MGroup::blank(nid(i as u32 + 2), &format!("g{}", i)));
            }
            g
        }),
        (1usize..400).prop_map(|n| {
            let mut g = MGroup::blank(nid(1), "many entries");
            for i in 0..n {
                g.entries.push(titled(i as u32 + 2, &format!("e{}", i)));
            }
            g
        }),
        (1usize..120).prop_map(|n| {
            let mut g = MGroup::blank(nid(1), "long history");
            let mut e = titled(2, "current");
            for i in 0..n {
                e.history.push(titled(2, &format!("was {}", i)));
            }
            g.entries.push(e);
            g
        }),
        (1usize..200).prop_map(|n| {
            let mut g = MGroup::blank(nid(1), "many strings");
            let mut e = titled(2, "t");
            for i in 0..n {
                e.set(&format!("key {}", i), &format!("v{}", i), i % 2 == 0);
                e.binaries.insert(format!("file {}", i), if i % 3 == 0 { MBin::Protected(Bytes(pattern(i, 1))) } else { MBin::Plain(Bytes(pattern(i, 2))) });
                e.assoc.push((format!("k{}", i), format!("w{}", i)));
            }
            g.entries.push(e);
            g
        }),
    ]
    .boxed()
}

pub fn nid(n: u32) -> Id {
    let mut a = [0x11; 16];
    a[4..8].copy_from_slice(&n.to_le_bytes());
    a[12..16].copy_from_slice(&n.to_be_bytes());
    Id(a)
}

fn titled(n: u32, t: &str) -> MEntry {
    let mut e = MEntry::blank(nid(n));
    e.set("Title", t, false);
    e.set("Password", &format!("pw {}", t), true);
    e
}

pub fn meta_t(t: BS<MTime>) -> BS<MMeta> {
    (
        (
            rgb(),
            btree_map(text(), text(), 0..4),
            btree_map(id(), bytes(), 0..3),
            btree_map(prop_oneof![select(vec!["0", "1", "2", "10"]).prop_map(|s: &str| s.to_string()), text()], bytes(), 0..4),
            text(),
            text(),
            text(),
            text(),
        ),
        (vec(t, 6), vec(num(), 5), vec(id(), 4), any::<[bool; 5]>(), any::<bool>()),
    )
        .prop_map(|((color, custom_data, custom_icons, binaries, def_username, description, generator, name), (t, n, u, protect, bin_enabled))| MMeta {
            color,
            custom_data,
            custom_icons,
            binaries,
            def_username,
            def_username_changed: t[0],
            description,
            description_changed: t[1],
            templates_changed: t[2],
            templates: u[0],
            generator,
            history_max_items: n[0],
            history_max_size: n[1],
            last_selected: u[1],
            last_top_visible: u[2],
            maintenance_days: n[2],
            key_change_force: n[3],
            key_change_rec: n[4],
            key_changed: t[3],
            name,
            name_changed: t[4],
            protect,
            bin_changed: t[5],
            bin_enabled,
            bin_uuid: u[3],
        })
        .boxed()
}

pub fn comment() -> BS<Option<Bytes>> {
    prop_oneof![
        3 => Just(None),
        3 => bytes().prop_map(|b| Some(Bytes(b.0.into_iter().take(65535).collect()))),
        1 => select(vec![65535usize, 65534, 256, 255, 32768]).prop_map(|n| Some(Bytes(pattern(n, 3)))),
    ]
    .boxed()
}

pub fn rounds() -> BS<u64> {
    prop_oneof![6 => 0u64..4, 2 => 4u64..300, 1 => select(vec![255u64, 256, 257, 1000, 6000, 10_000])].boxed()
}

pub fn version() -> BS<(u16, u16)> {
    prop_oneof![6 => Just((3u16, 1u16)), 1 => Just((3, 0)), 1 => any::<(u16, u16)>()].boxed()
}

fn db_of(meta: BS<MMeta>, root: BS<MGroup>) -> BS<MDb> {
    let alike = prop_oneof![3 => Just(Vec::new()), 1 => vec(0u8..10, 1..4)];
    let meta = (meta, alike).prop_map(|(mut m, ks)| {
        for k in ks {
            coincide_meta(&mut m, k);
        }
        m
    });
    (comment(), any::<bool>(), rounds(), version(), meta, root)
        .prop_map(|(comment, gzip, rounds, version, meta, root)| MDb { comment, gzip, rounds, version, meta, root })
        .boxed()
}

pub fn db() -> BS<MDb> {
    prop_oneof![
        12 => db_of(meta_t(time()), tree_t(time())),
        2 => db_of(Just(MMeta::default()).boxed(), tree_t(time())),
        1 => db_of(meta_t(time()), Just(MGroup::blank(nid(1), "Root")).boxed()),
    ]
    .boxed()
}

pub fn db_extreme_times() -> BS<MDb> {
    db_of(meta_t(extreme_time()), tree_t(extreme_time()))
}

/// A database that holds something large.
pub fn db_big() -> BS<MDb> {
    (small_db(), big_bytes(), 0u8..4, any::<bool>())
        .prop_map(|(mut d, b, place, gzip)| {
            d.gzip = gzip;
            match place {
                0 => {
                    d.meta.binaries.insert("big".into(), b);
                }
                1 => {
                    let mut e = MEntry::blank(nid(77));
                    e.binaries.insert("big".into(), MBin::Protected(b));
                    e.set("Password", "after", true);
                    d.root.entries.push(e);
                }
                2 => {
                    let s: String = b.0.iter().map(|c| (b' ' + c % 90) as char).collect();
                    d.meta.description = s;
                }
                _ => {
                    let s: String = b.0.iter().map(|c| char::from(*c)).collect();
                    let mut e = MEntry::blank(nid(78));
                    e.set("Big", &s, true);
                    e.set("Zzz", "after", true);
                    d.root.entries.push(e);
                }
            }
            d
        })
        .boxed()
}

/// Small content for checks about the container.
pub fn small_db() -> BS<MDb> {
    (
        prop_oneof![Just(None), bytes_small().prop_map(Some)],
        any::<bool>(),
        0u64..3,
        text(),
        vec(entry_small(), 0..3),
        vec((text(), vec(entry_small(), 0..2)), 0..3),
    )
        .prop_map(|(comment, gzip, rounds, name, entries, groups)| {
            let mut d = MDb::blank();
            d.comment = comment;
            d.gzip = gzip;
            d.rounds = rounds;
            d.meta.name = name;
            d.root.entries = entries;
            for (i, (n, es)) in groups.into_iter().enumerate() {
                let mut g = MGroup::blank(nid(i as u32 + 100), &n);
                g.entries = es;
                d.root.groups.push(g);
            }
            d
        })
        .boxed()
}

fn bytes_small() -> BS<Bytes> {
    vec(any::<u8>(), 0..20).prop_map(Bytes).boxed()
}

pub fn entry_small() -> BS<MEntry> {
    (id(), btree_map(string_name(), mstr(), 0..3)).prop_map(|(uuid, strings)| MEntry { strings, ..MEntry::blank(uuid) }).boxed()
}

pub fn key_file() -> BS<MKeyFile> {
    (
        prop_oneof![
            4 => any::<[u8; 32]>().prop_map(|a| a.to_vec()),
            1 => select(vec![vec![0u8; 32], vec![0xff; 32], b"0123456789abcdef0123456789ABCDEF".to_vec(), b"<?xml version=\"1.0\"?><KeyFile>  ".to_vec(), vec![b' '; 32]]),
        ],
        select(vec![KfType::Binary, KfType::Hex, KfType::Xml]),
    )
        .prop_map(|(k, ty)| MKeyFile { key: Bytes(k), ty })
        .boxed()
}

pub fn creds() -> BS<MCreds> {
    prop_oneof![
        4 => any_text().prop_map(|p| MCreds { password: Some(p), keyfile: None }),
        1 => key_file().prop_map(|k| MCreds { password: None, keyfile: Some(k) }),
        2 => (any_text(), key_file()).prop_map(|(p, k)| MCreds { password: Some(p), keyfile: Some(k) }),
    ]
    .boxed()
}

fn pct() -> BS<u8> {
    prop_oneof![3 => Just(0u8), 2 => 1u8..40, 1 => 40u8..=100].boxed()
}

pub fn style() -> BS<Style> {
    (
        any::<u64>(),
        0u8..5,
        0u8..4,
        (pct(), pct(), pct(), pct(), pct(), pct()),
        prop_oneof![4 => Just(0u8), 1 => 1u8..20],
        prop_oneof![9 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(seed, decl, indent, (cdata, charref, comment, selfclose, spacing, squote), split, bom)| Style {
            seed,
            decl,
            bom,
            indent,
            cdata,
            charref: charref / 2,
            comment: comment / 2,
            selfclose,
            spacing,
            squote,
            split,
        })
        .boxed()
}

pub fn block_sizes() -> BS<Vec<u32>> {
    prop_oneof![
        3 => Just(Vec::new()),
        2 => vec(1u32..200, 1..5),
        2 => vec(select(vec![1u32, 16, 31, 32, 33, 100, 511, 512, 1000, 1023, 1024, 4096, 16384]), 1..4),
        1 => Just(vec![1 << 20]),
    ]
    .boxed()
}

pub fn layout() -> BS<Layout> {
    (
        (any::<u64>(), pct(), prop_oneof![3 => Just(0u8), 2 => 1u8..40], pct(), pct(), pct(), pct()),
        (pct(), prop_oneof![2 => Just(0u8), 1 => 1u8..=100], pct(), prop_oneof![8 => Just(true), 1 => Just(false)]),
        (block_sizes(), any::<u64>(), prop_oneof![Just(Bytes(b"\r\n\r\n".to_vec())), Just(Bytes(Vec::new())), bytes_small()], 0u8..=9, any::<bool>()),
        style(),
    )
        .prop_map(|((seed, shuffle, unknown, bool_case, attr_case, offset, omit), (pool_plain, pool_protected, inline_gzip, header_hash), (blocks, hdr_seed, hdr_end, gz_level, gz_name), style)| Layout {
            seed,
            shuffle,
            unknown,
            bool_case,
            attr_case,
            offset,
            omit,
            pool_plain,
            pool_protected,
            inline_gzip,
            header_hash,
            blocks,
            hdr_seed,
            hdr_end,
            gz_level,
            gz_name,
            style,
            mem: 0,
        })
        .boxed()
}

pub fn steps() -> BS<Vec<crate::io::Step>> {
    use crate::io::Step;
    prop_oneof![
        2 => Just(vec![Step::Give(1)]),
        2 => (1u32..40).prop_map(|n| vec![Step::Give(n)]),
        2 => select(vec![2u32, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 4095, 4096, 4097]).prop_map(|n| vec![Step::Give(n)]),
        4 => vec(prop_oneof![4 => (1u32..50).prop_map(Step::Give), 1 => Just(Step::Interrupt), 1 => Just(Step::Give(100_000))], 1..10),
        1 => Just(vec![Step::Interrupt, Step::Give(1)]),
        1 => Just(vec![Step::Interrupt, Step::Give(u32::MAX)]),
    ]
    .boxed()
}
