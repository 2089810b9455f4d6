//! Model <-> KDBX XML tree, written from the format and not from kpdb's code.

use crate::crypto::{b64, gunzip, gzip, unb64, Salsa20};
use crate::model::*;
use crate::rng::mix;
use crate::xmlmini::{El, Node, Style};
use serde::{Deserialize, Serialize};

/// Stands for "the time of the call" where the file holds no time.
pub const NOW: MTime = MTime { s: i64::MIN, ns: 0 };
/// Identifier of the fallback root group (a random one in kpdb).
pub const FALLBACK_ROOT: Id = Id([0xEE; 16]);

// ---------------------------------------------------------------- dates

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

/// ISO 8601 with the given UTC offset in minutes.
pub fn fmt_time(t: MTime, offset_min: i32, frac_digits: Option<usize>) -> String {
    let (s, ns, leap) = if t.ns >= 1_000_000_000 { (t.s, t.ns - 1_000_000_000, 1) } else { (t.s, t.ns, 0) };
    let l = s + offset_min as i64 * 60;
    let (y, m, d) = civil_from_days(l.div_euclid(86400));
    let r = l.rem_euclid(86400);
    let year = if (0..=9999).contains(&y) { format!("{:04}", y) } else { format!("{:+05}", y) };
    let mut o = format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}", year, m, d, r / 3600, r / 60 % 60, r % 60 + leap);
    if ns != 0 || frac_digits.is_some() {
        let f = format!("{:09}", ns);
        let need = f.trim_end_matches('0').len();
        let n = frac_digits.unwrap_or(0).clamp(need.max(1), 9);
        o.push('.');
        o.push_str(&f[..n]);
    }
    if offset_min == 0 {
        o.push('Z');
    } else {
        o.push_str(&format!("{}{:02}:{:02}", if offset_min < 0 { '-' } else { '+' }, offset_min.abs() / 60, offset_min.abs() % 60));
    }
    o
}

/// Strict: what KeePass-compatible programs accept.
pub fn parse_time(s: &str) -> Result<MTime, String> {
    let bad = || format!("bad date {:?}", s);
    let b = s.as_bytes();
    let (sign, rest) = match b.first() {
        Some(b'+') => (1, &s[1..]),
        Some(b'-') => (-1, &s[1..]),
        _ => (1, s),
    };
    let t = rest.find('T').ok_or_else(bad)?;
    let (date, time) = (&rest[..t], &rest[t + 1..]);
    let num = |x: &str| -> Result<i64, String> {
        if !x.is_empty() && x.len() < 10 && x.bytes().all(|c| c.is_ascii_digit()) {
            Ok(x.parse().unwrap())
        } else {
            Err(bad())
        }
    };
    let dp: Vec<&str> = date.split('-').collect();
    if dp.len() != 3 || dp[0].len() < 4 || dp[1].len() != 2 || dp[2].len() != 2 {
        return Err(bad());
    }
    let (y, mo, d) = (sign * num(dp[0])?, num(dp[1])?, num(dp[2])?);
    let (hms, off) = if let Some(p) = time.strip_suffix('Z') {
        (p, 0)
    } else if time.len() > 6 && time.is_char_boundary(time.len() - 6) {
        let (h, o) = time.split_at(time.len() - 6);
        let sg = match &o[..1] {
            "+" => 1,
            "-" => -1,
            _ => return Err(bad()),
        };
        if &o[3..4] != ":" {
            return Err(bad());
        }
        (h, sg * (num(&o[1..3])? * 60 + num(&o[4..6])?))
    } else {
        return Err(bad());
    };
    let (hms, frac) = match hms.find('.') {
        Some(i) => (&hms[..i], Some(&hms[i + 1..])),
        None => (hms, None),
    };
    let tp: Vec<&str> = hms.split(':').collect();
    if tp.len() != 3 || tp.iter().any(|x| x.len() != 2) {
        return Err(bad());
    }
    let (h, mi, se) = (num(tp[0])?, num(tp[1])?, num(tp[2])?);
    let dim = [31, if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > dim[mo as usize - 1] || h > 23 || mi > 59 || se > 60 {
        return Err(bad());
    }
    let ns = match frac {
        None => 0,
        Some(f) => {
            if f.is_empty() || f.len() > 9 || !f.bytes().all(|c| c.is_ascii_digit()) {
                return Err(bad());
            }
            format!("{:0<9}", f).parse::<u32>().unwrap()
        }
    };
    let (se, ns) = if se == 60 { (59, ns + 1_000_000_000) } else { (se, ns) };
    Ok(MTime { s: days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se - off * 60, ns })
}

// ---------------------------------------------------------------- layouts

/// How a file lays out its content. All percentages; choices are a function of the seed.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Layout {
    pub seed: u64,
    pub shuffle: u8,
    pub unknown: u8,
    pub bool_case: u8,
    pub attr_case: u8,
    pub offset: u8,
    pub omit: u8,
    pub pool_plain: u8,
    pub pool_protected: u8,
    pub inline_gzip: u8,
    pub header_hash: bool,
    pub blocks: Vec<u32>,
    pub hdr_seed: u64,
    pub hdr_end: Bytes,
    pub gz_level: u8,
    pub gz_name: bool,
    pub style: Style,
    /// use of the ProtectInMemory attribute of strings
    #[serde(default)]
    pub mem: u8,
}

impl Default for Layout {
    fn default() -> Self {
        Layout {
            seed: 0,
            shuffle: 0,
            unknown: 0,
            bool_case: 0,
            attr_case: 0,
            offset: 0,
            omit: 0,
            pool_plain: 0,
            pool_protected: 0,
            inline_gzip: 0,
            header_hash: true,
            blocks: Vec::new(),
            hdr_seed: 0,
            hdr_end: Bytes(b"\r\n\r\n".to_vec()),
            gz_level: 6,
            gz_name: false,
            style: Style::default(),
            mem: 0,
        }
    }
}

pub struct Roller {
    seed: u64,
    n: u64,
}

impl Roller {
    pub fn new(seed: u64) -> Roller {
        Roller { seed, n: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.n += 1;
        mix(self.seed ^ mix(self.n.wrapping_mul(0x9e37_79b9)))
    }
    pub fn roll(&mut self, pct: u8) -> bool {
        pct > 0 && self.next() % 100 < pct as u64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

struct B<'a> {
    l: &'a Layout,
    r: Roller,
}

impl B<'_> {
    fn b(&mut self, v: bool) -> String {
        let base = if v { "True" } else { "False" };
        if self.r.roll(self.l.bool_case) {
            if self.r.roll(50) { base.to_lowercase() } else { base.to_uppercase() }
        } else {
            base.into()
        }
    }
    fn a(&mut self, n: &str) -> String {
        if self.r.roll(self.l.attr_case) {
            if self.r.roll(50) { n.to_lowercase() } else { n.to_uppercase() }
        } else {
            n.into()
        }
    }
    fn ob(&mut self, v: Option<bool>) -> String {
        match v {
            Some(b) => self.b(b),
            None => if self.r.roll(self.l.bool_case) { "Null".into() } else { "null".into() },
        }
    }
    fn t(&mut self, t: MTime) -> String {
        if self.r.roll(self.l.offset) {
            let off = [60, -60, 120, -300, 330, 765, -720, 1][self.r.below(8)];
            let d = if self.r.roll(30) { Some(self.r.below(9) + 1) } else { None };
            // keep the year within four digits
            if t.s.abs() < 60_000_000_000 { fmt_time(t, off, d) } else { fmt_time(t, 0, None) }
        } else {
            fmt_time(t, 0, None)
        }
    }
    /// Attaches a child unless the layout omits it (only used where absent means this very value).
    fn opt(&mut self, e: &mut El, is_default: bool, c: El) {
        if is_default && self.r.roll(self.l.omit) {
            return;
        }
        e.push(c);
    }
    fn uuid(name: &str, i: Id) -> El {
        El::text(name, &b64(&i.0))
    }
    fn color(name: &str, c: Option<Rgb>) -> El {
        El::text(name, &c.map(|c| format!("#{:02X}{:02X}{:02X}", c[0], c[1], c[2])).unwrap_or_default())
    }
    fn times(&mut self, t: &MTimes) -> El {
        let mut e = El::new("Times");
        for (n, v) in [
            ("CreationTime", t.creation),
            ("LastModificationTime", t.modified),
            ("LastAccessTime", t.access),
            ("ExpiryTime", t.expiry),
            ("LocationChanged", t.location),
        ] {
            let s = self.t(v);
            e.push(El::text(n, &s));
        }
        let s = self.b(t.expires);
        let c = El::text("Expires", &s);
        self.opt(&mut e, !t.expires, c);
        self.opt(&mut e, t.usage == 0, El::text("UsageCount", &t.usage.to_string()));
        self.finish(e)
    }
    /// Shuffles the children (keeping the order of ordered ones) and sprinkles unknown elements.
    fn finish(&mut self, mut e: El) -> El {
        if self.r.roll(self.l.shuffle) && e.kids.len() > 1 {
            let old = std::mem::take(&mut e.kids);
            let n = old.len();
            let mut perm: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let j = self.r.below(i + 1);
                perm.swap(i, j);
            }
            let name = |k: &Node| match k {
                Node::El(e) => e.name.clone(),
                Node::Text(_) => String::new(),
            };
            for kind in ["Entry", "Group", "Association"] {
                let at: Vec<usize> = (0..n).filter(|&i| name(&old[perm[i]]) == kind).collect();
                let mut src: Vec<usize> = at.iter().map(|&i| perm[i]).collect();
                src.sort();
                for (i, s) in at.into_iter().zip(src) {
                    perm[i] = s;
                }
            }
            let mut old: Vec<Option<Node>> = old.into_iter().map(Some).collect();
            e.kids = perm.into_iter().map(|i| old[i].take().unwrap()).collect();
        }
        if self.r.roll(self.l.unknown) {
            let u = self.unknown();
            let at = self.r.below(e.kids.len() + 1);
            e.kids.insert(at, Node::El(u));
        }
        e
    }
    fn unknown(&mut self) -> El {
        match self.r.below(9) {
            6 | 7 => {
                // protected values take their share of the inner stream wherever they are
                let depth = self.r.below(5);
                let (a, t) = (self.a("Protected"), self.b(true));
                let mut e = El::new(if depth == 0 { "X-Secret" } else { "Value" }).attr(&a, &t);
                let n = self.r.below(90);
                e.secret = Some(Bytes((0..n).map(|_| self.r.below(256) as u8).collect()));
                for i in 0..depth {
                    let mut o = El::new(["String", "X-Level", "Entry", "X-Top"][i]);
                    if self.r.below(3) == 0 {
                        o.push(El::text("Key", "Password"));
                    }
                    let mut twin = e.clone();
                    o.push(e);
                    if self.r.below(4) == 0 {
                        if let Some(b) = &mut twin.secret {
                            b.0.push(7);
                        }
                        o.push(twin);
                    }
                    if self.r.below(3) == 0 {
                        o.push(El::text("X-Text", "after"));
                    }
                    e = o;
                }
                if depth > 0 {
                    e.name = "X-Top".to_string();
                }
                e
            }
            8 => {
                // text and elements mixed
                let mut d = El::text("X-Mixed", "before");
                d.kids.push(Node::El(El::text("X-Inner", "inner")));
                d.kids.push(Node::Text("behind".into()));
                d
            }
            0 => El::text("SettingsChanged", "2015-10-17T12:34:56Z"),
            1 => El::new("PluginMark").attr("Name", "x").attr("Protected", "False"),
            2 => {
                let mut d = El::new("DeletedObjects");
                let mut o = El::new("DeletedObject");
                o.push(El::text("UUID", &b64(&[9; 16])));
                o.push(El::text("DeletionTime", "2015-10-17T12:34:56Z"));
                d.push(o);
                d
            }
            3 => {
                // an extension that holds elements with known names
                let mut d = El::new("X-Extension");
                d.push(El::text("Name", "not the name"));
                d.push(El::text("UUID", &b64(&[3; 16])));
                d.push(El::text("Notes", "no notes"));
                d.push(El::text("IconID", "7"));
                let mut v = El::new("Value");
                v.push(El::text("Color", "#010203"));
                d.push(v);
                d
            }
            4 => {
                let mut d = El::new("X-Tree");
                let mut g = El::new("Group");
                g.push(El::text("Name", "nested unknown"));
                let mut en = El::new("Entry");
                en.push(El::text("Tags", "nested unknown"));
                g.push(en);
                d.push(g);
                d
            }
            _ => {
                let mut d = El::text("X-Text", "some & text");
                d.kids.push(Node::El(El::new("X-Empty")));
                d
            }
        }
    }
    /// An attribute no reader knows, with a name or value like that of a known one.
    fn odd_attr(&mut self, e: El) -> El {
        if !self.r.roll(self.l.unknown / 3) {
            return e;
        }
        let n = ["P", "Protect", "ProtectedBy", "UnProtected", "Comp", "CompressedSize", "I", "IDRef", "Re", "Reference", "x", "Kind", "Type", "Hash"][self.r.below(14)];
        let v = ["True", "true", "0", "1", "False", "", "x", "AAAA"][self.r.below(8)];
        let mut e = e.attr(n, v);
        if self.r.roll(50) && e.attrs.len() > 1 {
            e.attrs.rotate_right(1);
        }
        e
    }
    fn bin_value(&mut self, v: &MBin) -> El {
        let mut e = El::new("Value");
        match v {
            MBin::Ref(id) => {
                let a = self.a("Ref");
                e = e.attr(&a, id);
            }
            MBin::Protected(b) => {
                let (a, t) = (self.a("Protected"), self.b(true));
                e = e.attr(&a, &t);
                e.secret = Some(b.clone());
            }
            MBin::Plain(b) => {
                if self.r.roll(self.l.inline_gzip) {
                    let (a, t) = (self.a("Compressed"), self.b(true));
                    e = e.attr(&a, &t);
                    e.kids = El::text("", &b64(&gzip(&b.0, self.l.gz_level, None))).kids;
                } else {
                    if self.r.roll(self.l.bool_case) {
                        let (a, t) = (self.a("Protected"), self.b(false));
                        e = e.attr(&a, &t);
                    }
                    e.kids = El::text("", &b64(&b.0)).kids;
                }
            }
        }
        e
    }
    fn entry(&mut self, m: &MEntry, active: bool) -> El {
        let mut e = El::new("Entry");
        e.push(Self::uuid("UUID", m.uuid));
        self.opt(&mut e, m.icon == 0, El::text("IconID", &m.icon.to_string()));
        if let Some(i) = m.custom_icon {
            e.push(Self::uuid("CustomIconUUID", i));
        } else if !self.r.roll(50) {
            e.push(El::new("CustomIconUUID"));
        }
        self.opt(&mut e, m.fg.is_none(), Self::color("ForegroundColor", m.fg));
        self.opt(&mut e, m.bg.is_none(), Self::color("BackgroundColor", m.bg));
        self.opt(&mut e, m.override_url.is_empty(), El::text("OverrideURL", &m.override_url));
        self.opt(&mut e, m.tags.is_empty(), El::text("Tags", &m.tags));
        let t = self.times(&m.times);
        e.push(t);
        for (k, v) in &m.strings {
            let mut s = El::new("String");
            s.push(El::text("Key", k));
            let mut val = El::new("Value");
            if self.r.roll(self.l.mem) {
                let (a, t) = (self.a("ProtectInMemory"), self.b(v.p));
                val = val.attr(&a, &t);
                if v.p && crate::xmlmini::legal_text(&v.v) && self.r.roll(70) {
                    val.kids = El::text("", &v.v).kids;
                    s.push(val);
                    let s = self.finish(s);
                    e.push(s);
                    continue;
                }
            }
            if v.p {
                let (a, t) = (self.a("Protected"), self.b(true));
                val = val.attr(&a, &t);
                val.secret = Some(Bytes(v.v.clone().into_bytes()));
            } else {
                if self.r.roll(self.l.bool_case) {
                    let (a, t) = (self.a("Protected"), self.b(false));
                    val = val.attr(&a, &t);
                }
                val.kids = El::text("", &v.v).kids;
            }
            let val = self.odd_attr(val);
            s.push(val);
            let s = self.finish(s);
            e.push(s);
        }
        for (k, v) in &m.binaries {
            let mut s = El::new("Binary");
            s.push(El::text("Key", k));
            let v = self.bin_value(v);
            let v = self.odd_attr(v);
            s.push(v);
            let s = self.finish(s);
            e.push(s);
        }
        let mut at = El::new("AutoType");
        let s = self.b(m.at_enabled);
        self.opt(&mut at, m.at_enabled, El::text("Enabled", &s));
        self.opt(&mut at, m.at_obf == 0, El::text("DataTransferObfuscation", &m.at_obf.to_string()));
        self.opt(&mut at, m.at_seq.is_empty(), El::text("DefaultSequence", &m.at_seq));
        for (k, w) in &m.assoc {
            let mut a = El::new("Association");
            a.push(El::text("Window", w));
            a.push(El::text("KeystrokeSequence", k));
            let a = self.finish(a);
            at.push(a);
        }
        let empty = at.kids.is_empty();
        let at = self.finish(at);
        self.opt(&mut e, empty, at);
        if active {
            let mut h = El::new("History");
            for x in &m.history {
                let c = self.entry(x, false);
                h.push(c);
            }
            let h = if self.r.roll(20) { self.finish(h) } else { h };
            self.opt(&mut e, m.history.is_empty(), h);
        }
        self.finish(e)
    }
    fn group(&mut self, m: &MGroup) -> El {
        let mut e = El::new("Group");
        e.push(Self::uuid("UUID", m.uuid));
        self.opt(&mut e, m.name.is_empty(), El::text("Name", &m.name));
        self.opt(&mut e, m.notes.is_empty(), El::text("Notes", &m.notes));
        self.opt(&mut e, m.icon == 48, El::text("IconID", &m.icon.to_string()));
        if let Some(i) = m.custom_icon {
            e.push(Self::uuid("CustomIconUUID", i));
        }
        let t = self.times(&m.times);
        e.push(t);
        let s = self.b(m.expanded);
        self.opt(&mut e, m.expanded, El::text("IsExpanded", &s));
        self.opt(&mut e, m.def_seq.is_empty(), El::text("DefaultAutoTypeSequence", &m.def_seq));
        let s = self.ob(m.enable_at);
        self.opt(&mut e, m.enable_at.is_none(), El::text("EnableAutoType", &s));
        let s = self.ob(m.enable_search);
        self.opt(&mut e, m.enable_search.is_none(), El::text("EnableSearching", &s));
        self.opt(&mut e, m.last_top == Id::default(), Self::uuid("LastTopVisibleEntry", m.last_top));
        for x in &m.entries {
            let c = self.entry(x, true);
            e.push(c);
        }
        for g in &m.groups {
            let c = self.group(g);
            e.push(c);
        }
        self.finish(e)
    }
    fn meta(&mut self, m: &MMeta) -> El {
        let mut e = El::new("Meta");
        let d = MMeta::default();
        e.push(El::text("Generator", &m.generator));
        for (n, v, vd) in [
            ("DatabaseName", &m.name, &d.name),
            ("DatabaseDescription", &m.description, &d.description),
            ("DefaultUserName", &m.def_username, &d.def_username),
        ] {
            self.opt(&mut e, v == vd, El::text(n, v));
        }
        for (n, v) in [
            ("DatabaseNameChanged", m.name_changed),
            ("DatabaseDescriptionChanged", m.description_changed),
            ("DefaultUserNameChanged", m.def_username_changed),
            ("MasterKeyChanged", m.key_changed),
            ("RecycleBinChanged", m.bin_changed),
            ("EntryTemplatesGroupChanged", m.templates_changed),
        ] {
            let s = self.t(v);
            e.push(El::text(n, &s));
        }
        for (n, v, vd) in [
            ("MaintenanceHistoryDays", m.maintenance_days, d.maintenance_days),
            ("MasterKeyChangeRec", m.key_change_rec, d.key_change_rec),
            ("MasterKeyChangeForce", m.key_change_force, d.key_change_force),
            ("HistoryMaxItems", m.history_max_items, d.history_max_items),
            ("HistoryMaxSize", m.history_max_size, d.history_max_size),
        ] {
            self.opt(&mut e, v == vd, El::text(n, &v.to_string()));
        }
        self.opt(&mut e, m.color.is_none(), Self::color("Color", m.color));
        let mut p = El::new("MemoryProtection");
        for (i, n) in ["ProtectNotes", "ProtectPassword", "ProtectTitle", "ProtectURL", "ProtectUserName"].iter().enumerate() {
            let s = self.b(m.protect[i]);
            self.opt(&mut p, m.protect[i] == d.protect[i], El::text(n, &s));
        }
        let p = self.finish(p);
        e.push(p);
        let mut ci = El::new("CustomIcons");
        for (i, data) in &m.custom_icons {
            let mut x = El::new("Icon");
            x.push(Self::uuid("UUID", *i));
            x.push(El::text("Data", &b64(&data.0)));
            let x = self.finish(x);
            ci.push(x);
        }
        let ci = self.finish(ci);
        self.opt(&mut e, m.custom_icons.is_empty(), ci);
        let s = self.b(m.bin_enabled);
        self.opt(&mut e, m.bin_enabled, El::text("RecycleBinEnabled", &s));
        for (n, v) in [
            ("RecycleBinUUID", m.bin_uuid),
            ("EntryTemplatesGroup", m.templates),
            ("LastSelectedGroup", m.last_selected),
            ("LastTopVisibleGroup", m.last_top_visible),
        ] {
            self.opt(&mut e, v == Id::default(), Self::uuid(n, v));
        }
        let mut bs = El::new("Binaries");
        for (i, data) in &m.binaries {
            let a = self.a("ID");
            let mut x = El::new("Binary").attr(&a, i);
            if self.r.roll(self.l.pool_protected) {
                let (a, t) = (self.a("Protected"), self.b(true));
                x = x.attr(&a, &t);
                x.secret = Some(data.clone());
            } else if self.r.roll(self.l.pool_plain) {
                if self.r.roll(self.l.bool_case) {
                    let (a, t) = (self.a("Compressed"), self.b(false));
                    x = x.attr(&a, &t);
                }
                x.kids = El::text("", &b64(&data.0)).kids;
            } else {
                let (a, t) = (self.a("Compressed"), self.b(true));
                x = x.attr(&a, &t);
                x.kids = El::text("", &b64(&gzip(&data.0, self.l.gz_level, None))).kids;
            }
            let x = self.odd_attr(x);
            bs.push(x);
        }
        let bs = self.finish(bs);
        self.opt(&mut e, m.binaries.is_empty(), bs);
        let mut cd = El::new("CustomData");
        for (k, v) in &m.custom_data {
            let mut x = El::new("Item");
            x.push(El::text("Key", k));
            let val = El::text("Value", v);
            x.push(val);
            let x = self.finish(x);
            cd.push(x);
        }
        let cd = self.finish(cd);
        self.opt(&mut e, m.custom_data.is_empty(), cd);
        self.finish(e)
    }
}

/// The KeePassFile element without the header hash; protected values are still plain.
pub fn to_xml(db: &MDb, l: &Layout) -> El {
    let mut b = B { l, r: Roller::new(l.seed) };
    let mut root = El::new("KeePassFile");
    let m = b.meta(&db.meta);
    root.push(m);
    let mut r = El::new("Root");
    let g = b.group(&db.root);
    r.push(g);
    if b.r.roll(50) {
        r.push(El::new("DeletedObjects"));
    }
    let r = b.finish(r);
    root.push(r);
    b.finish(root)
}

/// Puts the header hash into Meta (first position or a seeded one).
pub fn add_header_hash(root: &mut El, hash: &[u8], seed: u64) {
    for k in &mut root.kids {
        if let Node::El(e) = k {
            if e.name == "Meta" {
                let at = (mix(seed ^ 77) % (e.kids.len() as u64 + 1)) as usize;
                e.kids.insert(at, Node::El(El::text("HeaderHash", &b64(hash))));
            }
        }
    }
}

/// Encrypts the protected values in document order.
pub fn seal(e: &mut El, cipher: &mut Salsa20) {
    if let Some(b) = e.secret.take() {
        let t = b64(&cipher.apply(&b.0));
        e.kids = El::text("", &t).kids;
    }
    for k in &mut e.kids {
        if let Node::El(c) = k {
            seal(c, cipher);
        }
    }
}

// ---------------------------------------------------------------- decoder

/// Decrypts the protected values in document order, those of unknown elements included.
fn unseal(e: &mut El, cipher: &mut Salsa20) {
    let protected = e.attrs.iter().any(|(k, v)| k.eq_ignore_ascii_case("Protected") && v.eq_ignore_ascii_case("true"));
    if protected {
        if let Some(v) = e.only_text().and_then(|t| unb64(&t).ok()) {
            e.secret = Some(Bytes(cipher.apply(&v)));
        }
    }
    for k in &mut e.kids {
        if let Node::El(c) = k {
            unseal(c, cipher);
        }
    }
}

struct D {
    /// Unknown or repeated elements and non-canonical spellings are errors.
    strict: bool,
    pub protected: usize,
}

/// What a decoder found besides the content.
#[derive(Default, Debug)]
pub struct Extra {
    pub header_hash: Option<Vec<u8>>,
    pub protected: usize,
    pub root_present: bool,
}

pub fn from_xml(root: &El, cipher: &mut Salsa20, strict: bool) -> Result<(MMeta, MGroup, Extra), String> {
    let mut open = root.clone();
    unseal(&mut open, cipher);
    let root = &open;
    let mut d = D { strict, protected: 0 };
    let mut x = Extra::default();
    if root.name != "KeePassFile" {
        return Err(format!("root element is {}", root.name));
    }
    let mut meta = blank_meta();
    let mut group = MGroup { times: now_times(), ..MGroup::blank(FALLBACK_ROOT, "Root") };
    d.only(root, &["Meta", "Root"])?;
    for e in root.els() {
        match e.name.as_str() {
            "Meta" => meta = d.meta(e, &mut x)?,
            "Root" => {
                d.only(e, &["Group", "DeletedObjects"])?;
                for g in e.els() {
                    if g.name == "Group" {
                        group = d.group(g)?;
                        x.root_present = true;
                    }
                }
            }
            _ => {}
        }
    }
    x.protected = d.protected;
    Ok((meta, group, x))
}

pub fn now_times() -> MTimes {
    MTimes { creation: NOW, expiry: NOW, expires: false, access: NOW, modified: NOW, location: NOW, usage: 0 }
}

fn blank_meta() -> MMeta {
    MMeta {
        def_username_changed: NOW,
        description_changed: NOW,
        templates_changed: NOW,
        key_changed: NOW,
        name_changed: NOW,
        bin_changed: NOW,
        ..MMeta::default()
    }
}

impl D {
    fn only(&self, e: &El, names: &[&str]) -> Result<(), String> {
        if !self.strict {
            return Ok(());
        }
        let mut seen: Vec<&str> = Vec::new();
        for k in &e.kids {
            match k {
                Node::Text(t) if t.trim().is_empty() => {}
                Node::Text(t) => return Err(format!("text {:?} inside {}", t, e.name)),
                Node::El(c) => {
                    let n = c.name.as_str();
                    if !names.contains(&n) {
                        return Err(format!("unknown element {} in {}", n, e.name));
                    }
                    let many = matches!(n, "Entry" | "Group" | "Association" | "String" | "Item" | "Icon") || (n == "Binary");
                    if seen.contains(&n) && !(many && !(e.name == "Root")) {
                        return Err(format!("element {} twice in {}", n, e.name));
                    }
                    seen.push(n);
                }
            }
        }
        Ok(())
    }
    fn text(&self, e: &El) -> Result<String, String> {
        e.only_text().ok_or_else(|| format!("{} contains elements", e.name))
    }
    fn boolean(&self, s: &str) -> Result<bool, String> {
        let t = if self.strict { s.to_string() } else { s.to_lowercase() };
        match t.as_str() {
            "True" => Ok(true),
            "False" => Ok(false),
            "true" if !self.strict => Ok(true),
            "false" if !self.strict => Ok(false),
            _ => Err(format!("bad boolean {:?}", s)),
        }
    }
    fn b(&self, e: &El) -> Result<bool, String> {
        let t = self.text(e)?;
        self.boolean(&t).map_err(|m| format!("{}: {}", e.name, m))
    }
    fn ob(&self, e: &El) -> Result<Option<bool>, String> {
        let t = self.text(e)?;
        if t == "null" || (!self.strict && t.to_lowercase() == "null") || (!self.strict && t.is_empty()) {
            return Ok(None);
        }
        self.boolean(&t).map(Some).map_err(|m| format!("{}: {}", e.name, m))
    }
    fn i(&self, e: &El) -> Result<i32, String> {
        let t = self.text(e)?;
        let v: i32 = t.parse().map_err(|_| format!("{}: bad number {:?}", e.name, t))?;
        if self.strict && v.to_string() != t {
            return Err(format!("{}: unusual number {:?}", e.name, t));
        }
        Ok(v)
    }
    fn time(&self, e: &El) -> Result<MTime, String> {
        let t = self.text(e)?;
        parse_time(&t).map_err(|m| format!("{}: {}", e.name, m))
    }
    fn bytes(&self, e: &El) -> Result<Vec<u8>, String> {
        unb64(&self.text(e)?).map_err(|m| format!("{}: {}", e.name, m))
    }
    fn id(&self, e: &El) -> Result<Id, String> {
        let v = self.bytes(e)?;
        <[u8; 16]>::try_from(&v[..]).map(Id).map_err(|_| format!("{}: identifier has {} bytes", e.name, v.len()))
    }
    fn oid(&self, e: &El) -> Result<Option<Id>, String> {
        if self.text(e)?.is_empty() { Ok(None) } else { self.id(e).map(Some) }
    }
    fn color(&self, e: &El) -> Result<Option<Rgb>, String> {
        let t = self.text(e)?;
        if t.is_empty() {
            return Ok(None);
        }
        let v = t.strip_prefix('#').filter(|h| h.len() == 6).and_then(crate::crypto::unhex);
        match v {
            Some(v) if v.len() == 3 => Ok(Some([v[0], v[1], v[2]])),
            _ => Err(format!("{}: bad color {:?}", e.name, t)),
        }
    }
    fn attr(&self, e: &El, n: &str) -> Option<String> {
        if self.strict {
            e.get_attr(n).map(|s| s.to_string())
        } else {
            e.attrs.iter().find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone())
        }
    }
    fn flag(&self, e: &El, n: &str) -> Result<bool, String> {
        match self.attr(e, n) {
            None => Ok(false),
            Some(v) => self.boolean(&v).map_err(|m| format!("attribute {}: {}", n, m)),
        }
    }
    fn attrs_only(&self, e: &El, names: &[&str]) -> Result<(), String> {
        if self.strict {
            for (k, _) in &e.attrs {
                if !names.contains(&k.as_str()) {
                    return Err(format!("attribute {} on {}", k, e.name));
                }
            }
        }
        Ok(())
    }
    /// Binary content of a Binary or Value element.
    fn content(&mut self, e: &El) -> Result<(Vec<u8>, bool), String> {
        let v = self.bytes(e)?;
        if self.flag(e, "Protected")? {
            self.protected += 1;
            return Ok((e.secret.clone().ok_or("protected value without text")?.0, true));
        }
        if self.flag(e, "Compressed")? {
            return Ok((if v.is_empty() { v } else { gunzip(&v)? }, false));
        }
        Ok((v, false))
    }

    fn meta(&mut self, e: &El, x: &mut Extra) -> Result<MMeta, String> {
        let mut m = blank_meta();
        self.only(
            e,
            &[
                "Generator", "HeaderHash", "DatabaseName", "DatabaseNameChanged", "DatabaseDescription",
                "DatabaseDescriptionChanged", "DefaultUserName", "DefaultUserNameChanged", "MaintenanceHistoryDays",
                "Color", "MasterKeyChanged", "MasterKeyChangeRec", "MasterKeyChangeForce", "MemoryProtection",
                "CustomIcons", "RecycleBinEnabled", "RecycleBinUUID", "RecycleBinChanged", "EntryTemplatesGroup",
                "EntryTemplatesGroupChanged", "HistoryMaxItems", "HistoryMaxSize", "LastSelectedGroup",
                "LastTopVisibleGroup", "Binaries", "CustomData",
            ],
        )?;
        for c in e.els() {
            match c.name.as_str() {
                "Generator" => m.generator = self.text(c)?,
                "HeaderHash" => x.header_hash = Some(self.bytes(c)?),
                "DatabaseName" => m.name = self.text(c)?,
                "DatabaseNameChanged" => m.name_changed = self.time(c)?,
                "DatabaseDescription" => m.description = self.text(c)?,
                "DatabaseDescriptionChanged" => m.description_changed = self.time(c)?,
                "DefaultUserName" => m.def_username = self.text(c)?,
                "DefaultUserNameChanged" => m.def_username_changed = self.time(c)?,
                "MaintenanceHistoryDays" => m.maintenance_days = self.i(c)?,
                "Color" => m.color = self.color(c)?,
                "MasterKeyChanged" => m.key_changed = self.time(c)?,
                "MasterKeyChangeRec" => m.key_change_rec = self.i(c)?,
                "MasterKeyChangeForce" => m.key_change_force = self.i(c)?,
                "HistoryMaxItems" => m.history_max_items = self.i(c)?,
                "HistoryMaxSize" => m.history_max_size = self.i(c)?,
                "RecycleBinEnabled" => m.bin_enabled = self.b(c)?,
                "RecycleBinUUID" => m.bin_uuid = self.id(c)?,
                "RecycleBinChanged" => m.bin_changed = self.time(c)?,
                "EntryTemplatesGroup" => m.templates = self.id(c)?,
                "EntryTemplatesGroupChanged" => m.templates_changed = self.time(c)?,
                "LastSelectedGroup" => m.last_selected = self.id(c)?,
                "LastTopVisibleGroup" => m.last_top_visible = self.id(c)?,
                "MemoryProtection" => {
                    let names = ["ProtectNotes", "ProtectPassword", "ProtectTitle", "ProtectURL", "ProtectUserName"];
                    self.only(c, &names)?;
                    for p in c.els() {
                        if let Some(i) = names.iter().position(|n| *n == p.name) {
                            m.protect[i] = self.b(p)?;
                        }
                    }
                }
                "CustomIcons" => {
                    self.only(c, &["Icon"])?;
                    for i in c.els().filter(|i| i.name == "Icon") {
                        self.only(i, &["UUID", "Data"])?;
                        let (mut u, mut data) = (None, None);
                        for p in i.els() {
                            match p.name.as_str() {
                                "UUID" => u = Some(self.id(p)?),
                                "Data" => data = Some(self.bytes(p)?),
                                _ => {}
                            }
                        }
                        let u = u.ok_or("icon without UUID")?;
                        let dup = m.custom_icons.insert(u, Bytes(data.ok_or("icon without data")?)).is_some();
                        if dup && self.strict {
                            return Err("icon twice".into());
                        }
                    }
                }
                "Binaries" => {
                    self.only(c, &["Binary"])?;
                    for b in c.els().filter(|i| i.name == "Binary") {
                        self.attrs_only(b, &["ID", "Compressed", "Protected"])?;
                        let i = self.attr(b, "ID").ok_or("binary without ID")?;
                        let (v, _) = self.content(b)?;
                        if m.binaries.insert(i, Bytes(v)).is_some() && self.strict {
                            return Err("binary ID twice".into());
                        }
                    }
                }
                "CustomData" => {
                    self.only(c, &["Item"])?;
                    for i in c.els().filter(|i| i.name == "Item") {
                        self.only(i, &["Key", "Value"])?;
                        let (mut k, mut v) = (None, None);
                        for p in i.els() {
                            match p.name.as_str() {
                                "Key" => k = Some(self.text(p)?),
                                "Value" => v = Some(self.text(p)?),
                                _ => {}
                            }
                        }
                        let k = k.ok_or("item without key")?;
                        if m.custom_data.insert(k, v.ok_or("item without value")?).is_some() && self.strict {
                            return Err("custom data key twice".into());
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(m)
    }
    fn times(&mut self, e: &El) -> Result<MTimes, String> {
        self.only(
            e,
            &["CreationTime", "LastModificationTime", "LastAccessTime", "ExpiryTime", "Expires", "UsageCount", "LocationChanged"],
        )?;
        let mut t = now_times();
        for c in e.els() {
            match c.name.as_str() {
                "CreationTime" => t.creation = self.time(c)?,
                "LastModificationTime" => t.modified = self.time(c)?,
                "LastAccessTime" => t.access = self.time(c)?,
                "ExpiryTime" => t.expiry = self.time(c)?,
                "Expires" => t.expires = self.b(c)?,
                "UsageCount" => t.usage = self.i(c)?,
                "LocationChanged" => t.location = self.time(c)?,
                _ => {}
            }
        }
        Ok(t)
    }
    fn group(&mut self, e: &El) -> Result<MGroup, String> {
        self.only(
            e,
            &[
                "UUID", "Name", "Notes", "IconID", "CustomIconUUID", "Times", "IsExpanded", "DefaultAutoTypeSequence",
                "EnableAutoType", "EnableSearching", "LastTopVisibleEntry", "Entry", "Group",
            ],
        )?;
        let mut g = MGroup { times: now_times(), ..MGroup::blank(Id::default(), "") };
        for c in e.els() {
            match c.name.as_str() {
                "UUID" => g.uuid = self.id(c)?,
                "Name" => g.name = self.text(c)?,
                "Notes" => g.notes = self.text(c)?,
                "IconID" => g.icon = self.icon(c)?,
                "CustomIconUUID" => g.custom_icon = self.oid(c)?,
                "Times" => g.times = self.times(c)?,
                "IsExpanded" => g.expanded = self.b(c)?,
                "DefaultAutoTypeSequence" => g.def_seq = self.text(c)?,
                "EnableAutoType" => g.enable_at = self.ob(c)?,
                "EnableSearching" => g.enable_search = self.ob(c)?,
                "LastTopVisibleEntry" => g.last_top = self.id(c)?,
                "Entry" => g.entries.push(self.entry(c, true)?),
                "Group" => g.groups.push(self.group(c)?),
                _ => {}
            }
        }
        Ok(g)
    }
    fn icon(&self, e: &El) -> Result<i32, String> {
        let i = self.i(e)?;
        if (0..=68).contains(&i) { Ok(i) } else { Err(format!("icon {}", i)) }
    }
    fn entry(&mut self, e: &El, active: bool) -> Result<MEntry, String> {
        let names: &[&str] = &[
            "UUID", "IconID", "CustomIconUUID", "ForegroundColor", "BackgroundColor", "OverrideURL", "Tags", "Times",
            "String", "Binary", "AutoType", "History",
        ];
        self.only(e, if active { names } else { &names[..names.len() - 1] })?;
        let mut n = MEntry { times: now_times(), ..MEntry::blank(Id::default()) };
        for c in e.els() {
            match c.name.as_str() {
                "UUID" => n.uuid = self.id(c)?,
                "IconID" => n.icon = self.icon(c)?,
                "CustomIconUUID" => n.custom_icon = self.oid(c)?,
                "ForegroundColor" => n.fg = self.color(c)?,
                "BackgroundColor" => n.bg = self.color(c)?,
                "OverrideURL" => n.override_url = self.text(c)?,
                "Tags" => n.tags = self.text(c)?,
                "Times" => n.times = self.times(c)?,
                "String" => {
                    let (k, v) = self.string(c)?;
                    if n.strings.insert(k.clone(), v).is_some() && self.strict {
                        return Err(format!("string {:?} twice", k));
                    }
                }
                "Binary" => {
                    self.only(c, &["Key", "Value"])?;
                    let (mut k, mut v) = (None, None);
                    for p in c.els() {
                        match p.name.as_str() {
                            "Key" => k = Some(self.text(p)?),
                            "Value" => {
                                self.attrs_only(p, &["Ref", "Protected", "Compressed"])?;
                                v = Some(if let Some(r) = self.attr(p, "Ref") {
                                    MBin::Ref(r)
                                } else {
                                    match self.content(p)? {
                                        (b, true) => MBin::Protected(Bytes(b)),
                                        (b, false) => MBin::Plain(Bytes(b)),
                                    }
                                });
                            }
                            _ => {}
                        }
                    }
                    let k = k.ok_or("binary without key")?;
                    if n.binaries.insert(k, v.ok_or("binary without value")?).is_some() && self.strict {
                        return Err("binary key twice".into());
                    }
                }
                "AutoType" => {
                    self.only(c, &["Enabled", "DataTransferObfuscation", "DefaultSequence", "Association"])?;
                    for p in c.els() {
                        match p.name.as_str() {
                            "Enabled" => n.at_enabled = self.b(p)?,
                            "DataTransferObfuscation" => {
                                n.at_obf = self.i(p)?;
                                if !(0..=1).contains(&n.at_obf) {
                                    return Err("obfuscation".into());
                                }
                            }
                            "DefaultSequence" => n.at_seq = self.text(p)?,
                            "Association" => {
                                self.only(p, &["Window", "KeystrokeSequence"])?;
                                let (mut w, mut k) = (None, None);
                                for q in p.els() {
                                    match q.name.as_str() {
                                        "Window" => w = Some(self.text(q)?),
                                        "KeystrokeSequence" => k = Some(self.text(q)?),
                                        _ => {}
                                    }
                                }
                                n.assoc.push((k.ok_or("association without sequence")?, w.ok_or("association without window")?));
                            }
                            _ => {}
                        }
                    }
                }
                "History" if active => {
                    self.only(c, &["Entry"])?;
                    for h in c.els().filter(|h| h.name == "Entry") {
                        n.history.push(self.entry(h, false)?);
                    }
                }
                _ => {}
            }
        }
        Ok(n)
    }
    fn string(&mut self, c: &El) -> Result<(String, MStr), String> {
        self.only(c, &["Key", "Value"])?;
        let (mut k, mut v) = (None, None);
        for p in c.els() {
            match p.name.as_str() {
                "Key" => k = Some(self.text(p)?),
                "Value" => {
                    self.attrs_only(p, &["Protected"])?;
                    v = Some(if self.flag(p, "Protected")? {
                        self.bytes(p)?;
                        self.protected += 1;
                        let plain = p.secret.clone().ok_or("protected value without text")?.0;
                        MStr { v: String::from_utf8(plain).map_err(|_| "protected string is not UTF-8")?, p: true }
                    } else {
                        MStr { v: self.text(p)?, p: false }
                    });
                }
                _ => {}
            }
        }
        Ok((k.ok_or("string without key")?, v.ok_or("string without value")?))
    }
}

