//! A plain-data model of a KeePass 2 database, free of kpdb types.

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

/// Byte string, base64 in JSON.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Bytes(pub Vec<u8>);

impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() <= 64 {
            write!(f, "h'{}'", crate::crypto::hex(&self.0))
        } else {
            write!(f, "h'{}..'({} bytes)", crate::crypto::hex(&self.0[..32]), self.0.len())
        }
    }
}

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::crypto::b64(&self.0))
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        crate::crypto::unb64(&s).map(Bytes).map_err(serde::de::Error::custom)
    }
}

/// 16 byte identifier, hex in JSON.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
pub struct Id(pub [u8; 16]);

impl std::fmt::Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", crate::crypto::hex(&self.0))
    }
}

impl Serialize for Id {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::crypto::hex(&self.0))
    }
}

impl<'de> Deserialize<'de> for Id {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = crate::crypto::unhex(&s).ok_or_else(|| serde::de::Error::custom("hex"))?;
        let mut a = [0u8; 16];
        if v.len() != 16 {
            return Err(serde::de::Error::custom("length"));
        }
        a.copy_from_slice(&v);
        Ok(Id(a))
    }
}

/// Seconds since the epoch and nanoseconds (nanoseconds >= 10^9 mean a leap second, as in chrono).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize, Hash)]
pub struct MTime {
    pub s: i64,
    pub ns: u32,
}

pub const T0: MTime = MTime { s: 1_445_085_296, ns: 0 };

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct MTimes {
    pub creation: MTime,
    pub expiry: MTime,
    pub expires: bool,
    pub access: MTime,
    pub modified: MTime,
    pub location: MTime,
    pub usage: i32,
}

impl Default for MTimes {
    fn default() -> Self {
        MTimes { creation: T0, expiry: T0, expires: false, access: T0, modified: T0, location: T0, usage: 0 }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct MStr {
    pub v: String,
    pub p: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum MBin {
    Plain(Bytes),
    Protected(Bytes),
    Ref(String),
}

pub type Rgb = [u8; 3];

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct MEntry {
    pub uuid: Id,
    pub strings: BTreeMap<String, MStr>,
    pub binaries: BTreeMap<String, MBin>,
    pub assoc: Vec<(String, String)>,
    pub at_seq: String,
    pub at_enabled: bool,
    pub at_obf: i32,
    pub bg: Option<Rgb>,
    pub fg: Option<Rgb>,
    pub custom_icon: Option<Id>,
    pub icon: i32,
    pub override_url: String,
    pub tags: String,
    pub times: MTimes,
    pub history: Vec<MEntry>,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct MGroup {
    pub uuid: Id,
    pub name: String,
    pub notes: String,
    pub icon: i32,
    pub custom_icon: Option<Id>,
    pub def_seq: String,
    pub enable_at: Option<bool>,
    pub enable_search: Option<bool>,
    pub expanded: bool,
    pub last_top: Id,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct MMeta {
    pub color: Option<Rgb>,
    pub custom_data: BTreeMap<String, String>,
    pub custom_icons: BTreeMap<Id, Bytes>,
    pub binaries: BTreeMap<String, Bytes>,
    pub def_username: String,
    pub def_username_changed: MTime,
    pub description: String,
    pub description_changed: MTime,
    pub templates_changed: MTime,
    pub templates: Id,
    pub generator: String,
    pub history_max_items: i32,
    pub history_max_size: i32,
    pub last_selected: Id,
    pub last_top_visible: Id,
    pub maintenance_days: i32,
    pub key_change_force: i32,
    pub key_change_rec: i32,
    pub key_changed: MTime,
    pub name: String,
    pub name_changed: MTime,
    pub protect: [bool; 5], // notes, password, title, url, username
    pub bin_changed: MTime,
    pub bin_enabled: bool,
    pub bin_uuid: Id,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct MDb {
    pub comment: Option<Bytes>,
    pub gzip: bool,
    pub rounds: u64,
    pub version: (u16, u16), // major, minor
    pub meta: MMeta,
    pub root: MGroup,
}

impl Default for MMeta {
    /// The documented defaults (those of a new database), with T0 for every time.
    fn default() -> Self {
        MMeta {
            color: None,
            custom_data: BTreeMap::new(),
            custom_icons: BTreeMap::new(),
            binaries: BTreeMap::new(),
            def_username: String::new(),
            def_username_changed: T0,
            description: String::new(),
            description_changed: T0,
            templates_changed: T0,
            templates: Id::default(),
            generator: String::new(),
            history_max_items: 10,
            history_max_size: 6291456,
            last_selected: Id::default(),
            last_top_visible: Id::default(),
            maintenance_days: 365,
            key_change_force: -1,
            key_change_rec: -1,
            key_changed: T0,
            name: String::new(),
            name_changed: T0,
            protect: [false, true, false, false, false],
            bin_changed: T0,
            bin_enabled: true,
            bin_uuid: Id::default(),
        }
    }
}

impl MEntry {
    /// Default entry content (what a new entry holds), with the given identifier.
    pub fn blank(uuid: Id) -> MEntry {
        MEntry { uuid, at_enabled: true, ..MEntry::default() }
    }
    pub fn set(&mut self, k: &str, v: &str, p: bool) {
        self.strings.insert(k.into(), MStr { v: v.into(), p });
    }
}

impl MGroup {
    pub fn blank(uuid: Id, name: &str) -> MGroup {
        MGroup { uuid, name: name.into(), icon: 48, expanded: true, ..MGroup::default() }
    }
    /// All groups, this one first, level by level.
    pub fn bfs(&self) -> Vec<&MGroup> {
        let mut out = vec![self];
        let mut i = 0;
        while i < out.len() {
            let g = out[i];
            out.extend(g.groups.iter());
            i += 1;
        }
        out
    }
    pub fn depth(&self) -> usize {
        1 + self.groups.iter().map(|g| g.depth()).max().unwrap_or(0)
    }
    pub fn count_entries(&self) -> usize {
        self.bfs().iter().map(|g| g.entries.len()).sum()
    }
    pub fn walk_entries(&self, history: bool, f: &mut dyn FnMut(&MEntry)) {
        for g in self.bfs() {
            for e in &g.entries {
                f(e);
                if history {
                    for h in &e.history {
                        f(h);
                    }
                }
            }
        }
    }
    pub fn walk_entries_mut(&mut self, f: &mut dyn FnMut(&mut MEntry)) {
        for e in &mut self.entries {
            f(e);
            for h in &mut e.history {
                f(h);
            }
        }
        for g in &mut self.groups {
            g.walk_entries_mut(f);
        }
    }
}

impl MDb {
    pub fn blank() -> MDb {
        MDb {
            comment: None,
            gzip: true,
            rounds: 1,
            version: (3, 1),
            meta: MMeta::default(),
            root: MGroup::blank(Id([7; 16]), "Root"),
        }
    }

    /// What reopening a saved copy must give: the generator is the library's own.
    pub fn as_saved(&self) -> MDb {
        let mut m = self.clone();
        m.meta.generator = "rust-kpdb".into();
        m
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum KfType {
    Binary,
    Hex,
    Xml,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct MKeyFile {
    pub key: Bytes,
    pub ty: KfType,
}

/// Credentials: at least one part present.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct MCreds {
    pub password: Option<String>,
    pub keyfile: Option<MKeyFile>,
}

impl MCreds {
    pub fn pw(s: &str) -> MCreds {
        MCreds { password: Some(s.into()), keyfile: None }
    }

    /// The KeePass definition of the composite key.
    pub fn composite(&self) -> [u8; 32] {
        let mut all = Vec::new();
        if let Some(p) = &self.password {
            all.extend_from_slice(&crate::crypto::sha256(&[p.as_bytes()]));
        }
        if let Some(k) = &self.keyfile {
            all.extend_from_slice(&k.key.0);
        }
        crate::crypto::sha256(&[&all])
    }
}

/// Where two models differ, as a readable path; None if equal.
pub fn diff(exp: &MDb, got: &MDb) -> Option<String> {
    if exp == got {
        return None;
    }
    let a = serde_json::to_value(exp).unwrap();
    let b = serde_json::to_value(got).unwrap();
    Some(diff_json("db", &a, &b).unwrap_or_else(|| "models differ".into()))
}

pub fn diff_json(path: &str, a: &serde_json::Value, b: &serde_json::Value) -> Option<String> {
    use serde_json::Value::*;
    let short = |v: &serde_json::Value| {
        let s = v.to_string();
        if s.chars().count() > 160 { format!("{}..({} chars)", s.chars().take(160).collect::<std::string::String>(), s.len()) } else { s }
    };
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}.{}: expected {} but absent", path, k, short(v))),
                    Some(w) => {
                        if let Some(d) = diff_json(&format!("{}.{}", path, k), v, w) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    return Some(format!("{}.{}: unexpected {}", path, k, short(w)));
                }
            }
            None
        }
        (Array(x), Array(y)) => {
            for i in 0..x.len().min(y.len()) {
                if let Some(d) = diff_json(&format!("{}[{}]", path, i), &x[i], &y[i]) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                return Some(format!("{}: expected {} elements, got {}", path, x.len(), y.len()));
            }
            None
        }
        _ => {
            if a == b { None } else { Some(format!("{}: expected {} got {}", path, short(a), short(b))) }
        }
    }
}
