//! Model -> kpdb values, and kpdb values -> model (field by field; kpdb's own PartialEq is never used).

use crate::model::*;
use chrono::{DateTime, Utc};
use kpdb as k;
use secstr::SecStr;
use std::collections::{BTreeMap, HashMap};
use uuid::Uuid;

pub fn time(t: MTime) -> DateTime<Utc> {
    DateTime::from_timestamp(t.s, t.ns).expect("model time in chrono's range")
}

pub fn mtime(t: DateTime<Utc>) -> MTime {
    MTime { s: t.timestamp(), ns: t.timestamp_subsec_nanos() }
}

pub fn uuid(i: Id) -> Uuid {
    Uuid::from_bytes(i.0)
}
pub fn gid(i: Id) -> k::GroupUuid {
    k::GroupUuid(uuid(i))
}
pub fn eid(i: Id) -> k::EntryUuid {
    k::EntryUuid(uuid(i))
}
pub fn id(u: &Uuid) -> Id {
    Id(*u.as_bytes())
}

pub fn color(c: Rgb) -> k::Color {
    k::Color { red: c[0], green: c[1], blue: c[2] }
}
fn rgb(c: &k::Color) -> Rgb {
    [c.red, c.green, c.blue]
}

/// The model's name of a string key.
pub fn key_name(key: &k::StringKey) -> String {
    match key {
        k::StringKey::Notes => "Notes".into(),
        k::StringKey::Password => "Password".into(),
        k::StringKey::Title => "Title".into(),
        k::StringKey::Url => "URL".into(),
        k::StringKey::Username => "UserName".into(),
        k::StringKey::Other(s) => s.clone(),
    }
}

pub fn string_key(name: &str) -> k::StringKey {
    match name {
        "Notes" => k::StringKey::Notes,
        "Password" => k::StringKey::Password,
        "Title" => k::StringKey::Title,
        "URL" => k::StringKey::Url,
        "UserName" => k::StringKey::Username,
        s => k::StringKey::Other(s.into()),
    }
}

pub fn string_value(v: &MStr) -> k::StringValue {
    if v.p {
        k::StringValue::Protected(SecStr::new(v.v.clone().into_bytes()))
    } else {
        k::StringValue::Plain(v.v.clone())
    }
}

pub fn bin_value(v: &MBin) -> k::BinaryValue {
    match v {
        MBin::Plain(b) => k::BinaryValue::Plain(b.0.clone()),
        MBin::Protected(b) => k::BinaryValue::Protected(SecStr::new(b.0.clone())),
        MBin::Ref(s) => k::BinaryValue::Ref(k::BinaryId(s.clone())),
    }
}

pub fn icon(i: i32) -> k::Icon {
    k::Icon::from_i32(i).unwrap_or_else(|_| panic!("icon {} not accepted", i))
}

pub fn obf(i: i32) -> k::Obfuscation {
    if i == 0 { k::Obfuscation::None } else { k::Obfuscation::UseClipboard }
}

pub fn entry(m: &MEntry) -> k::Entry {
    let mut e = k::Entry::default();
    e.uuid = eid(m.uuid);
    e.strings = m.strings.iter().map(|(n, v)| (string_key(n), string_value(v))).collect();
    e.binaries = m.binaries.iter().map(|(n, v)| (k::BinaryKey(n.clone()), bin_value(v))).collect();
    e.associations = m
        .assoc
        .iter()
        .map(|(s, w)| k::Association { keystroke_sequence: s.clone(), window: w.clone() })
        .collect();
    e.auto_type_def_sequence = m.at_seq.clone();
    e.auto_type_enabled = m.at_enabled;
    e.auto_type_obfuscation = obf(m.at_obf);
    e.background_color = m.bg.map(color);
    e.foreground_color = m.fg.map(color);
    e.custom_icon_uuid = m.custom_icon.map(|i| k::CustomIconUuid(uuid(i)));
    e.icon = icon(m.icon);
    e.override_url = m.override_url.clone();
    e.tags = m.tags.clone();
    e.creation_time = time(m.times.creation);
    e.expiry_time = time(m.times.expiry);
    e.expires = m.times.expires;
    e.last_accessed = time(m.times.access);
    e.last_modified = time(m.times.modified);
    e.location_changed = time(m.times.location);
    e.usage_count = m.times.usage;
    e.history = m.history.iter().map(entry).collect();
    e
}

pub fn group(m: &MGroup) -> k::Group {
    let mut g = k::Group::default();
    g.uuid = gid(m.uuid);
    g.name = m.name.clone();
    g.notes = m.notes.clone();
    g.icon = icon(m.icon);
    g.custom_icon_uuid = m.custom_icon.map(|i| k::CustomIconUuid(uuid(i)));
    g.def_auto_type_sequence = m.def_seq.clone();
    g.enable_auto_type = m.enable_at;
    g.enable_searching = m.enable_search;
    g.is_expanded = m.expanded;
    g.last_top_visible_entry = eid(m.last_top);
    g.creation_time = time(m.times.creation);
    g.expiry_time = time(m.times.expiry);
    g.expires = m.times.expires;
    g.last_accessed = time(m.times.access);
    g.last_modified = time(m.times.modified);
    g.location_changed = time(m.times.location);
    g.usage_count = m.times.usage;
    g.entries = m.entries.iter().map(entry).collect();
    g.groups = m.groups.iter().map(group).collect();
    g
}

pub fn key_file(m: &MKeyFile) -> k::KeyFile {
    k::KeyFile {
        key: SecStr::new(m.key.0.clone()),
        file_type: match m.ty {
            KfType::Binary => k::KeyFileType::Binary,
            KfType::Hex => k::KeyFileType::Hex,
            KfType::Xml => k::KeyFileType::Xml,
        },
    }
}

pub fn key(c: &MCreds) -> k::CompositeKey {
    match (&c.password, &c.keyfile) {
        (Some(p), None) => k::CompositeKey::from_password(p.as_str()),
        (None, Some(f)) => k::CompositeKey::from_key_file(key_file(f)),
        (Some(p), Some(f)) => k::CompositeKey::from_both(p.as_str(), key_file(f)),
        (None, None) => panic!("no credentials"),
    }
}

pub fn database(m: &MDb, creds: &MCreds) -> k::Database {
    let mut d = unlinked(m, creds);
    link(&mut d.root_group, m);
    d
}

/// Gives the objects parent links: none, the right ones, stale ones or a mixture, depending on the
/// content. They are public fields that go stale as objects are moved; only opening sets them.
fn link(root: &mut k::Group, m: &MDb) {
    let h = m.root.count_entries() as u64 * 7 + m.root.bfs().len() as u64 * 3 + m.root.name.len() as u64 + m.rounds;
    let mode = h % 5;
    if mode == 0 {
        return;
    }
    let other = [k::GroupUuid::nil(), root.uuid, k::GroupUuid(Uuid::from_bytes([0x5A; 16])), root.groups.first().map_or(root.uuid, |g| g.uuid)];
    fn go(g: &mut k::Group, mode: u64, n: &mut u64, other: &[k::GroupUuid; 4]) {
        let own = g.uuid;
        let mut pick = || {
            *n += 1;
            match mode {
                1 => own,
                2 => other[(*n % 4) as usize],
                _ if crate::rng::mix(*n ^ mode << 32) % 2 == 0 => own,
                _ => other[(crate::rng::mix(*n) % 4) as usize],
            }
        };
        for e in &mut g.entries {
            e.parent = pick();
            for x in &mut e.history {
                x.parent = pick();
            }
        }
        for x in &mut g.groups {
            x.parent = pick();
        }
        for x in &mut g.groups {
            go(x, mode, n, other);
        }
    }
    let mut n = h;
    go(root, mode, &mut n, &other);
    if mode == 4 {
        root.parent = other[2];
    }
}

/// With no parent links at all.
pub fn unlinked(m: &MDb, creds: &MCreds) -> k::Database {
    let mut d = k::Database::new(&key(creds));
    d.comment = m.comment.as_ref().map(|c| k::Comment(c.0.clone()));
    d.compression = if m.gzip { k::Compression::GZip } else { k::Compression::None };
    d.transform_rounds = k::TransformRounds(m.rounds);
    d.version = k::Version { major: m.version.0, minor: m.version.1 };
    set_meta(&mut d, &m.meta);
    d.root_group = group(&m.root);
    d
}

pub fn set_meta(d: &mut k::Database, m: &MMeta) {
    d.color = m.color.map(color);
    d.custom_data = m.custom_data.clone().into_iter().collect();
    d.custom_icons = m.custom_icons.iter().map(|(i, b)| (k::CustomIconUuid(uuid(*i)), b.0.clone())).collect();
    d.binaries = m.binaries.iter().map(|(i, b)| (k::BinaryId(i.clone()), b.0.clone())).collect();
    d.def_username = m.def_username.clone();
    d.def_username_changed = time(m.def_username_changed);
    d.description = m.description.clone();
    d.description_changed = time(m.description_changed);
    d.entry_templates_group_changed = time(m.templates_changed);
    d.entry_templates_group_uuid = gid(m.templates);
    d.generator = m.generator.clone();
    d.history_max_items = m.history_max_items;
    d.history_max_size = m.history_max_size;
    d.last_selected_group = gid(m.last_selected);
    d.last_top_visible_group = gid(m.last_top_visible);
    d.maintenance_history_days = m.maintenance_days;
    d.master_key_change_force = m.key_change_force;
    d.master_key_change_rec = m.key_change_rec;
    d.master_key_changed = time(m.key_changed);
    d.name = m.name.clone();
    d.name_changed = time(m.name_changed);
    d.protect_notes = m.protect[0];
    d.protect_password = m.protect[1];
    d.protect_title = m.protect[2];
    d.protect_url = m.protect[3];
    d.protect_username = m.protect[4];
    d.recycle_bin_changed = time(m.bin_changed);
    d.recycle_bin_enabled = m.bin_enabled;
    d.recycle_bin_uuid = gid(m.bin_uuid);
}

/// kpdb -> model. Errors name what has no place in the model (a protected string that is not
/// UTF-8, two keys of the same name).
pub fn from_entry(e: &k::Entry) -> Result<MEntry, String> {
    let mut strings = BTreeMap::new();
    for (key, v) in &e.strings {
        let val = match v {
            k::StringValue::Plain(s) => MStr { v: s.clone(), p: false },
            k::StringValue::Protected(s) => MStr {
                v: String::from_utf8(s.unsecure().to_vec()).map_err(|_| "protected string is not UTF-8".to_string())?,
                p: true,
            },
        };
        if strings.insert(key_name(key), val).is_some() {
            return Err(format!("two string keys named {:?}", key_name(key)));
        }
    }
    let bins: &HashMap<k::BinaryKey, k::BinaryValue> = &e.binaries;
    let binaries = bins
        .iter()
        .map(|(n, v)| {
            (
                n.0.clone(),
                match v {
                    k::BinaryValue::Plain(b) => MBin::Plain(Bytes(b.clone())),
                    k::BinaryValue::Protected(b) => MBin::Protected(Bytes(b.unsecure().to_vec())),
                    k::BinaryValue::Ref(i) => MBin::Ref(i.0.clone()),
                },
            )
        })
        .collect();
    Ok(MEntry {
        uuid: id(&e.uuid.0),
        strings,
        binaries,
        assoc: e.associations.iter().map(|a| (a.keystroke_sequence.clone(), a.window.clone())).collect(),
        at_seq: e.auto_type_def_sequence.clone(),
        at_enabled: e.auto_type_enabled,
        at_obf: match e.auto_type_obfuscation {
            k::Obfuscation::None => 0,
            k::Obfuscation::UseClipboard => 1,
        },
        bg: e.background_color.as_ref().map(rgb),
        fg: e.foreground_color.as_ref().map(rgb),
        custom_icon: e.custom_icon_uuid.as_ref().map(|u| id(&u.0)),
        icon: icon_number(&e.icon),
        override_url: e.override_url.clone(),
        tags: e.tags.clone(),
        times: MTimes {
            creation: mtime(e.creation_time),
            expiry: mtime(e.expiry_time),
            expires: e.expires,
            access: mtime(e.last_accessed),
            modified: mtime(e.last_modified),
            location: mtime(e.location_changed),
            usage: e.usage_count,
        },
        history: e.history.iter().map(from_entry).collect::<Result<_, _>>()?,
    })
}

pub fn from_group(g: &k::Group) -> Result<MGroup, String> {
    Ok(MGroup {
        uuid: id(&g.uuid.0),
        name: g.name.clone(),
        notes: g.notes.clone(),
        icon: icon_number(&g.icon),
        custom_icon: g.custom_icon_uuid.as_ref().map(|u| id(&u.0)),
        def_seq: g.def_auto_type_sequence.clone(),
        enable_at: g.enable_auto_type,
        enable_search: g.enable_searching,
        expanded: g.is_expanded,
        last_top: id(&g.last_top_visible_entry.0),
        times: MTimes {
            creation: mtime(g.creation_time),
            expiry: mtime(g.expiry_time),
            expires: g.expires,
            access: mtime(g.last_accessed),
            modified: mtime(g.last_modified),
            location: mtime(g.location_changed),
            usage: g.usage_count,
        },
        entries: g.entries.iter().map(from_entry).collect::<Result<_, _>>()?,
        groups: g.groups.iter().map(from_group).collect::<Result<_, _>>()?,
    })
}

pub fn from_db(d: &k::Database) -> Result<MDb, String> {
    let k::Database {
        comment, composite_key: _, compression, db_type, master_cipher, stream_cipher, transform_rounds, version,
        binaries, color, custom_data, custom_icons, def_username, def_username_changed, description,
        description_changed, entry_templates_group_changed, entry_templates_group_uuid, generator,
        history_max_items, history_max_size, last_selected_group, last_top_visible_group,
        maintenance_history_days, master_key_change_force, master_key_change_rec, master_key_changed, name,
        name_changed, protect_notes, protect_password, protect_title, protect_url, protect_username,
        recycle_bin_changed, recycle_bin_enabled, recycle_bin_uuid, root_group,
        ..
    } = d;
    match db_type {
        k::DbType::Kdb2 => {}
        _ => return Err("database type is not Kdb2".into()),
    }
    match master_cipher {
        k::MasterCipher::Aes256 => {}
    }
    match stream_cipher {
        k::StreamCipher::Salsa20 => {}
    }
    Ok(MDb {
        comment: comment.as_ref().map(|c| Bytes(c.0.clone())),
        gzip: match compression {
            k::Compression::GZip => true,
            k::Compression::None => false,
        },
        rounds: transform_rounds.0,
        version: (version.major, version.minor),
        meta: MMeta {
            color: color.as_ref().map(rgb),
            custom_data: custom_data.iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
            custom_icons: custom_icons.iter().map(|(i, b)| (id(&i.0), Bytes(b.clone()))).collect(),
            binaries: binaries.iter().map(|(i, b)| (i.0.clone(), Bytes(b.clone()))).collect(),
            def_username: def_username.clone(),
            def_username_changed: mtime(*def_username_changed),
            description: description.clone(),
            description_changed: mtime(*description_changed),
            templates_changed: mtime(*entry_templates_group_changed),
            templates: id(&entry_templates_group_uuid.0),
            generator: generator.clone(),
            history_max_items: *history_max_items,
            history_max_size: *history_max_size,
            last_selected: id(&last_selected_group.0),
            last_top_visible: id(&last_top_visible_group.0),
            maintenance_days: *maintenance_history_days,
            key_change_force: *master_key_change_force,
            key_change_rec: *master_key_change_rec,
            key_changed: mtime(*master_key_changed),
            name: name.clone(),
            name_changed: mtime(*name_changed),
            protect: [*protect_notes, *protect_password, *protect_title, *protect_url, *protect_username],
            bin_changed: mtime(*recycle_bin_changed),
            bin_enabled: *recycle_bin_enabled,
            bin_uuid: id(&recycle_bin_uuid.0),
        },
        root: from_group(root_group)?,
    })
}

/// Parent links: every child must carry the uuid of its containing group; the root nil.
pub fn check_parents(d: &k::Database) -> Result<(), String> {
    if !d.root_group.parent.0.is_nil() {
        return Err(format!("root group has parent {}", d.root_group.parent.0));
    }
    fn go(g: &k::Group, path: &str) -> Result<(), String> {
        for (i, e) in g.entries.iter().enumerate() {
            if e.parent.0.as_bytes() != g.uuid.0.as_bytes() {
                return Err(format!("{}/entry[{}] has parent {} instead of {}", path, i, e.parent.0, g.uuid.0));
            }
        }
        for (i, s) in g.groups.iter().enumerate() {
            let p = format!("{}/group[{}]", path, i);
            if s.parent.0.as_bytes() != g.uuid.0.as_bytes() {
                return Err(format!("{} has parent {} instead of {}", p, s.parent.0, g.uuid.0));
            }
            go(s, &p)?;
        }
        Ok(())
    }
    go(&d.root_group, "root")
}

/// The numeric value of an icon by its documented name, independent of kpdb's own conversion.
pub fn icon_number(i: &k::Icon) -> i32 {
    let name = format!("{:?}", i);
    ICONS.iter().position(|n| *n == name).map(|p| p as i32).unwrap_or(-1)
}

pub const ICONS: [&str; 69] = [
    "Key", "World", "Warning", "Server", "MarkedDirectory", "UserCommunication",
    "Parts", "Notepad", "WorldSocket", "Identity", "PaperReady", "Digicam",
    "IRCommunication", "MultipleKeys", "Energy", "Scanner", "WorldStar", "CDRom",
    "Monitor", "Email", "Configuration", "ClipboardReady", "PaperNew", "Screen",
    "EnergyCareful", "Inbox", "Disk", "Drive", "QuickTime", "EncryptedTerminal",
    "Console", "Printer", "Icons", "Run", "Settings", "WorldComputer",
    "Archive", "Banking", "Smb", "Clock", "EmailSearch", "PaperFlag",
    "Memory", "RecycleBin", "Note", "Expired", "Info", "Package",
    "Folder", "FolderOpen", "FolderPackage", "LockOpen", "PaperLocked", "Checked",
    "Pen", "Thumbnail", "Book", "Listing", "UserKey", "Tool",
    "Home", "Star", "Tux", "Feather", "Apple", "Wikipedia",
    "Money", "Certificate", "Phone",
];
