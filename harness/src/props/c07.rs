//! Nothing protected in clear, nothing stored in clear in the file.

use super::common::*;
use crate::crypto::{b64, hex};
use crate::ensure;
use proptest::collection::vec;

/// Marks every text of the database with a token of its own.
pub(super) struct Marks {
    n: u64,
    seed: u64,
    pub protected: Vec<(String, Vec<u8>)>,
    plain: Vec<(String, Vec<u8>)>,
}

impl Marks {
    fn token(&mut self) -> String {
        self.n += 1;
        let b = kdbx::pattern(9, self.seed.wrapping_add(self.n * 1000));
        b.iter().map(|x| char::from(b"abcdefghijkmnpqrstuvwxyzABCDEFGH"[(*x & 31) as usize])).collect::<String>() + "Zq7"
    }
    fn text(&mut self, what: &str, s: &mut String) {
        let t = self.token();
        s.push_str(&t);
        self.plain.push((what.into(), t.into_bytes()));
    }
    fn bin(&mut self, what: &str, b: &mut Bytes, protected: bool) {
        let t = self.token();
        b.0.extend_from_slice(t.as_bytes());
        let l = if protected { &mut self.protected } else { &mut self.plain };
        l.push((what.into(), t.into_bytes()));
    }
}

pub(super) fn mark(m: &mut MDb, seed: u64) -> Marks {
    let mut k = Marks { n: 0, seed, protected: vec![], plain: vec![] };
    k.text("name", &mut m.meta.name);
    k.text("description", &mut m.meta.description);
    k.text("default user", &mut m.meta.def_username);
    for b in m.meta.binaries.values_mut() {
        k.bin("pool attachment", b, false);
    }
    for b in m.meta.custom_icons.values_mut() {
        k.bin("custom icon", b, false);
    }
    m.meta.custom_data = std::mem::take(&mut m.meta.custom_data)
        .into_iter()
        .map(|(mut a, mut b)| {
            k.text("custom data key", &mut a);
            k.text("custom data", &mut b);
            (a, b)
        })
        .collect();
    fn group(g: &mut MGroup, k: &mut Marks) {
        k.text("group name", &mut g.name);
        k.text("group notes", &mut g.notes);
        k.text("group sequence", &mut g.def_seq);
        for e in &mut g.entries {
            entry(e, k);
            for h in &mut e.history {
                entry(h, k);
            }
        }
        for s in &mut g.groups {
            group(s, k);
        }
    }
    fn entry(e: &mut MEntry, k: &mut Marks) {
        k.text("tags", &mut e.tags);
        k.text("override URL", &mut e.override_url);
        k.text("sequence", &mut e.at_seq);
        for a in &mut e.assoc {
            k.text("window", &mut a.1);
        }
        for (n, v) in &mut e.strings {
            let t = k.token();
            v.v.push_str(&t);
            let l = if v.p { &mut k.protected } else { &mut k.plain };
            l.push((format!("string {:?}", n), t.into_bytes()));
        }
        for b in e.binaries.values_mut() {
            match b {
                MBin::Plain(b) => k.bin("attachment", b, false),
                MBin::Protected(b) => k.bin("protected attachment", b, true),
                MBin::Ref(_) => {}
            }
        }
    }
    group(&mut m.root, &mut k);
    k
}

pub fn contains(h: &[u8], n: &[u8]) -> bool {
    if n.is_empty() || h.len() < n.len() {
        return false;
    }
    let (first, rest) = (n[0], &n[1..]);
    h.windows(n.len()).any(|w| w[0] == first && &w[1..] == rest)
}

/// The forms in which a text of at least 12 bytes would be readable: itself, its base64 at each of
/// the three alignments (the inner part that does not depend on the neighbours), and its hex digits.
fn forms(t: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![t.to_vec(), hex(t).into_bytes(), hex(t).to_uppercase().into_bytes()];
    for skip in 0..3 {
        let s = &t[skip..];
        let s = &s[..s.len() / 3 * 3];
        v.push(b64(s).into_bytes());
    }
    v.push(t.iter().rev().copied().collect());
    v.push(t.iter().flat_map(|b| [*b, 0]).collect());
    v
}

type Case = (MDb, MCreds, u64);

fn check((m0, c, seed): &Case, o: &mut Obs) -> Check {
    let mut m = m0.clone();
    let k = mark(&mut m, *seed);
    features(&m, o);
    o.nontrivial = k.protected.len() >= 2;
    o.class_if(k.protected.len() >= 8, ">= 8 protected values");
    let d = conv::database(&m, c);
    let (r, said) = crate::said::during(|| -> Res<_> {
        let file = save(&d)?;
        let back = open_ok(&file, c)?;
        back.find_entries("a");
        back.find_groups("a");
        Ok(file)
    });
    let file = r?;
    if !said.is_empty() {
        let mut all = k.protected.clone();
        all.extend(c.password.iter().filter(|p| p.len() >= 8).map(|p| ("password".to_string(), p.clone().into_bytes())));
        hidden_in("what was printed", &String::from_utf8_lossy(&said), &all, c)?;
    }
    let full = decode_full(&file, c, true).map_err(|e| format!("not a standard file: {}", e))?;
    let xml = &full.dec.xml;
    for (what, t) in &k.protected {
        for f in forms(t) {
            ensure!(!contains(xml, &f), "the protected value of {} is readable in the XML as {:?}", what, String::from_utf8_lossy(&f));
            ensure!(!contains(&file, &f), "the protected value of {} is readable in the file", what);
        }
    }
    let body = &file[full.dec.header_len..];
    let header: Vec<u8> = full.dec.header.fields.iter().filter(|f| f.0 != kdbx::COMMENT).flat_map(|f| f.1 .0.clone()).collect();
    for (what, t) in &k.plain {
        ensure!(contains(xml, t) || contains(xml, b64(&t[..9]).as_bytes()) || what.contains("attachment") || what.contains("icon"), "harness: {} is not in the XML", what);
        for f in forms(t) {
            ensure!(!contains(body, &f) && !contains(&header, &f), "{} is readable in the file", what);
        }
    }
    // the credentials are not in it either
    if let Some(p) = c.password.as_ref().filter(|p| p.len() >= 8) {
        ensure!(!contains(body, p.as_bytes()) && !contains(&header, p.as_bytes()), "the password is readable in the file");
    }
    for (what, key) in keys(c) {
        for w in key.chunks(8).filter(|w| w.len() == 8 && !trivial(w)) {
            ensure!(!contains(&file, w), "part of the {} is readable in the file", what);
        }
    }
    // every protected value is encrypted where the format's single stream says, which the strict
    // decoder verified by finding the right content
    same("content", &m.as_saved(), &full.db)?;
    // the ciphertexts of equal values differ
    let mut seen = std::collections::HashSet::new();
    let mut dup = None;
    ciphers(&full.tree, &mut |v| {
        if v.len() >= 8 && !seen.insert(v.to_vec()) {
            dup = Some(v.to_vec());
        }
    });
    ensure!(dup.is_none(), "two protected values have the same ciphertext {:?}", dup);

    // debug output
    let shown = [format!("{:?}", d), format!("{:#?}", d), format!("{:?}", open_ok(&file, c)?)];
    for s in &shown {
        hidden(s, &k.protected, c)?;
    }
    for g in d.root_group.iter() {
        hidden(&format!("{:?}", g), &k.protected, c)?;
        for e in &g.entries {
            hidden(&format!("{:?}", e), &k.protected, c)?;
            for (kk, v) in &e.strings {
                hidden(&format!("{:?} {:?}", kk, v), &k.protected, c)?;
            }
            for (kk, v) in &e.binaries {
                hidden(&format!("{:?} {:?}", kk, v), &k.protected, c)?;
            }
        }
    }
    o.evals = 3;
    Ok(())
}

/// Values just as generated (short, numeric, empty, alike): each protected one is encrypted at its place
/// in the stream and each plain one is not, as the independent decoder reads the file.
fn check_unmarked((m, c, _): &Case, o: &mut Obs) -> Check {
    let n = m.root.bfs().iter().flat_map(|g| &g.entries).flat_map(|e| std::iter::once(e).chain(&e.history)).map(|e| e.strings.values().filter(|v| v.p).count()).sum::<usize>();
    o.nontrivial = n >= 2;
    let file = save(&conv::database(m, c))?;
    check_file(&file, m, c)
}

fn trivial(w: &[u8]) -> bool {
    w.iter().all(|b| *b == w[0])
}

fn keys(c: &MCreds) -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![("composite key", c.composite().to_vec())];
    if let Some(k) = &c.keyfile {
        v.push(("key of the key file", k.key.0.clone()));
    }
    if let Some(p) = &c.password {
        v.push(("hash of the password", crate::crypto::sha256(&[p.as_bytes()]).to_vec()));
    }
    v
}

fn ciphers(e: &crate::xmlmini::El, f: &mut dyn FnMut(&[u8])) {
    if e.get_attr("Protected") == Some("True") {
        if let Ok(v) = crate::crypto::unb64(&e.only_text().unwrap_or_default()) {
            f(&v);
        }
    }
    for c in e.els() {
        ciphers(c, f);
    }
}

fn list(b: &[u8]) -> String {
    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
}

fn hidden(s: &str, protected: &[(String, Vec<u8>)], c: &MCreds) -> Check {
    hidden_in("debug output", s, protected, c)
}

pub(super) fn hidden_in(place: &str, s: &str, protected: &[(String, Vec<u8>)], c: &MCreds) -> Check {
    let flat: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    let look = |t: &[u8]| {
        forms(t).iter().any(|f| std::str::from_utf8(f).is_ok_and(|f| f.len() > 6 && s.contains(f))) || s.contains(&list(t)) || flat.contains(&list(t))
    };
    for (what, t) in protected {
        ensure!(!look(t), "{} shows the protected value of {}", place, what);
    }
    for (what, k) in keys(c) {
        for w in k.chunks(8).filter(|w| w.len() == 8 && !trivial(w)) {
            ensure!(!look(w), "{} shows part of the {}", place, what);
        }
    }
    Ok(())
}

fn strat() -> BoxedStrategy<Case> {
    (gen::db(), gen::creds(), any::<u64>())
        .prop_map(|(mut m, c, s)| {
            m.rounds = m.rounds.min(3);
            m.comment = None;
            (m, c, s)
        })
        .boxed()
}

// ------------------------------------------------------------- keys by themselves

type KeyCase = (MCreds, Vec<u8>);

fn check_keys((c, _): &KeyCase, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let key = conv::key(c);
    let none: Vec<(String, Vec<u8>)> = match &c.password {
        Some(p) if p.len() >= 8 => vec![("password".into(), p.clone().into_bytes())],
        _ => vec![],
    };
    hidden(&format!("{:?}", key), &none, c)?;
    hidden(&format!("{:#?}", key), &none, c)?;
    hidden(&format!("{:?}", key.clone()), &none, c)?;
    if let Some(k) = &c.keyfile {
        let kf = conv::key_file(k);
        hidden(&format!("{:?}", kf), &none, c)?;
        hidden(&format!("{:#?}", kf), &none, c)?;
        let mut b = Vec::new();
        kf.save(&mut b).map_err(|e| format!("{:?}", e))?;
        let back = kpdb::KeyFile::open(&mut &b[..]).map_err(|e| format!("{:?}", e))?;
        hidden(&format!("{:?}", back), &none, c)?;
    }
    o.evals = 4;
    Ok(())
}

fn keystrat() -> BoxedStrategy<KeyCase> {
    (gen::creds(), vec(any::<u8>(), 0..2)).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "the database holds at least two protected values (each with a random mark of its own); for keys, every case",
        assumptions: &["values are searched raw, reversed, in UTF-16, in hex and in base64 at every alignment"],
        lanes: vec![lane("save", 1200, 20_000, strat, check), lane("unmarked", 1500, 30_000, strat, check_unmarked), lane("keys", 1500, 20_000, keystrat, check_keys)],
    }
}
