//! Key files.

use super::common::*;
use crate::crypto::{b64, hex, unb64, unhex};
use crate::ensure;
use crate::xmlmini::{parse, serialize, El, Style};
use proptest::collection::vec;
use proptest::sample::select;

fn kf_open(b: &[u8]) -> Res<Result<kpdb::KeyFile, kpdb::Error>> {
    guard(|| kpdb::KeyFile::open(&mut &b[..])).map_err(|p| format!("KeyFile::open: {}", p))
}

fn is(k: &kpdb::KeyFile, key: &[u8], ty: &KfType) -> Check {
    let t = match k.file_type {
        kpdb::KeyFileType::Binary => KfType::Binary,
        kpdb::KeyFileType::Hex => KfType::Hex,
        kpdb::KeyFileType::Xml => KfType::Xml,
    };
    ensure!(t == *ty, "opened as {:?} instead of {:?}", t, ty);
    ensure!(k.key.unsecure() == key, "key is {} instead of {}", hex(k.key.unsecure()), hex(key));
    Ok(())
}

fn standard(b: &[u8], key: &[u8], ty: &KfType) -> Check {
    match ty {
        KfType::Binary => ensure!(b == key, "binary key file holds {} bytes: {}", b.len(), hex(b)),
        KfType::Hex => {
            let s = std::str::from_utf8(b).map_err(|_| "hex key file is not text")?;
            ensure!(b.len() == 64 && unhex(s).as_deref() == Some(key), "hex key file holds {:?}", s);
        }
        KfType::Xml => {
            let e = parse(b).map_err(|e| format!("XML key file: {}", e))?;
            ensure!(e.name == "KeyFile", "XML key file has root {}", e.name);
            let child = |e: &El, n: &str| -> Res<El> {
                let v: Vec<&El> = e.els().filter(|c| c.name == n).collect();
                ensure!(v.len() == 1, "{} elements {} in the XML key file", v.len(), n);
                Ok(v[0].clone())
            };
            let v = child(&child(&e, "Meta")?, "Version")?.only_text();
            ensure!(v.as_deref() == Some("1.00"), "XML key file has version {:?}", v);
            let d = child(&child(&e, "Key")?, "Data")?.only_text().unwrap_or_default();
            ensure!(unb64(&d).ok().as_deref() == Some(key), "XML key file holds {:?}", d);
        }
    }
    Ok(())
}

fn roundtrip(k: &MKeyFile, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class(&format!("{:?}", k.ty));
    let f = conv::key_file(k);
    let mut b = Vec::new();
    f.save(&mut b).map_err(|e| format!("save: {:?}", e))?;
    is(&f, &k.key.0, &k.ty)?;
    standard(&b, &k.key.0, &k.ty)?;
    let back = kf_open(&b)?.map_err(|e| format!("open: {:?}", e))?;
    is(&back, &k.key.0, &k.ty)?;
    let mut b2 = Vec::new();
    back.save(&mut b2).map_err(|e| format!("save: {:?}", e))?;
    ensure!(b == b2, "saving the reopened key file gives other bytes");
    o.evals = 3;
    Ok(())
}

/// Freshly generated key files.
pub(super) fn fresh(seed: &u64, o: &mut Obs) -> Check {
    crate::rng::seed(*seed);
    o.nontrivial = true;
    o.evals = 12;
    for (f, ty) in [
        (kpdb::KeyFile::new(), KfType::Xml),
        (kpdb::KeyFile::new_xml(), KfType::Xml),
        (kpdb::KeyFile::new_hex(), KfType::Hex),
        (kpdb::KeyFile::new_binary(), KfType::Binary),
    ] {
        let f = f.map_err(|e| format!("{:?}", e))?;
        let key = f.key.unsecure().to_vec();
        ensure!(key.len() == 32, "new key has {} bytes", key.len());
        is(&f, &key, &ty)?;
        let mut b = Vec::new();
        f.save(&mut b).map_err(|e| format!("save: {:?}", e))?;
        standard(&b, &key, &ty)?;
        is(&kf_open(&b)?.map_err(|e| format!("open: {:?}", e))?, &key, &ty)?;
    }
    Ok(())
}

// ------------------------------------------------------------- accepted layouts

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Accept {
    Binary(Bytes),
    /// key, per-digit case choices
    Hex([u8; 32], u64),
    /// key, style, Key before Meta, unknown elements, padding of the document
    Xml([u8; 32], Style, bool, u8),
}

fn accept() -> BoxedStrategy<Accept> {
    prop_oneof![
        2 => gen::key_file().prop_map(|k| Accept::Binary(k.key)),
        1 => (select(vec![&b"<KeyFile></KeyFile>"[..], b"<?xml", b"0123456789abcdef", b"\n", b"\xef\xbb\xbf"]), any::<u8>()).prop_map(|(p, f)| {
            let mut v = p.to_vec();
            v.resize(32, f);
            Accept::Binary(Bytes(v))
        }),
        3 => (any::<[u8; 32]>(), any::<u64>()).prop_map(|(k, c)| Accept::Hex(k, c)),
        1 => (any::<[u8; 32]>(), select(vec![0u64, u64::MAX])).prop_map(|(k, c)| Accept::Hex(k, c)),
        6 => (any::<[u8; 32]>(), gen::style(), any::<bool>(), any::<u8>()).prop_map(|(k, s, b, u)| Accept::Xml(k, s, b, u)),
    ]
    .boxed()
}

fn xml_tree(data: &str, version: &str, swap: bool, unknown: u8) -> El {
    let mut meta = El::new("Meta");
    meta.push(El::text("Version", version));
    let mut key = El::new("Key");
    if unknown & 1 == 1 {
        meta.push(El::text("Generator", "another program"));
    }
    if unknown & 2 == 2 {
        let mut u = El::new("X");
        u.push(El::text("Data", "AAAA"));
        u.push(El::text("Version", "9"));
        key.push(u);
    }
    key.push(El::text("Data", data));
    if unknown & 4 == 4 {
        key.push(El::text("Comment", "Data"));
    }
    let mut r = El::new("KeyFile");
    for e in if swap { [key, meta] } else { [meta, key] } {
        r.push(e);
    }
    if unknown & 8 == 8 {
        let mut u = El::new("Extension");
        let mut k = El::new("Key");
        k.push(El::text("Data", "BBBB"));
        u.push(k);
        r.push(u);
    }
    r
}

fn check_accept(a: &Accept, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let (bytes, key, ty) = match a {
        Accept::Binary(b) => (b.0.clone(), b.0.clone(), KfType::Binary),
        Accept::Hex(k, case) => {
            let h: String = hex(k).chars().enumerate().map(|(i, c)| if case >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            (h.into_bytes(), k.to_vec(), KfType::Hex)
        }
        Accept::Xml(k, s, swap, u) => (serialize(&xml_tree(&b64(k), "1.00", *swap, *u), s), k.to_vec(), KfType::Xml),
    };
    o.class(&format!("{:?}", ty));
    let f = kf_open(&bytes)?.map_err(|e| format!("open: {:?}", e))?;
    is(&f, &key, &ty)?;
    let mut b = Vec::new();
    f.save(&mut b).map_err(|e| format!("save: {:?}", e))?;
    o.evals = 2;
    standard(&b, &key, &ty)
}

// ------------------------------------------------------------- rejected content

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Reject {
    /// length other than 32 and 64, no XML
    Length(Bytes),
    /// 64 bytes with at least one that is no hexadecimal digit
    Hex(Bytes, u8, u8),
    Version([u8; 32], String),
    NoData(u8),
    BadData(String),
    Root(String, bool),
    /// well-formed key file cut, or with garbage around it
    Cut([u8; 32], Style, u32),
    Tail([u8; 32], String, bool),
    Mismatch([u8; 32], String),
}

fn reject() -> BoxedStrategy<Reject> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..200).prop_map(|mut v| {
            if v.len() == 32 || v.len() == 64 {
                v.push(1);
            }
            if let Some(b) = v.first_mut() {
                *b |= 0x80;
            }
            Reject::Length(Bytes(v))
        }),
        1 => select(vec![31usize, 33, 63, 65, 128, 0, 1, 16, 66]).prop_map(|n| Reject::Length(Bytes(vec![b'a'; n]))),
        3 => (vec(select(b"0123456789abcdefABCDEF".to_vec()), 64), 0u8..64, prop_oneof![any::<u8>(), select(b"gG/:@` \n\0-+xX".to_vec())]).prop_map(|(v, i, b)| {
            let b = if b.is_ascii_hexdigit() { b'g' } else { b };
            Reject::Hex(Bytes(v), i, b)
        }),
        2 => (any::<[u8; 32]>(), select(vec!["2.0", "2.00", "1.0", "1", "1.000", "01.00", "1.01", "", "1.00.0", "1,00", " 1.00 ", "one", "1.00\n"])).prop_map(|(k, v)| Reject::Version(k, v.into())),
        1 => (0u8..4).prop_map(Reject::NoData),
        2 => select(vec!["!", "AAAA!", "AAA", "A", "====", "AAAA=", "é", "AA=A", "-_-_"]).prop_map(|s| Reject::BadData(s.into())),
        2 => (select(vec!["keyfile", "KEYFILE", "KeyFiles", "Key", "Meta", "X", "KeePassFile"]), any::<bool>()).prop_map(|(s, n)| Reject::Root(s.into(), n)),
        3 => (any::<[u8; 32]>(), gen::style(), any::<u32>()).prop_map(|(a, b, c)| Reject::Cut(a, b, c)),
        2 => (any::<[u8; 32]>(), select(vec!["x", "<", "</KeyFile>", "<KeyFile/>", "&amp;", "\u{1}", "<a></a>"]), any::<bool>()).prop_map(|(k, s, b)| Reject::Tail(k, s.into(), b)),
        2 => (any::<[u8; 32]>(), select(vec!["</Key>", "</Data>", "</Meta>", "</KeyFile>", "<Meta>", "<Key>", "</Version>"])).prop_map(|(k, s)| Reject::Mismatch(k, s.into())),
    ]
    .boxed()
}

fn check_reject(r: &Reject, o: &mut Obs) -> Check {
    let plain = Style { indent: 1, selfclose: 0, ..Style::default() };
    let good = |k: &[u8; 32], s: &Style| serialize(&xml_tree(&b64(k), "1.00", false, 0), s);
    let bytes = match r {
        Reject::Length(b) => b.0.clone(),
        Reject::Hex(b, i, c) => {
            let mut v = b.0.clone();
            v[*i as usize] = *c;
            v
        }
        Reject::Version(k, v) => serialize(&xml_tree(&b64(k), v, false, 0), &plain),
        Reject::NoData(n) => {
            let mut e = xml_tree(&b64(&[1; 32]), "1.00", false, 0);
            match n {
                0 => e.kids.clear(),
                1 => {
                    e.kids.pop();
                }
                2 => {
                    e.kids.pop();
                    e.push(El::new("Key"));
                }
                _ => {
                    e.kids.pop();
                    let mut k = El::new("Key");
                    k.push(El::text("data", &b64(&[1; 32])));
                    e.push(k);
                }
            }
            serialize(&e, &plain)
        }
        Reject::BadData(s) => serialize(&xml_tree(s, "1.00", false, 0), &plain),
        Reject::Root(s, nested) => {
            let mut e = xml_tree(&b64(&[2; 32]), "1.00", false, 0);
            if *nested {
                let mut w = El::new(s);
                w.push(e);
                e = w;
            } else {
                e.name = s.clone();
            }
            serialize(&e, &plain)
        }
        Reject::Cut(k, s, p) => {
            let v = good(k, s);
            let end = v.windows(10).rposition(|w| w.starts_with(b"</KeyFile")).unwrap_or(0);
            let n = at(*p, end + 1);
            let mut v = v[..n].to_vec();
            if v.len() == 32 || v.len() == 64 {
                v.pop();
            }
            v
        }
        Reject::Tail(k, s, front) => {
            let v = good(k, &Style { decl: 0, ..plain });
            if *front { [s.as_bytes(), &v].concat() } else { [&v, s.as_bytes()].concat() }
        }
        Reject::Mismatch(k, s) => {
            let t = String::from_utf8(good(k, &plain)).unwrap();
            t.replacen(s, "", 1).into_bytes()
        }
    };
    o.nontrivial = true;
    let name = format!("{:?}", r);
    o.class(name.split('(').next().unwrap());
    match kf_open(&bytes)? {
        Err(_) => Ok(()),
        Ok(k) => Err(format!("{} bytes that are no key file opened as {:?}: {:?}", bytes.len(), k.file_type, String::from_utf8_lossy(&bytes))),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "every case is one: a key file saved and reopened, a standard layout read, or content that must be rejected",
        assumptions: &["keys of 32 bytes", "XML key files carry a Version element", "no white space inside the base64 of Data"],
        lanes: vec![
            lane("roundtrip", 4000, 50_000, gen::key_file, roundtrip),
            lane("new", 300, 5_000, || any::<u64>().boxed(), fresh),
            lane("accept", 6000, 100_000, accept, check_accept),
            lane("reject", 6000, 100_000, reject, check_reject),
        ],
    }
}
