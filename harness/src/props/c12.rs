//! Composite key and key transformation.

use super::common::*;
use crate::crypto::{hex, sha256};
use crate::ensure;
use proptest::collection::vec;

fn composite(c: &MCreds, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class(match (&c.password, &c.keyfile) {
        (Some(_), None) => "password",
        (None, Some(_)) => "key file",
        _ => "both",
    });
    o.class_if(c.password.as_ref().is_some_and(|p| p.is_empty()), "empty password");
    o.class_if(c.password.as_ref().is_some_and(|p| !p.is_ascii()), "non-ASCII password");
    let exp = c.composite();
    let k = conv::key(c);
    ensure!(k.unsecure() == exp, "composite key is {} instead of {}", hex(&k.unsecure()), hex(&exp));
    ensure!(k.clone().unsecure() == exp, "a cloned composite key differs");
    // as part of a database
    let d = kpdb::Database::new(&k);
    ensure!(d.composite_key.unsecure() == exp, "the composite key of a new database differs");
    if let Some(kf) = &c.keyfile {
        // the format of the key file does not matter, and neither does its storage
        for ty in [KfType::Binary, KfType::Hex, KfType::Xml] {
            let c2 = MCreds { password: c.password.clone(), keyfile: Some(MKeyFile { key: kf.key.clone(), ty }) };
            ensure!(conv::key(&c2).unsecure() == exp, "the composite key depends on the type of the key file");
            if kf.key.0.len() == 32 {
                let f = conv::key_file(c2.keyfile.as_ref().unwrap());
                let mut b = Vec::new();
                f.save(&mut b).map_err(|e| format!("{:?}", e))?;
                let f = kpdb::KeyFile::open(&mut &b[..]).map_err(|e| format!("{:?}", e))?;
                let k = match &c.password {
                    Some(p) => kpdb::CompositeKey::from_both(p.as_str(), f),
                    None => kpdb::CompositeKey::from_key_file(f),
                };
                ensure!(k.unsecure() == exp, "the composite key differs after storing the key file");
            }
        }
    }
    o.evals = 8;
    Ok(())
}

fn any_creds() -> BoxedStrategy<MCreds> {
    prop_oneof![
        6 => gen::creds(),
        // key bytes of unusual length, as the fields are public
        1 => (proptest::option::of(gen::any_text()), vec(any::<u8>(), 0..80)).prop_map(|(password, k)| MCreds { password, keyfile: Some(MKeyFile { key: Bytes(k), ty: KfType::Xml }) }),
    ]
    .boxed()
}

/// Different credentials, different composite keys.
fn distinct((a, b): &(MCreds, MCreds), o: &mut Obs) -> Check {
    let norm = |c: &MCreds| (c.password.clone(), c.keyfile.as_ref().map(|k| k.key.clone()));
    if norm(a) == norm(b) {
        return Ok(());
    }
    // a key file that holds the hash of a password is that password, by the definition
    let parts = |c: &MCreds| {
        let mut v = c.password.as_ref().map(|p| sha256(&[p.as_bytes()]).to_vec()).unwrap_or_default();
        v.extend(c.keyfile.as_ref().map(|k| k.key.0.clone()).unwrap_or_default());
        v
    };
    if parts(a) == parts(b) {
        return Ok(());
    }
    o.nontrivial = true;
    o.evals = 2;
    ensure!(conv::key(a).unsecure() != conv::key(b).unsecure(), "different credentials have the same composite key");
    Ok(())
}

fn pairs() -> BoxedStrategy<(MCreds, MCreds)> {
    prop_oneof![
        2 => (gen::creds(), gen::creds()),
        // passwords that agree up to an edge
        3 => (gen::edge_len(), vec(any::<char>(), 0..3), vec(any::<char>(), 0..3)).prop_map(|(n, a, b)| {
            let base = "x".repeat(n);
            (MCreds::pw(&(base.clone() + &a.into_iter().collect::<String>())), MCreds::pw(&(base + &b.into_iter().collect::<String>())))
        }),
        2 => (gen::any_text(), gen::key_file(), any::<u8>()).prop_map(|(p, k, bit)| {
            let mut k2 = k.clone();
            k2.key.0[bit as usize / 8] ^= 1 << (bit % 8);
            (MCreds { password: Some(p.clone()), keyfile: Some(k) }, MCreds { password: Some(p), keyfile: Some(k2) })
        }),
        // the same text divided differently
        1 => (any::<[u8; 32]>(), gen::any_text()).prop_map(|(k, p)| (MCreds { password: Some(p.clone()), keyfile: Some(MKeyFile { key: Bytes(k.to_vec()), ty: KfType::Binary }) }, MCreds { password: Some(hex(&k)), keyfile: Some(MKeyFile { key: Bytes(sha256(&[p.as_bytes()]).to_vec()), ty: KfType::Binary }) })),
    ]
    .boxed()
}

// ------------------------------------------------------------- the key of a file

type FCase = (MCreds, u64, u64, Option<Bytes>);

fn file_key((c, rounds, seed, comment): &FCase, o: &mut Obs) -> Check {
    o.nontrivial = true;
    o.class(match rounds {
        0 => "0 rounds",
        1 => "1 round",
        2..=255 => "2-255 rounds",
        256..=6000 => "256-6000 rounds",
        _ => "> 6000 rounds",
    });
    let mut m = MDb { rounds: *rounds, comment: comment.clone(), ..MDb::blank() };
    m.root.entries.push(MEntry::blank(Id([4; 16])));
    let file = save(&conv::database(&m, c))?;
    check_file(&file, &m, c).map_err(|e| format!("{} rounds: {}", rounds, e))?;
    // and the other way round
    let foreign = encode(&m, &Default::default(), c, *seed);
    same("file with the specified key", &m, &open_model(&foreign, c)?).map_err(|e| format!("{} rounds: {}", rounds, e))?;
    // a key derived with another number of rounds is another key
    if *rounds > 0 && *rounds < 2000 {
        let mut l = parts(&MDb { rounds: rounds + 1, ..m.clone() }, &Default::default(), c, *seed);
        l.header = parts(&m, &Default::default(), c, *seed).header;
        let x = l.finish_xml(crate::xmlmap::to_xml(&m, &Default::default()), &Default::default());
        let bad = l.file_from_xml_bytes(&crate::xmlmini::serialize(&x, &Default::default()), &Default::default());
        ensure!(open(&bad, c)?.is_err(), "a file whose key was transformed {} times opens although its header says {}", rounds + 1, rounds);
    }
    o.evals = 4;
    Ok(())
}

fn fstrat() -> BoxedStrategy<FCase> {
    let r = prop_oneof![4 => 0u64..4, 3 => 4u64..400, 2 => 400u64..9000, 1 => proptest::sample::select(vec![255u64, 256, 257, 4095, 4096, 65_535, 65_536, 65_537, 100_000])];
    (gen::creds(), r, any::<u64>(), proptest::option::of(vec(any::<u8>(), 0..20).prop_map(Bytes))).boxed()
}

// ------------------------------------------------------------- round counts no machine can run quickly

/// More rounds than fit in 32 (or 31, 16) bits: a save that says so cannot be done at once, and a file whose
/// key took the truncated number does not open. What is still running after four seconds is abandoned.
fn check_huge(ns: &Vec<u64>, o: &mut Obs) -> Check {
    use std::sync::mpsc;
    o.nontrivial = true;
    let c = MCreds::pw("p");
    let (tx, rx) = mpsc::channel();
    let mut running = 0;
    for &n in ns {
        let (c, tx) = (c.clone(), tx.clone());
        running += 1;
        std::thread::spawn(move || {
            let d = conv::database(&MDb { rounds: n, ..MDb::blank() }, &c);
            let ok = d.save(&mut Vec::new()).is_ok();
            let _ = tx.send(ok.then(|| format!("a file with {} rounds was saved at once, which no derivation with that many rounds can be", n)));
        });
    }
    // opening: the plausible ways to cut the number down; each is tried on its own
    for &n in ns {
        let mut cuts = vec![n as u32 as u64, n as u16 as u64, n as u8 as u64, n & 0x7fff_ffff, n >> 32, n.swap_bytes(), 0, 1, 6000];
        cuts.retain(|x| *x < 70_000 && *x != n);
        cuts.sort();
        cuts.dedup();
        for cut in cuts {
            let m = MDb { rounds: cut, ..MDb::blank() };
            let mut l = parts(&m, &Default::default(), &c, 5);
            for f in &mut l.header.fields {
                if f.0 == kdbx::ROUNDS {
                    f.1 = Bytes(n.to_le_bytes().to_vec());
                }
            }
            let x = l.finish_xml(crate::xmlmap::to_xml(&m, &Default::default()), &Default::default());
            let f = l.file_from_xml_bytes(&crate::xmlmini::serialize(&x, &Default::default()), &Default::default());
            o.evals += 1;
            let (c, tx) = (c.clone(), tx.clone());
            running += 1;
            std::thread::spawn(move || {
                let r = kpdb::Database::open(&mut &f[..], &conv::key(&c)).is_ok();
                let _ = tx.send(r.then(|| format!("a file whose header says {} rounds opens with a key of {} rounds", n, cut)));
            });
        }
    }
    let end = std::time::Instant::now() + std::time::Duration::from_secs(4);
    while running > 0 {
        match rx.recv_timeout(end.saturating_duration_since(std::time::Instant::now())) {
            Ok(Some(m)) => return Err(m.into()),
            Ok(None) => running -= 1,
            Err(_) => break,
        }
    }
    Ok(())
}

fn huge(_: crate::runner::Tier) -> Vec<Vec<u64>> {
    vec![vec![1 << 32, (1 << 32) + 3, (1 << 40) + 300, u64::MAX, 1 << 63, (1 << 48) + 65_535]]
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "every compared pair of keys or saved file counts; pairs that are the same credentials do not",
        assumptions: &["the reference is the harness's own SHA-256 and AES-256, checked by known-answer vectors", "a key file that holds exactly the hash of a password is equivalent to it by definition", "at most 100000 rounds are run to the end; larger counts are only seen not to be cut to 8, 16, 31 or 32 bits"],
        lanes: vec![lane("composite", 6000, 100_000, any_creds, composite), lane("distinct", 4000, 100_000, pairs, distinct), lane("file-key", 2400, 30_000, fstrat, file_key), Box::new(EnumLane { name: "huge-rounds", cases: huge, check: check_huge })],
    }
}
