//! Modified files are rejected or read back identically.

use super::common::*;
use crate::ensure;
use proptest::collection::vec;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Damage {
    /// all of these, anywhere in the file
    Any(Vec<Edit>),
    /// in the payload only
    Payload(Vec<Edit>),
    /// every header byte once with this mask
    EachHeaderByte(u8),
    /// payload bytes at stride n from the given offset, one at a time, with this mask
    EachPayloadByte(u8, u8),
    /// every truncation at stride n
    Truncations(u8),
    /// two header fields exchanged
    SwapFields(u8, u8),
    /// a header field removed, repeated or moved to the end
    Field(u8, u8),
    /// the header of another save of the same database
    OtherHeader,
    /// the payload of another save
    OtherPayload,
    Comment(Bytes),
}

fn damage() -> BoxedStrategy<Damage> {
    use Damage::*;
    prop_oneof![
        4 => vec(edit(), 1..3).prop_map(Any),
        4 => vec(edit(), 1..3).prop_map(Payload),
        3 => (1u8..=255).prop_map(EachHeaderByte),
        2 => (0u8..8).prop_map(|b| EachHeaderByte(1 << b)),
        3 => (1u8..=255, 1u8..40).prop_map(|(a, b)| EachPayloadByte(a, b)),
        2 => (1u8..60).prop_map(Truncations),
        1 => (0u8..10, 0u8..10).prop_map(|(a, b)| SwapFields(a, b)),
        1 => (0u8..10, 0u8..3).prop_map(|(a, b)| Field(a, b)),
        1 => Just(OtherHeader),
        1 => Just(OtherPayload),
        1 => vec(any::<u8>(), 0..30).prop_map(|b| Comment(Bytes(b))),
    ]
    .boxed()
}

type Case = (MDb, MCreds, bool, Damage);

fn strat() -> BoxedStrategy<Case> {
    (prop_oneof![3 => gen::small_db(), 1 => gen::db()], gen::creds(), proptest::bool::weighted(0.8), damage())
        .prop_map(|(mut m, c, own, d)| {
            m.rounds = m.rounds.min(3);
            (m, c, own, d)
        })
        .boxed()
}

/// The files of real programs, damaged.
fn samples() -> BoxedStrategy<(u8, Damage)> {
    (0u8..crate::samples::N as u8, damage()).boxed()
}
fn check_sample((i, d): &(u8, Damage), o: &mut Obs) -> Check {
    let (file, c, full) = crate::samples::sample(*i as usize)?;
    o.class("file of a real program");
    check_damage(file, &full.db, &c, d, o)
}

fn one(orig: &[u8], hlen: usize, new: &[u8], m: &MDb, c: &MCreds, o: &mut Obs) -> Check {
    if new == orig {
        return Ok(());
    }
    if !affordable(new) {
        o.class("skipped: too many rounds");
        return Ok(());
    }
    o.evals += 1;
    o.nontrivial = true;
    let header_changed = new.len() < hlen || new[..hlen] != orig[..hlen];
    o.class(if header_changed { "header changed" } else { "payload changed" });
    match open(new, c)? {
        Err(_) => {
            o.class("rejected");
            Ok(())
        }
        Ok(d) => {
            ensure!(!header_changed, "opened although the header was changed");
            o.class("accepted with the same content");
            same("opened from a modified file", m, &conv::from_db(&d)?)
        }
    }
}

fn check((m, c, own, dmg): &Case, o: &mut Obs) -> Check {
    let (file, m) = if *own {
        (save(&conv::database(m, c))?, m.as_saved())
    } else {
        let l = crate::xmlmap::Layout { blocks: vec![100, 30], ..Default::default() };
        (encode(m, &l, c, 11), m.clone())
    };
    o.class(if *own { "own file" } else { "file of another program" });
    check_damage(&file, &m, c, dmg, o)
}

fn check_damage(file: &[u8], m: &MDb, c: &MCreds, dmg: &Damage, o: &mut Obs) -> Check {
    let (h, n) = kdbx::Header::parse(file)?;
    same("unmodified", m, &open_model(file, c)?)?;
    let run = |new: &[u8], o: &mut Obs| one(file, n, new, m, c, o);
    match dmg {
        Damage::Any(es) => {
            let mut v = file.to_vec();
            es.iter().for_each(|e| e.apply(&mut v, 0));
            run(&v, o)
        }
        Damage::Payload(es) => {
            let mut v = file.to_vec();
            es.iter().for_each(|e| if v.len() >= n { e.apply(&mut v, n) });
            run(&v, o)
        }
        Damage::EachHeaderByte(mask) => {
            for i in 0..n.min(600) {
                let mut v = file.to_vec();
                v[i] ^= mask;
                run(&v, o).map_err(|e| format!("header byte {} xor {:#x}: {}", i, mask, e))?;
            }
            Ok(())
        }
        Damage::EachPayloadByte(mask, stride) => {
            let len = file.len() - n;
            let step = (*stride as usize).max(len / 300 + 1);
            for i in (0..len).step_by(step) {
                let mut v = file.to_vec();
                v[n + i] ^= mask;
                run(&v, o).map_err(|e| format!("payload byte {} xor {:#x}: {}", i, mask, e))?;
            }
            // the last two blocks byte by byte (padding and final block)
            for i in len.saturating_sub(32)..len {
                let mut v = file.to_vec();
                v[n + i] ^= mask;
                run(&v, o).map_err(|e| format!("payload byte {} xor {:#x}: {}", i, mask, e))?;
            }
            Ok(())
        }
        Damage::Truncations(stride) => {
            let step = (*stride as usize).max(file.len() / 300 + 1);
            for i in (0..file.len()).step_by(step).chain((n..file.len()).rev().step_by(16).take(8)) {
                run(&file[..i], o).map_err(|e| format!("cut to {} of {} bytes: {}", i, file.len(), e))?;
            }
            Ok(())
        }
        Damage::SwapFields(a, b) => {
            let mut h = h.clone();
            let k = h.fields.len();
            h.fields.swap(*a as usize % k, *b as usize % k);
            run(&[h.bytes(), file[n..].to_vec()].concat(), o)
        }
        Damage::Field(a, how) => {
            let mut h = h.clone();
            let k = *a as usize % h.fields.len();
            let f = h.fields[k].clone();
            if *how != 1 {
                h.fields.remove(k);
            }
            if *how > 0 {
                h.fields.push(f);
            }
            run(&[h.bytes(), file[n..].to_vec()].concat(), o)
        }
        Damage::OtherHeader | Damage::OtherPayload => {
            let other = save(&conv::database(m, c))?;
            let (_, n2) = kdbx::Header::parse(&other)?;
            let v = if *dmg == Damage::OtherHeader { [&other[..n2], &file[n..]].concat() } else { [&file[..n], &other[n2..]].concat() };
            run(&v, o)
        }
        Damage::Comment(b) => {
            let mut h = h.clone();
            h.fields.retain(|f| f.0 != kdbx::COMMENT);
            h.fields.insert(0, (kdbx::COMMENT, b.clone()));
            run(&[h.bytes(), file[n..].to_vec()].concat(), o)
        }
    }
}

/// A recorded header hash that is not the hash of the header.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Record {
    Right,
    Bits(Vec<u8>),
    Prefix(u8),
    Longer(Bytes),
    Reversed,
    Rotated(u8),
    Filled(u8),
    /// the hash of the header without its last field, without its signatures, twice, or of the payload
    OfOther(u8),
    /// the digest as hexadecimal text
    Hex,
    /// the header is changed after its hash was recorded, and the hash is cut
    ChangedAndCut(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct HashCase {
    db: MDb,
    l: crate::xmlmap::Layout,
    seed: u64,
    record: Record,
}

fn hashes() -> BoxedStrategy<HashCase> {
    use Record::*;
    let record = prop_oneof![
        2 => Just(Right),
        3 => vec(any::<u8>(), 1..4).prop_map(Bits),
        3 => (1u8..32).prop_map(Prefix),
        2 => vec(any::<u8>(), 1..40).prop_map(|b| Longer(Bytes(b))),
        1 => Just(Reversed),
        1 => (1u8..32).prop_map(Rotated),
        1 => any::<u8>().prop_map(Filled),
        2 => (0u8..4).prop_map(OfOther),
        1 => Just(Hex),
        2 => (1u8..33).prop_map(ChangedAndCut),
    ];
    (gen::small_db(), gen::layout(), any::<u64>(), record)
        .prop_map(|(mut db, mut l, seed, record)| {
            db.rounds = db.rounds.min(3);
            l.header_hash = false;
            HashCase { db, l, seed, record }
        })
        .boxed()
}

fn check_hash(case: &HashCase, o: &mut Obs) -> Check {
    use crate::crypto::sha256;
    let c = MCreds::pw("p");
    let mut p = parts(&case.db, &case.l, &c, case.seed);
    let header = p.header.bytes();
    let right = sha256(&[&header]).to_vec();
    let mut h = right.clone();
    match &case.record {
        Record::Right => {}
        Record::Bits(bits) => bits.iter().for_each(|b| h[*b as usize / 8] ^= 1 << (b % 8)),
        Record::Prefix(n) => h.truncate(*n as usize),
        Record::Longer(b) => h.extend_from_slice(&b.0),
        Record::Reversed => h.reverse(),
        Record::Rotated(n) => h.rotate_left(*n as usize),
        Record::Filled(b) => h.fill(*b),
        Record::OfOther(k) => {
            h = match k {
                0 => sha256(&[&header[..header.len() - 8]]).to_vec(),
                1 => sha256(&[&header[12..]]).to_vec(),
                2 => sha256(&[&right]).to_vec(),
                _ => sha256(&[b""]).to_vec(),
            }
        }
        Record::Hex => h = right.iter().map(|b| format!("{:02x}", b)).collect::<String>().into_bytes(),
        Record::ChangedAndCut(n) => {
            p.header.fields.push((kdbx::COMMENT, Bytes(b"added later".to_vec())));
            h.truncate(*n as usize);
        }
    }
    let changed = matches!(case.record, Record::ChangedAndCut(_));
    let mut root = crate::xmlmap::to_xml(&case.db, &case.l);
    crate::xmlmap::add_header_hash(&mut root, &h, case.l.seed);
    let file = p.file_from_xml_bytes(&crate::xmlmini::serialize(&p.finish_xml(root, &case.l), &case.l.style), &case.l);
    let r = open(&file, &c)?;
    if h == right && !changed {
        o.class("right");
        return match r {
            Ok(d) => same("opened", &case.db, &conv::from_db(&d)?),
            Err(e) => Err(format!("rejected although the recorded hash is right: {:?}", e)),
        };
    }
    o.nontrivial = true;
    let name = format!("{:?}", case.record);
    o.class(name.split(['(', ' ']).next().unwrap());
    ensure!(r.is_err(), "opened although the recorded header hash ({} bytes) is not that of the header", h.len());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "at least one file that differs from the saved one was opened with the right credentials",
        assumptions: &["changes that ask for more than 2^17 key transformation rounds are not run", "no SHA-256 collisions"],
        lanes: vec![lane("damage", 3000, 80_000, strat, check), lane("real-files", 60, 2000, samples, check_sample), lane("header-hash", 3000, 60_000, hashes, check_hash)],
    }
}
