//! The hashed block stream.

use super::common::*;
use crate::crypto::{pkcs7_pad, sha256};
use crate::ensure;
use crate::kdbx::*;
use crate::xmlmap::{to_xml, Layout};
use crate::xmlmini::serialize;
use proptest::sample::select;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Defect {
    None,
    /// block (scaled over all of them, the final one included), new number
    Id(u32, u32),
    /// block, by how much
    IdPlus(u32, i32),
    /// data block, byte of the hash, bit
    Hash(u32, u8, u8),
    /// the hash of something else: 0 all zero, 1 of nothing, 2 of the neighbour, 3 of the block with its header, 4 of all data so far, 5 reversed
    OtherHash(u32, u8),
    /// data block, byte (scaled), bit
    Data(u32, u32, u8),
    /// 0 one bit, 1 hash of nothing, 2 of a byte, 3 the last bytes, 5 of all data, 6 of the last block, 7 of the start bytes, 8 the start bytes, 9 of zeros, else all ones
    Final(u8, u8),
    /// swap two neighbours, numbers and all
    Swap(u32),
    /// the same but with the numbers put right again (content check)
    SwapRenumbered(u32),
    /// drop a block
    Drop(u32),
    /// repeat a block
    Repeat(u32),
    /// an empty block in the middle, hash right for an empty block
    EmptyHashed(u32),
    /// start bytes: bit
    Start(u8),
    StartSwapped,
    /// cut after this share of the payload
    Cut(u32),
    /// cut whole blocks off the end, the final block included
    NoFinal(u32),
    /// number of the first block
    FirstId(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    db: MDb,
    blocks: Vec<u32>,
    seed: u64,
    defect: Defect,
}

fn defect() -> BoxedStrategy<Defect> {
    use Defect::*;
    let p = any::<u32>;
    prop_oneof![
        2 => Just(None),
        2 => (p(), prop_oneof![0u32..6, any::<u32>(), Just(u32::MAX)]).prop_map(|(a, b)| Id(a, b)),
        3 => (p(), select(vec![1i32, -1, 2, 256, 65536, 1 << 24])).prop_map(|(a, b)| IdPlus(a, b)),
        4 => (p(), 0u8..32, 0u8..8).prop_map(|(a, b, c)| Hash(a, b, c)),
        3 => (p(), 0u8..6).prop_map(|(a, b)| OtherHash(a, b)),
        4 => (p(), p(), 0u8..8).prop_map(|(a, b, c)| Data(a, b, c)),
        3 => (0u8..11, any::<u8>()).prop_map(|(a, b)| Final(a, b)),
        2 => p().prop_map(Swap),
        1 => p().prop_map(SwapRenumbered),
        2 => p().prop_map(Drop),
        2 => p().prop_map(Repeat),
        1 => p().prop_map(EmptyHashed),
        2 => any::<u8>().prop_map(Start),
        1 => Just(StartSwapped),
        3 => p().prop_map(Cut),
        2 => p().prop_map(NoFinal),
        1 => prop_oneof![Just(1u32), any::<u32>()].prop_map(FirstId),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (
        gen::small_db(),
        prop_oneof![
            3 => proptest::collection::vec(prop_oneof![2 => 16u32..300, 1 => select(vec![1u32, 2, 31, 32, 33, 64, 1000, 4096])], 1..5),
            1 => Just(Vec::new()),
        ],
        any::<u64>(),
        defect(),
    )
        .prop_map(|(db, blocks, seed, defect)| Case { db, blocks, seed, defect })
        .boxed()
}

/// Streams of very many tiny blocks; the defects are often near the places where a narrow counter would wrap.
fn many() -> BoxedStrategy<Case> {
    let place = |n: usize| {
        // scaled so that at(p, n) is that block
        prop_oneof![
            2 => select(vec![0usize, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537]),
            1 => 0..n,
        ]
        .boxed()
    };
    (gen::small_db(), 66_000usize..80_000, any::<u64>(), defect(), place(66_000), any::<bool>())
        .prop_map(|(mut db, len, seed, defect, place, put)| {
            use Defect::*;
            db.gzip = false;
            let mut x = seed | 1;
            db.meta.name = (0..len).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (b'a' + (x >> 59) as u8 % 26) as char }).collect();
            let p = PLACE | place as u32;
            let defect = match defect {
                Id(_, v) if put => Id(p, v),
                IdPlus(_, v) if put => IdPlus(p, v),
                Hash(_, a, b) if put => Hash(p, a, b),
                OtherHash(_, a) if put => OtherHash(p, a),
                Data(_, a, b) if put => Data(p, a, b),
                Swap(_) if put => Swap(p),
                SwapRenumbered(_) if put => SwapRenumbered(p),
                Drop(_) if put => Drop(p),
                Repeat(_) if put => Repeat(p),
                EmptyHashed(_) if put => EmptyHashed(p),
                NoFinal(_) if put => NoFinal(p),
                d => d,
            };
            Case { db, blocks: vec![1], seed, defect }
        })
        .boxed()
}

/// A block number as it is, not scaled.
const PLACE: u32 = 0xfff0_0000;

fn at(p: u32, n: usize) -> usize {
    if p >= PLACE {
        (p - PLACE) as usize % n
    } else {
        super::common::at(p, n)
    }
}

fn check(case: &Case, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let l = Layout::default();
    let ps = parts(&case.db, &l, &c, case.seed);
    let xml = serialize(&ps.finish_xml(to_xml(&case.db, &l), &l), &l.style);
    let data = ps.compress(&xml, &l);
    let mut bs = split_blocks(&data, &case.blocks);
    let n = bs.len(); // with the final one
    let d = n - 1; // data blocks
    let mut start = ps.salts.start.to_vec();
    use kpdb::Error as E;
    // None: any error will do
    let mut exp: Option<E> = None;
    let mut ok = false;
    let mut cut: Option<usize> = None;
    let mut name = format!("{:?}", case.defect);
    name.truncate(name.find('(').unwrap_or(name.len()));
    match &case.defect {
        Defect::None => ok = true,
        Defect::Id(b, id) => {
            let b = at(*b, n);
            if *id as usize == b {
                ok = true;
            } else {
                bs[b].id = *id;
                exp = Some(E::InvalidBlockId(*id));
            }
        }
        Defect::IdPlus(b, k) => {
            let b = at(*b, n);
            bs[b].id = bs[b].id.wrapping_add(*k as u32);
            exp = Some(E::InvalidBlockId(bs[b].id));
        }
        Defect::FirstId(k) => {
            let k = (*k).max(1);
            for b in &mut bs {
                b.id = b.id.wrapping_add(k);
            }
            exp = Some(E::InvalidBlockId(k));
        }
        Defect::Hash(b, i, bit) => {
            bs[at(*b, d)].hash.0[*i as usize] ^= 1 << bit;
            exp = Some(E::InvalidBlockHash);
        }
        Defect::OtherHash(b, kind) => {
            let b = at(*b, d);
            let own = bs[b].hash.0.clone();
            let mut whole = Vec::new();
            bs[b].put(&mut whole);
            let so_far: Vec<u8> = bs[..=b].iter().flat_map(|x| x.data.0.clone()).collect();
            let h = match kind {
                0 => vec![0; 32],
                1 => sha256(&[b""]).to_vec(),
                2 => bs[(b + 1) % n].hash.0.clone(),
                3 => sha256(&[&whole]).to_vec(),
                4 => sha256(&[&so_far]).to_vec(),
                _ => own.iter().rev().copied().collect(),
            };
            ok = h == own;
            bs[b].hash = Bytes(h);
            exp = Some(E::InvalidBlockHash);
        }
        Defect::Data(b, i, bit) => {
            let b = at(*b, d);
            let i = at(*i, bs[b].data.0.len());
            bs[b].data.0[i] ^= 1 << bit;
            exp = Some(E::InvalidBlockHash);
        }
        Defect::Final(kind, x) => {
            let mut h = [0u8; 32];
            match kind {
                0 => h[*x as usize / 8] = 1 << (x % 8),
                1 => h = sha256(&[b""]),
                2 => h = sha256(&[&[*x]]),
                3 => h[31] = x | 1,
                5 => h = sha256(&[&data]),
                6 => h = sha256(&[&bs[d - 1].data.0]),
                7 => h = sha256(&[&start]),
                8 => h.copy_from_slice(&start[..32]),
                9 => h = sha256(&[&[0; 32]]),
                _ => h = [0xff; 32],
            }
            bs[d].hash = Bytes(h.to_vec());
            exp = Some(E::InvalidFinalBlockHash(h));
        }
        Defect::Swap(b) => {
            if d < 2 {
                ok = true;
            } else {
                let b = at(*b, d - 1);
                bs.swap(b, b + 1);
                exp = Some(E::InvalidBlockId(b as u32 + 1));
            }
        }
        Defect::SwapRenumbered(b) => {
            if d < 2 {
                ok = true;
            } else {
                let b = at(*b, d - 1);
                bs.swap(b, b + 1);
                bs[b].id = b as u32;
                bs[b + 1].id = b as u32 + 1;
                // a legal stream of other data; only the block layer is checked here
                let r = open(&ps.file_from_payload(&payload(&start, &bs)), &c)?;
                if let Err(e) = r {
                    let e = format!("{:?}", e);
                    ensure!(!e.contains("Block") && e != "InvalidKey", "legal blocks are rejected with {}", e);
                }
                return Ok(());
            }
        }
        Defect::Drop(b) => {
            let b = at(*b, d);
            bs.remove(b);
            exp = Some(E::InvalidBlockId(b as u32 + 1));
        }
        Defect::Repeat(b) => {
            let b = at(*b, d);
            let x = bs[b].clone();
            bs.insert(b, x);
            exp = Some(E::InvalidBlockId(b as u32));
        }
        Defect::EmptyHashed(b) => {
            let b = at(*b, n);
            for x in &mut bs[b..] {
                x.id += 1;
            }
            let h = sha256(&[b""]);
            bs.insert(b, Block { id: b as u32, hash: Bytes(h.to_vec()), size: 0, data: Bytes(Vec::new()) });
            exp = Some(E::InvalidFinalBlockHash(h));
        }
        Defect::Start(bit) => {
            start[*bit as usize / 8] ^= 1 << (bit % 8);
            exp = Some(E::InvalidKey);
        }
        Defect::StartSwapped => {
            start.rotate_left(1);
            exp = Some(E::InvalidKey);
        }
        Defect::Cut(p) => {
            let len = payload(&start, &bs).len();
            cut = Some(at(*p, len));
        }
        Defect::NoFinal(k) => {
            let k = at(*k, n);
            bs.truncate(k);
        }
    }
    o.class(&name);
    o.class_if(d > 3, "more than three data blocks");
    o.class_if(d > 30, "more than thirty data blocks");
    o.class_if(d > 65536, "more than 65536 data blocks");
    o.nontrivial = !ok;
    let mut p = payload(&start, &bs);
    if let Some(k) = cut {
        p.truncate(k);
    }
    let r = open(&ps.file_from_payload(&p), &c)?;
    match (ok, r) {
        (true, Ok(db)) => same("opened", &case.db, &conv::from_db(&db)?),
        (true, Err(e)) => Err(format!("a legal stream of {} data blocks is rejected: {:?}", d, e)),
        (false, Ok(_)) => Err(format!("opened although the block stream is wrong ({})", name)),
        (false, Err(e)) => {
            if let Some(x) = exp {
                ensure!(format!("{:?}", e) == format!("{:?}", x), "{}: error {:?} instead of {:?}", name, e, x);
            }
            Ok(())
        }
    }
}

/// Padding of the encrypted payload: anything but PKCS #7 is an error.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct PadCase {
    db: MDb,
    seed: u64,
    /// value of the last byte, of the other padding bytes
    last: u8,
    other: u8,
}

fn pads() -> BoxedStrategy<PadCase> {
    (gen::small_db(), any::<u64>(), prop_oneof![3 => 0u8..20, 1 => any::<u8>()], prop_oneof![1 => 0u8..20, 1 => any::<u8>()])
        .prop_map(|(db, seed, last, other)| PadCase { db, seed, last, other })
        .boxed()
}

fn check_pad(case: &PadCase, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let l = Layout::default();
    let ps = parts(&case.db, &l, &c, case.seed);
    let xml = serialize(&ps.finish_xml(to_xml(&case.db, &l), &l), &l.style);
    let p = payload(&ps.salts.start, &split_blocks(&ps.compress(&xml, &l), &[]));
    let mut plain = pkcs7_pad(&p);
    let n = plain.len();
    let k = n - p.len();
    plain[p.len()..].fill(case.other);
    plain[n - 1] = case.last;
    let legal = crate::crypto::pkcs7_unpad(&plain).is_ok();
    let right = legal && case.last as usize == k;
    let mut f = ps.header.bytes();
    f.extend_from_slice(&crate::crypto::cbc_encrypt_raw(&ps.key, &ps.salts.iv, &plain));
    let r = open(&f, &c)?;
    o.nontrivial = !right;
    o.class(if right { "right padding" } else if legal { "other length" } else { "illegal padding" });
    if right {
        return r.map(|_| ()).map_err(|e| format!("right padding is rejected: {:?}", e));
    }
    if !legal {
        ensure!(r.is_err(), "padding ending in {:02x} {:02x} is accepted", case.other, case.last);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "the stream has a defect",
        assumptions: &["data behind the final block is not looked at by any reader and is left to C04"],
        lanes: vec![lane("streams", 10_000, 250_000, strat, check), lane("many blocks", 60, 1500, many, check), lane("padding", 3000, 50_000, pads, check_pad)],
    }
}
