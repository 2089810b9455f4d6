//! Each header defect is reported as itself.

use super::common::*;
use crate::crypto::cbc_encrypt_raw;
use crate::ensure;
use crate::kdbx::*;
use crate::xmlmap::Layout;
use proptest::sample::select;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Defect {
    Sig1([u8; 4]),
    Sig2([u8; 4]),
    /// inserted at a place (scaled)
    Unknown(u8, Bytes, u32),
    /// field, size; the content is cut or padded
    Size(u8, u16),
    Cipher([u8; 16]),
    Compression(u32),
    Stream(u32),
    Missing(u8),
    MissingSome(u16),
    None,
}

/// What does not matter: order, salts, comment, version, end field, payload.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Case {
    db: MDb,
    layout: Layout,
    seed: u64,
    defect: Defect,
    /// the payload is left out or random bytes
    body: Option<Bytes>,
    /// a good copy of the defective field as well, before (true) or after it
    #[serde(default)]
    good_copy: Option<bool>,
}

fn flip4(base: [u8; 4]) -> BoxedStrategy<[u8; 4]> {
    prop_oneof![
        3 => (0usize..4, 0u32..8).prop_map(move |(i, b)| { let mut a = base; a[i] ^= 1 << b; a }),
        1 => any::<[u8; 4]>(),
        1 => select(vec![SIG1, SIG2, SIG2_KDB1, [0; 4], [0xff; 4], [0x66, 0xfb, 0x4b, 0xb5], [0x9a, 0xa2, 0xd9, 0x03], [0xb5, 0x4b, 0xfb, 0x67], *b"PK\x03\x04"]),
    ]
    .boxed()
}

fn defect() -> BoxedStrategy<Defect> {
    use Defect::*;
    let word = |ok: &'static [u32]| {
        prop_oneof![
            3 => 0u32..8,
            1 => any::<u32>(),
            2 => select(vec![0x0100u32, 0x0101, 0x0102, 0x1_0000, 0x1_0001, 0x1_0002, 0x0100_0000, 0x0100_0001, 0x0200_0000, 0x8000_0000, 0x8000_0001, 0x8000_0002, u32::MAX]),
        ]
        .prop_filter("legal value", move |v| !ok.contains(v))
    };
    prop_oneof![
        2 => flip4(SIG1).prop_filter("the right one", |s| *s != SIG1).prop_map(Sig1),
        2 => flip4(SIG2).prop_filter("the right one", |s| *s != SIG2).prop_map(Sig2),
        3 => (11u8..=255, proptest::collection::vec(any::<u8>(), 0..40), any::<u32>()).prop_map(|(i, b, p)| Unknown(i, Bytes(b), p)),
        6 => (select(REQUIRED.to_vec()), prop_oneof![
                4 => 0u16..70, 2 => (select(vec![4u16, 8, 16, 32]), 1u16..=255).prop_map(|(n, k)| n + k * 256), 1 => any::<u16>(), 1 => select(vec![256u16, 0x1000, 0x2000, 0x0400, 0x0800]),
            ]).prop_filter("the right size", |(i, n)| size_of(*i) != Some(*n as usize)).prop_map(|(i, n)| Size(i, n)),
        3 => prop_oneof![
                (0usize..16, 0u32..8).prop_map(|(i, b)| { let mut a = AES_ID; a[i] ^= 1 << b; a }),
                any::<[u8; 16]>(),
                // Twofish, ChaCha20, nil
                select(vec![
                    [0xAD, 0x68, 0xF2, 0x9F, 0x57, 0x6F, 0x4B, 0xB9, 0xA3, 0x6A, 0xD4, 0x7A, 0xF9, 0x65, 0x34, 0x6C],
                    [0xD6, 0x03, 0x8A, 0x2B, 0x8B, 0x6F, 0x4C, 0xB5, 0xA5, 0x24, 0x33, 0x9A, 0x31, 0xDB, 0xB5, 0x9A],
                    [0; 16],
                ]),
            ].prop_filter("the right cipher", |c| *c != AES_ID).prop_map(Cipher),
        2 => word(&[0, 1]).prop_map(Compression),
        2 => word(&[2]).prop_map(Stream),
        4 => select(REQUIRED.to_vec()).prop_map(Missing),
        1 => (1u16..512).prop_map(MissingSome),
        1 => Just(None),
    ]
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (
        gen::small_db(),
        (any::<u64>(), any::<Bytes20>(), any::<bool>()),
        gen::version(),
        any::<u64>(),
        defect(),
        prop_oneof![6 => Just(Option::None), 1 => proptest::collection::vec(any::<u8>(), 0..80).prop_map(|b| Some(Bytes(b)))],
        prop_oneof![2 => Just(Option::None), 1 => any::<bool>().prop_map(Some)],
    )
        .prop_map(|(mut db, (hdr_seed, end, shuffled), version, seed, defect, body, good_copy)| {
            db.version = version;
            let layout = Layout { hdr_seed: if shuffled { hdr_seed | 1 } else { 0 }, hdr_end: Bytes(end.0), ..Layout::default() };
            Case { db, layout, seed, defect, body, good_copy }
        })
        .boxed()
}

#[derive(Debug)]
struct Bytes20(Vec<u8>);
impl Arbitrary for Bytes20 {
    type Parameters = ();
    type Strategy = BoxedStrategy<Bytes20>;
    fn arbitrary_with(_: ()) -> Self::Strategy {
        proptest::collection::vec(any::<u8>(), 0..20).prop_map(Bytes20).boxed()
    }
}

fn check(case: &Case, o: &mut Obs) -> Check {
    let c = MCreds::pw("p");
    let mut p = parts(&case.db, &case.layout, &c, case.seed);
    // the payload is sealed for the intact header
    let good = encode(&case.db, &case.layout, &c, case.seed);
    let body = good[p.header.bytes().len()..].to_vec();
    let h = &mut p.header;
    let at_field_in = |f: &[(u8, Bytes)], id: u8| f.iter().position(|f| f.0 == id).unwrap();
    let at_field = |h: &Header, id: u8| at_field_in(&h.fields, id);
    let intact = h.fields.clone();
    use kpdb::Error as E;
    let mut exp: Vec<String> = Vec::new();
    let kind = match &case.defect {
        Defect::Sig1(s) => {
            h.sig1 = *s;
            exp.push(format!("{:?}", E::InvalidDbSignature(*s)));
            "signature"
        }
        Defect::Sig2(s) => {
            h.sig2 = *s;
            exp.push(format!("{:?}", E::UnhandledDbType(*s)));
            if *s == SIG2_KDB1 { "KeePass 1" } else { "unknown type" }
        }
        Defect::Unknown(id, b, pos) => {
            let n = h.fields.len();
            h.fields.insert(at(*pos, n + 1), (*id, b.clone()));
            exp.push(format!("{:?}", E::UnhandledHeader(*id)));
            "unknown field"
        }
        Defect::Size(id, n) => {
            let i = at_field(h, *id);
            h.fields[i].1 .0.resize(*n as usize, 0x5a);
            exp.push(format!("{:?}", E::InvalidHeaderSize { id: *id, expected: size_of(*id).unwrap() as u16, actual: *n }));
            "field size"
        }
        Defect::Cipher(v) => {
            let i = at_field(h, CIPHER);
            h.fields[i].1 = Bytes(v.to_vec());
            exp.push(format!("{:?}", E::UnhandledMasterCipher(*v)));
            "cipher"
        }
        Defect::Compression(v) => {
            let i = at_field(h, COMPRESSION);
            h.fields[i].1 = Bytes(v.to_le_bytes().to_vec());
            exp.push(format!("{:?}", E::UnhandledCompression(*v)));
            "compression"
        }
        Defect::Stream(v) => {
            let i = at_field(h, STREAM_CIPHER);
            h.fields[i].1 = Bytes(v.to_le_bytes().to_vec());
            exp.push(format!("{:?}", E::UnhandledStreamCipher(*v)));
            "inner stream"
        }
        Defect::Missing(id) => {
            h.fields.retain(|f| f.0 != *id);
            exp.push(format!("{:?}", E::MissingHeader(*id)));
            "missing field"
        }
        Defect::MissingSome(mask) => {
            let gone: Vec<u8> = REQUIRED.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, f)| *f).collect();
            h.fields.retain(|f| !gone.contains(&f.0));
            exp.extend(gone.iter().map(|id| format!("{:?}", E::MissingHeader(*id))));
            "missing fields"
        }
        Defect::None => "no defect",
    };
    let bad = match &case.defect {
        Defect::Size(id, _) => Some(*id),
        Defect::Cipher(_) => Some(CIPHER),
        Defect::Compression(_) => Some(COMPRESSION),
        Defect::Stream(_) => Some(STREAM_CIPHER),
        _ => Option::None,
    };
    if let (Some(id), Some(before)) = (bad, case.good_copy) {
        let i = at_field(h, id);
        let copy = (id, intact[at_field_in(&intact, id)].1.clone());
        h.fields.insert(if before { i } else { i + 1 }, copy);
        o.class(if before { "after a good copy" } else { "before a good copy" });
    }
    o.class(kind);
    o.class_if(case.layout.hdr_seed != 0, "shuffled");
    o.nontrivial = case.defect != Defect::None;
    let mut file = h.bytes();
    match &case.body {
        Some(b) => file.extend_from_slice(&b.0),
        None => file.extend_from_slice(&body),
    }
    let r = open(&file, &c)?;
    if exp.is_empty() {
        if case.body.is_none() {
            ensure!(r.is_ok(), "a valid file is rejected: {:?}", r.err());
        }
        return Ok(());
    }
    match r {
        Ok(_) => Err(format!("opened although the header has a defect: {}", kind)),
        Err(e) => {
            let got = format!("{:?}", e);
            ensure!(exp.contains(&got), "{}: error {} instead of {}", kind, got, exp.join(" or "));
            Ok(())
        }
    }
}

/// Every field with every size up to 64 or with the right low byte, every field missing, every unknown field number, in two orders.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Small {
    Size(u8, u16, bool),
    Missing(u8, bool),
    Unknown(u8, bool),
    Compression(u8),
    Stream(u8),
}

fn all(_: Tier) -> Vec<Small> {
    let mut v = Vec::new();
    for rev in [false, true] {
        for id in REQUIRED {
            v.push(Small::Missing(id, rev));
            v.extend((0u16..=64).chain(size_of(id).into_iter().flat_map(|n| (1..=255).map(move |k| n as u16 + 256 * k))).filter(|n| size_of(id) != Some(*n as usize)).map(|n| Small::Size(id, n, rev)));
        }
        v.extend((11u8..=255).map(|i| Small::Unknown(i, rev)));
    }
    v.extend((2u8..=255).map(Small::Compression));
    v.extend((0u8..=255).filter(|i| *i != 2).map(Small::Stream));
    v
}

fn check_all(s: &Small, o: &mut Obs) -> Check {
    let mut salts = Salts::from_seed(9);
    salts.iv[0] = 1;
    let mut h = Header::standard(&salts, true, 1, Some(b"c"), (3, 1));
    if matches!(s, Small::Size(_, _, true) | Small::Missing(_, true) | Small::Unknown(_, true)) {
        h.fields.reverse();
    }
    use kpdb::Error as E;
    let exp = match s {
        Small::Size(id, n, _) => {
            h.fields.iter_mut().find(|f| f.0 == *id).unwrap().1 .0.resize(*n as usize, 0);
            E::InvalidHeaderSize { id: *id, expected: size_of(*id).unwrap() as u16, actual: *n }
        }
        Small::Missing(id, _) => {
            h.fields.retain(|f| f.0 != *id);
            E::MissingHeader(*id)
        }
        Small::Unknown(id, _) => {
            h.fields.insert(4, (*id, Bytes(vec![1, 2, 3])));
            E::UnhandledHeader(*id)
        }
        Small::Compression(v) => {
            h.fields.iter_mut().find(|f| f.0 == COMPRESSION).unwrap().1 = Bytes(vec![*v, 0, 0, 0]);
            E::UnhandledCompression(*v as u32)
        }
        Small::Stream(v) => {
            h.fields.iter_mut().find(|f| f.0 == STREAM_CIPHER).unwrap().1 = Bytes(vec![*v, 0, 0, 0]);
            E::UnhandledStreamCipher(*v as u32)
        }
    };
    o.nontrivial = true;
    o.class("enumerated");
    let mut file = h.bytes();
    file.extend_from_slice(&cbc_encrypt_raw(&[7; 32], &salts.iv, &[1; 64]));
    let got = open(&file, &MCreds::pw("p"))?;
    let got = got.err().map(|e| format!("{:?}", e));
    ensure!(got == Some(format!("{:?}", exp)), "{:?}: {:?} instead of {:?}", s, got, exp);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "the header has a defect",
        assumptions: &["one defect per file, except that several fields may be missing (then any of them may be named)"],
        lanes: vec![
            lane("defects", 12_000, 300_000, strat, check),
            Box::new(EnumLane { name: "enumerated", cases: all, check: check_all }),
        ],
    }
}
