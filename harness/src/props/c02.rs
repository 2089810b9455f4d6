//! Wrong credentials never open a file.

use super::common::*;
use crate::ensure;
use crate::kdbx::pattern;

/// A way to get other credentials from the right ones.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Wrong {
    Append(String),
    Prepend(String),
    DropLast,
    DropFirst,
    Case,
    CaseOne(u32),
    CharBit(u32, u8),
    SwapChars(u32),
    ReplaceChar(u32, char),
    Cut(u32),
    Double,
    Trim,
    Latin1,
    Nfd,
    Password(String),
    NoPassword,
    NoKeyFile,
    EmptyPassword,
    KeyBit(u16),
    KeyAppend(u8),
    KeyDropLast,
    KeyDropFirst,
    KeyCut,
    KeyEmpty,
    KeyZeroTail,
    KeyReversed,
    OtherKey([u8; 32]),
    AddKeyFile([u8; 32]),
    HashAsPassword,
    PasswordHashAsKey,
    CompositeAsKey,
    KeyHexAsPassword,
    SwapParts,
}

fn wrong() -> BoxedStrategy<Wrong> {
    use Wrong::*;
    let small = proptest::sample::select(vec![" ", "\0", "\n", "\r\n", "a", "A", "\u{feff}", "\u{301}", "\u{200b}", "\t", "0", "é"]).prop_map(|s| s.to_string());
    prop_oneof![
        3 => small.clone().prop_map(Append),
        2 => small.prop_map(Prepend),
        1 => Just(DropLast), 1 => Just(DropFirst), 2 => Just(Case),
        2 => any::<u32>().prop_map(CaseOne),
        3 => (any::<u32>(), 0u8..16).prop_map(|(a, b)| CharBit(a, b)),
        1 => any::<u32>().prop_map(SwapChars),
        2 => (any::<u32>(), any::<char>()).prop_map(|(a, b)| ReplaceChar(a, b)),
        2 => any::<u32>().prop_map(Cut),
        1 => Just(Double), 1 => Just(Trim), 1 => Just(Latin1), 1 => Just(Nfd),
        3 => gen::any_text().prop_map(Password),
        1 => Just(NoPassword), 1 => Just(NoKeyFile), 1 => Just(EmptyPassword),
        3 => any::<u16>().prop_map(KeyBit),
        1 => any::<u8>().prop_map(KeyAppend), 1 => Just(KeyAppend(0)), 1 => Just(KeyDropLast), 1 => Just(KeyDropFirst), 1 => Just(KeyCut), 1 => Just(KeyEmpty),
        1 => Just(KeyZeroTail), 1 => Just(KeyReversed),
        1 => any::<[u8; 32]>().prop_map(OtherKey),
        1 => any::<[u8; 32]>().prop_map(AddKeyFile),
        1 => Just(HashAsPassword), 1 => Just(PasswordHashAsKey), 1 => Just(CompositeAsKey), 1 => Just(KeyHexAsPassword), 1 => Just(SwapParts),
    ]
    .boxed()
}

fn kf(k: &[u8]) -> Option<MKeyFile> {
    Some(MKeyFile { key: Bytes(k.to_vec()), ty: KfType::Binary })
}

impl Wrong {
    fn apply(&self, c: &MCreds) -> Option<MCreds> {
        use Wrong::*;
        let mut w = c.clone();
        let pw = c.password.clone();
        let key = c.keyfile.as_ref().map(|k| k.key.0.clone());
        let map = |f: &dyn Fn(&mut Vec<char>)| {
            pw.as_ref().map(|p| {
                let mut v: Vec<char> = p.chars().collect();
                f(&mut v);
                v.into_iter().collect::<String>()
            })
        };
        match self {
            Append(s) => w.password = Some(pw? + s),
            Prepend(s) => w.password = Some(s.clone() + &pw?),
            DropLast => w.password = map(&|v| { v.pop(); }),
            DropFirst => w.password = map(&|v| { if !v.is_empty() { v.remove(0); } }),
            Case => w.password = pw.map(|p| if p.to_lowercase() == p { p.to_uppercase() } else { p.to_lowercase() }),
            CaseOne(i) => w.password = map(&|v| { if !v.is_empty() { let k = at(*i, v.len()); let c = v[k]; v[k] = if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }; } }),
            CharBit(i, b) => w.password = map(&|v| { if !v.is_empty() { let k = at(*i, v.len()); v[k] = char::from_u32(v[k] as u32 ^ 1 << b).unwrap_or('x'); } }),
            SwapChars(i) => w.password = map(&|v| { if v.len() > 1 { let k = at(*i, v.len() - 1); v.swap(k, k + 1); } }),
            ReplaceChar(i, c) => w.password = map(&|v| { if !v.is_empty() { let k = at(*i, v.len()); v[k] = *c; } }),
            Cut(i) => w.password = map(&|v| { let k = at(*i, v.len() + 1); v.truncate(k); }),
            Double => w.password = pw.map(|p| p.repeat(2)),
            Trim => w.password = pw.map(|p| p.trim().to_string()),
            Latin1 => w.password = pw.map(|p| p.bytes().map(char::from).collect()),
            Nfd => w.password = pw.map(|p| p.replace('é', "e\u{301}").replace('ü', "u\u{308}")),
            Password(s) => w.password = Some(s.clone()),
            NoPassword => w.password = None,
            NoKeyFile => w.keyfile = None,
            EmptyPassword => w.password = Some(String::new()),
            KeyBit(b) => {
                let mut k = key?;
                if k.is_empty() {
                    return None;
                }
                let n = *b as usize % (k.len() * 8);
                k[n / 8] ^= 1 << (n % 8);
                w.keyfile.as_mut()?.key = Bytes(k);
            }
            KeyZeroTail => {
                let mut k = key?;
                k.iter_mut().skip(16).for_each(|b| *b = 0);
                w.keyfile.as_mut()?.key = Bytes(k);
            }
            KeyAppend(_) | KeyDropLast | KeyDropFirst | KeyCut | KeyEmpty => {
                let mut k = key?;
                match self {
                    KeyAppend(b) => k.push(*b),
                    KeyDropLast => drop(k.pop()),
                    KeyDropFirst if !k.is_empty() => drop(k.remove(0)),
                    KeyCut => k.truncate(32),
                    _ => k.clear(),
                }
                w.keyfile.as_mut()?.key = Bytes(k);
            }
            KeyReversed => {
                let mut k = key?;
                k.reverse();
                w.keyfile.as_mut()?.key = Bytes(k);
            }
            OtherKey(k) => {
                w.keyfile.as_mut()?.key = Bytes(k.to_vec());
            }
            AddKeyFile(k) => {
                if key.is_some() {
                    return None;
                }
                w.keyfile = kf(k)
            }
            HashAsPassword => w.password = Some(crate::crypto::hex(&crate::crypto::sha256(&[pw?.as_bytes()]))),
            PasswordHashAsKey => w = MCreds { password: None, keyfile: kf(&crate::crypto::sha256(&[pw?.as_bytes()])) },
            CompositeAsKey => w = MCreds { password: None, keyfile: kf(&c.composite()) },
            KeyHexAsPassword => w = MCreds { password: Some(crate::crypto::hex(&key?)), keyfile: None },
            SwapParts => {
                // the key file's key next to the hash of the password
                let k = key?;
                w = MCreds { password: Some(String::from_utf8_lossy(&k).into_owned()), keyfile: kf(&crate::crypto::sha256(&[pw?.as_bytes()])) };
            }
        }
        if w.password.is_none() && w.keyfile.is_none() { None } else { Some(w) }
    }
}

type Case = (MDb, MCreds, Vec<Wrong>);

fn check((m, c, ws): &Case, o: &mut Obs) -> Check {
    let file = save(&conv::database(m, c))?;
    let mut n = 0;
    for w in ws {
        let Some(b) = w.apply(c) else { continue };
        let name = format!("{:?}", w);
        let name = name.split('(').next().unwrap();
        let r = open(&file, &b)?;
        n += 1;
        if b.composite() == c.composite() {
            o.class("same composite key");
            ensure!(r.is_ok(), "credentials with the same composite key do not open: {:?}", r.err());
        } else {
            o.class(name);
            o.nontrivial = true;
            if let Ok(d) = r {
                return Err(format!("opened with other credentials ({}): root group {:?}", name, d.root_group.name));
            }
        }
    }
    o.evals = n + 2;
    same("with the right credentials", &m.as_saved(), &open_model(&file, c)?)
}

/// XML key files hold keys of any length.
fn creds() -> BoxedStrategy<MCreds> {
    let long = (proptest::option::of(gen::any_text()), prop_oneof![2 => 0usize..100, 1 => 100usize..3000], any::<u64>())
        .prop_map(|(password, n, s)| MCreds { password, keyfile: Some(MKeyFile { key: Bytes(pattern(n, s)), ty: KfType::Xml }) });
    prop_oneof![4 => gen::creds(), 1 => long].boxed()
}

fn strat() -> BoxedStrategy<Case> {
    (gen::small_db(), creds(), proptest::collection::vec(wrong(), 1..10)).boxed()
}

/// Files of the harness's own encoder: an implementation that ignores part of the key on save and
/// on open alike is caught here.
fn foreign((m, c, ws): &Case, o: &mut Obs) -> Check {
    let file = encode(m, &Default::default(), c, crate::runner::fnv(format!("{:?}", c).as_bytes()));
    let mut n = 0;
    for w in ws {
        let Some(b) = w.apply(c) else { continue };
        n += 1;
        let r = open(&file, &b)?;
        if b.composite() != c.composite() {
            o.nontrivial = true;
            ensure!(r.is_err(), "opened with other credentials ({:?})", w);
        }
    }
    o.evals = n + 1;
    open_ok(&file, c).map(|_| ())
}

/// The files of real programs with other credentials.
fn real((i, ws): &(u8, Vec<Wrong>), o: &mut Obs) -> Check {
    let (file, c, _) = crate::samples::sample(*i as usize)?;
    open_ok(file, &c)?;
    let mut n = 0;
    for w in ws {
        let Some(b) = w.apply(&c) else { continue };
        n += 1;
        let r = open(file, &b)?;
        if b.composite() != c.composite() {
            o.nontrivial = true;
            ensure!(r.is_err(), "opened with other credentials ({:?})", w);
        }
    }
    o.evals = n + 1;
    Ok(())
}
fn reals() -> BoxedStrategy<(u8, Vec<Wrong>)> {
    (0u8..crate::samples::N as u8, proptest::collection::vec(wrong(), 1..6)).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "at least one attempt used credentials whose composite key (computed by the harness) differs from the right one",
        assumptions: &["no SHA-256 collisions", "a wrong key passes the 32 start bytes with probability 2^-256"],
        lanes: vec![lane("own-files", 3000, 60_000, strat, check), lane("foreign-files", 1500, 30_000, strat, foreign), lane("real-files", 150, 3000, reals, real)],
    }
}
