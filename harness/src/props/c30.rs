//! Errors.

use super::common::*;
use crate::ensure;
use kpdb::Error;
use proptest::collection::vec;
use proptest::sample::select;
use std::error::Error as _;
use std::io::{self, ErrorKind, Read, Write};

const ERRNOS: [i32; 8] = [5, 13, 28, 32, 104, 110, 27, 122];

/// A failure of a stream.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Fail {
    /// kind (index) and message
    Custom(u8, String),
    Simple(u8),
    Os(u8),
}

fn kind(i: u8) -> ErrorKind {
    use ErrorKind::*;
    let all = [
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, BrokenPipe, AlreadyExists, WouldBlock,
        InvalidInput, InvalidData, TimedOut, WriteZero, Unsupported, UnexpectedEof, OutOfMemory, Other, StorageFull, QuotaExceeded,
    ];
    all[i as usize % all.len()]
}

impl Fail {
    fn make(&self) -> io::Error {
        match self {
            Fail::Custom(k, m) => io::Error::new(kind(*k), m.clone()),
            Fail::Simple(k) => kind(*k).into(),
            Fail::Os(n) => io::Error::from_raw_os_error(ERRNOS[*n as usize % ERRNOS.len()]),
        }
    }
    /// What identifies the failure in a text.
    fn text(&self) -> String {
        self.make().to_string()
    }
}

fn fail() -> BoxedStrategy<Fail> {
    prop_oneof![
        3 => (any::<u8>(), gen::any_text()).prop_map(|(k, m)| Fail::Custom(k, if m.is_empty() { "m".into() } else { m })),
        1 => any::<u8>().prop_map(Fail::Simple),
        2 => any::<u8>().prop_map(Fail::Os),
    ]
    .boxed()
}

struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    at: usize,
    fail: &'a Fail,
    fired: usize,
    out: Vec<u8>,
    on_flush: bool,
}

impl<'a> Failing<'a> {
    fn new(data: &'a [u8], at: usize, fail: &'a Fail) -> Self {
        Failing { data, pos: 0, at, fail, fired: 0, out: Vec::new(), on_flush: false }
    }
    fn hit(&mut self) -> io::Error {
        self.fired += 1;
        assert!(self.fired < 10_000, "called 10000 times after the failure");
        self.fail.make()
    }
}

impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.at && !buf.is_empty() {
            return Err(self.hit());
        }
        let n = buf.len().min(self.at - self.pos).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Failing<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.out.len() >= self.at && !buf.is_empty() && !self.on_flush {
            return Err(self.hit());
        }
        let n = if self.on_flush { buf.len() } else { buf.len().min(self.at - self.out.len()) };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.on_flush || self.fired > 0 {
            return Err(self.hit());
        }
        Ok(())
    }
}

#[allow(deprecated)]
fn has_cause(e: &Error) -> bool {
    e.source().is_some() || e.cause().is_some()
}

/// The error is the failure of the stream itself.
fn is_io(e: &Error, f: &Fail, what: &str) -> Check {
    let want = f.make();
    match e {
        Error::Io(got) => {
            ensure!(got.kind() == want.kind(), "{}: {:?} reported as {:?}", what, want, got);
            ensure!(got.to_string() == want.to_string(), "{}: {:?} reported as {:?}", what, want, got);
            ensure!(got.raw_os_error() == want.raw_os_error(), "{}: {:?} reported as {:?}", what, want, got);
            ensure!(has_cause(e), "{}: {:?} without its cause", what, e);
        }
        e => return Err(format!("{}: {:?} reported as {:?}", what, want, e)),
    }
    says(e, &want.to_string(), what)
}

fn says(e: &Error, part: &str, what: &str) -> Check {
    ensure!(e.to_string().contains(part), "{}: {:?} does not tell {:?}", what, e.to_string(), part);
    Ok(())
}

fn places(n: usize, picks: &[u32]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 3, 8, 12, n / 2, n.saturating_sub(1)];
    v.extend(picks.iter().map(|p| *p as usize % n.max(1)));
    v.retain(|x| *x < n);
    v
}

/// (database, credentials, failure, places)
type IoCase = (MDb, MCreds, Fail, Vec<u32>);

fn check_io((m, c, f, picks): &IoCase, o: &mut Obs) -> Check {
    let d = conv::database(m, c);
    let key = conv::key(c);
    let file = save(&d)?;
    o.class(&format!("{:?}", f.make().kind()));
    o.nontrivial = true;
    for at in places(file.len(), picks) {
        let mut w = Failing::new(&[], at, f);
        let what = format!("save failing after {} of {} bytes", at, file.len());
        match guard(|| d.save(&mut w)).map_err(|p| format!("{}: {}", what, p))? {
            // the compressed size varies from save to save
            Ok(()) if w.fired == 0 => {}
            Ok(()) => return Err(format!("{} returned Ok", what)),
            Err(e) => is_io(&e, f, &what)?,
        }
        let mut r = Failing::new(&file, at, f);
        let what = format!("open failing after {} of {} bytes", at, file.len());
        match guard(|| kpdb::Database::open(&mut r, &key)).map_err(|p| format!("{}: {}", what, p))? {
            Ok(_) => return Err(format!("{} returned Ok", what)),
            Err(e) => is_io(&e, f, &what)?,
        }
        // nothing at all is accepted any more
        let what = format!("save to a writer that is full after {} of {} bytes", at, file.len());
        let mut full = vec![0u8; at];
        match guard(|| d.save(&mut &mut full[..])).map_err(|p| format!("{}: {}", what, p))? {
            Err(Error::Io(e)) if e.kind() == ErrorKind::WriteZero => {}
            Ok(()) if at + 100 > file.len() => {}
            r => return Err(format!("{}: {:?}", what, r)),
        }
        o.evals += 3;
    }
    // a failing flush, where the writer is flushed
    let mut w = Failing::new(&[], 0, f);
    w.on_flush = true;
    if let Err(e) = guard(|| d.save(&mut w))? {
        is_io(&e, f, "save with failing flush")?;
    }
    Ok(())
}

fn io_strat() -> BoxedStrategy<IoCase> {
    (gen::small_db(), gen::creds(), fail(), vec(any::<u32>(), 0..6))
        .prop_map(|(mut m, c, f, p)| {
            m.rounds = m.rounds.min(1);
            (m, c, f, p)
        })
        .boxed()
}

type KeyCase = (MKeyFile, Fail, Vec<u32>);

fn check_key((k, f, picks): &KeyCase, o: &mut Obs) -> Check {
    let kf = conv::key_file(k);
    let mut file = Vec::new();
    kf.save(&mut file).map_err(|e| format!("KeyFile::save: {:?}", e))?;
    o.class(&format!("{:?}", k.ty));
    o.nontrivial = true;
    for at in places(file.len(), picks) {
        let mut w = Failing::new(&[], at, f);
        let what = format!("KeyFile::save failing after {} of {} bytes", at, file.len());
        match guard(|| kf.save(&mut w)).map_err(|p| format!("{}: {}", what, p))? {
            Ok(()) => return Err(format!("{} returned Ok", what)),
            // the XML writer reports its own kind of error
            Err(e @ Error::XmlError(_)) if k.ty == KfType::Xml => says(&e, &f.text(), &what)?,
            Err(e) => is_io(&e, f, &what)?,
        }
        let mut r = Failing::new(&file, at, f);
        let what = format!("KeyFile::open failing after {} of {} bytes", at, file.len());
        match guard(|| kpdb::KeyFile::open(&mut r)).map_err(|p| format!("{}: {}", what, p))? {
            Ok(_) => return Err(format!("{} returned Ok", what)),
            Err(e) => is_io(&e, f, &what)?,
        }
        o.evals += 2;
    }
    Ok(())
}

fn key_strat() -> BoxedStrategy<KeyCase> {
    (gen::key_file(), fail(), vec(any::<u32>(), 0..10)).boxed()
}

/// What is wrong with an input, beyond the values inside (lane content) and the header (C18).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Wrong {
    /// opened with these credentials
    Creds(MCreds),
    /// the header ends after so much of it
    Cut(u32),
    /// key files
    Hex(Vec<u8>, u8, u8),
    Text(String),
    Version([u8; 32], String),
}

fn check_wrong((m, c, w): &(MDb, MCreds, Wrong), o: &mut Obs) -> Check {
    let key_open = |b: &[u8]| guard(|| kpdb::KeyFile::open(&mut &b[..])).map_err(|p| format!("KeyFile::open: {}", p));
    match w {
        Wrong::Creds(other) => {
            let file = save(&conv::database(m, c))?;
            if conv::key(other) == conv::key(c) {
                return Ok(());
            }
            match open(&file, other)? {
                Err(Error::InvalidKey) => o.class("InvalidKey"),
                Err(Error::CryptoError(_)) => o.class("CryptoError"),
                r => return Err(format!("wrong credentials: {:?}", r.map(|_| ()))),
            }
        }
        Wrong::Cut(at) => {
            let file = save(&conv::database(m, c))?;
            let end = kdbx::Header::parse(&file)?.1;
            let at = *at as usize % end;
            o.class("cut header");
            match open(&file[..at], c)? {
                Err(Error::Io(e)) if e.kind() == ErrorKind::UnexpectedEof => {}
                r => return Err(format!("input that ends after {} bytes of {} of header: {:?}", at, end, r.map(|_| ()))),
            }
        }
        Wrong::Hex(v, i, b) => {
            let mut v = v.clone();
            v[*i as usize % 64] = *b;
            o.class("key file: no hex");
            match key_open(&v)? {
                Err(Error::InvalidKeyFile) => {}
                r => return Err(format!("64 bytes that are no hexadecimal digits: {:?}", r.map(|_| ()))),
            }
        }
        Wrong::Text(s) => {
            if s.len() == 32 || s.len() == 64 || s.trim_start().starts_with('<') || s.contains("KeyFile") {
                return Ok(());
            }
            o.class("key file: no XML");
            match key_open(s.as_bytes())? {
                Err(Error::XmlError(_)) | Err(Error::InvalidKeyFile) => {}
                r => return Err(format!("text that is no key file: {:?}", r.map(|_| ()))),
            }
        }
        Wrong::Version(k, v) => {
            let x = format!("<?xml version=\"1.0\" encoding=\"utf-8\"?><KeyFile><Meta><Version>{}</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", v, crate::crypto::b64(k));
            o.class("key file: version");
            match key_open(x.as_bytes())? {
                Err(Error::XmlError(_)) | Err(Error::InvalidKeyFile) | Err(Error::Unimplemented(_)) => {}
                r => return Err(format!("key file of version {:?}: {:?}", v, r.map(|_| ()))),
            }
        }
    }
    o.nontrivial = true;
    Ok(())
}

fn wrong_strat() -> BoxedStrategy<(MDb, MCreds, Wrong)> {
    let w = prop_oneof![
        4 => gen::creds().prop_map(Wrong::Creds),
        4 => any::<u32>().prop_map(Wrong::Cut),
        2 => (vec(select(b"0123456789abcdefABCDEF".to_vec()), 64), any::<u8>(), select(b"gGzZ -+.\n\0\xff/:@`".to_vec())).prop_map(|(v, i, b)| Wrong::Hex(v, i, b)),
        1 => gen::any_text().prop_map(Wrong::Text),
        1 => (any::<[u8; 32]>(), select(vec!["2.0", "2.00", "0.9", "1", "x"])).prop_map(|(k, v)| Wrong::Version(k, v.to_string())),
    ];
    (gen::small_db(), gen::creds(), w)
        .prop_map(|(mut m, c, w)| {
            m.rounds = m.rounds.min(1);
            (m, c, w)
        })
        .boxed()
}

/// Values an error can carry.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Texts {
    id: u8,
    n: u32,
    a: u16,
    b: u16,
    four: [u8; 4],
    bytes: [u8; 32],
    text: String,
    fail: Fail,
    color: String,
    num: i32,
}

fn errors(t: &Texts) -> Vec<(Error, Vec<String>)> {
    let mut id16 = [0u8; 16];
    id16.copy_from_slice(&t.bytes[..16]);
    let s = |x: &dyn std::fmt::Display| x.to_string();
    let b = |x: &[u8]| x.iter().map(|v| v.to_string()).collect::<Vec<_>>();
    vec![
        (Error::InvalidBlockHash, vec![]),
        (Error::InvalidBlockId(t.n), vec![s(&t.n)]),
        (Error::InvalidDbSignature(t.four), b(&t.four)),
        (Error::InvalidFinalBlockHash(t.bytes), b(&t.bytes)),
        (Error::InvalidHeaderHash, vec![]),
        (Error::InvalidHeaderSize { id: t.id, expected: t.a, actual: t.b }, vec![s(&t.id), s(&t.a), s(&t.b)]),
        (Error::InvalidKey, vec![]),
        (Error::InvalidKeyFile, vec![]),
        (Error::from(t.fail.make()), vec![t.fail.text()]),
        (Error::MissingHeader(t.id), vec![s(&t.id)]),
        (Error::UnhandledCompression(t.n), vec![s(&t.n)]),
        (Error::UnhandledDbType(t.four), b(&t.four)),
        (Error::UnhandledHeader(t.id), vec![s(&t.id)]),
        (Error::UnhandledMasterCipher(id16), b(&id16)),
        (Error::UnhandledStreamCipher(t.n), vec![s(&t.n)]),
        (Error::Unimplemented(t.text.clone()), vec![t.text.clone()]),
        (Error::XmlError(t.text.clone()), vec![t.text.clone()]),
    ]
}

/// The parts appear in the text one after the other.
fn in_order(text: &str, parts: &[String]) -> bool {
    let mut rest = text;
    parts.iter().all(|p| match rest.find(p.as_str()) {
        Some(i) => {
            rest = &rest[i + p.len()..];
            true
        }
        None => false,
    })
}

/// Everything that is wrong with the text of a colour.
fn color_defects(s: &str) -> Vec<kpdb::ColorError> {
    use kpdb::ColorError::*;
    let c: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    if c.len() < 7 {
        v.push(HexStringTooShort);
    }
    if c.len() > 7 {
        v.push(HexStringTooLong);
    }
    if c.first() != Some(&'#') {
        v.push(HexStringNoHashSign);
    }
    if v.is_empty() {
        let bad = |i: usize| !c[i].is_ascii_hexdigit() || !c[i + 1].is_ascii_hexdigit();
        // characters of several bytes shift the parts
        let any = !s.is_ascii();
        for (i, e) in [(1, InvalidRedValue), (3, InvalidGreenValue), (5, InvalidBlueValue)] {
            if any || bad(i) {
                v.push(e);
            }
        }
    }
    v
}

fn check_text((t, u): &(Texts, Texts), o: &mut Obs) -> Check {
    o.nontrivial = true;
    let (a, b) = (errors(t), errors(u));
    for (i, (e, parts)) in a.iter().enumerate() {
        let text = e.to_string();
        ensure!(!text.trim().is_empty(), "{:?} has no text", e);
        if matches!(e, Error::InvalidHeaderSize { .. }) {
            // in whatever order
            for p in parts {
                says(e, p, "text of an error")?;
            }
        } else {
            ensure!(in_order(&text, parts), "the text of {:?} is {:?}", e, text);
        }
        ensure!(has_cause(e) == matches!(e, Error::Io(_)), "the cause of {:?}", e);
        for (j, (f, q)) in b.iter().enumerate() {
            let other = f.to_string();
            if i != j {
                // nothing but free text may be alike
                let free = matches!(e, Error::Unimplemented(_) | Error::XmlError(_) | Error::Io(_)) || matches!(f, Error::Unimplemented(_) | Error::XmlError(_) | Error::Io(_));
                ensure!(free || text != other, "{:?} and {:?} have the same text {:?}", e, f, text);
            } else {
                ensure!((text == other) == (parts == q), "{:?} is told as {:?}, {:?} as {:?}", e, text, f, other);
            }
        }
    }
    // the conversion keeps the error
    is_io(&Error::from(t.fail.make()), &t.fail, "From<io::Error>")?;

    // colours, icons, obfuscation
    if let Err(e) = kpdb::Color::from_hex_string(&t.color) {
        o.class("ColorError");
        let text = e.to_string();
        ensure!(!text.trim().is_empty(), "{:?} has no text", e);
        let ok = color_defects(&t.color);
        ensure!(ok.contains(&e), "Color::from_hex_string({:?}) is {:?}, not one of {:?}", t.color, e, ok);
        o.class(&format!("{:?}", e));
        if let Err(f) = kpdb::Color::from_hex_string(&u.color) {
            ensure!((e == f) == (e.to_string() == f.to_string()), "{:?} and {:?} are told as {:?} and {:?}", e, f, e.to_string(), f.to_string());
        }
    }
    if let Err(e) = kpdb::Icon::from_i32(t.num) {
        o.class("IconError");
        ensure!(!e.to_string().trim().is_empty(), "{:?} has no text", e);
    }
    if let Err(e) = kpdb::Obfuscation::from_i32(t.num) {
        ensure!(!e.to_string().trim().is_empty(), "{:?} has no text", e);
    }
    o.evals = (a.len() * b.len()) as u64;
    Ok(())
}

fn texts() -> BoxedStrategy<Texts> {
    let text = || gen::any_text();
    (any::<u8>(), prop_oneof![0u32..5, any::<u32>()], any::<u16>(), any::<u16>(), any::<[u8; 4]>(), any::<[u8; 32]>(), text(), fail(), prop_oneof![
        1 => text().boxed(),
        1 => "#[0-9a-fA-F]{0,12}".boxed(),
        1 => "[0-9a-fxg]{6,8}".boxed(),
        4 => ("[0-9a-fA-F]{6}", 0usize..7, select(vec!["g", "G", "#", " ", "-", "+", "x", "é", "/", ":"])).prop_map(|(h, i, c)| {
            let mut v: Vec<String> = format!("#{}", h).chars().map(String::from).collect();
            v[i] = c.into();
            v.concat()
        }).boxed(),
    ], any::<i32>())
        .prop_map(|(id, n, a, b, four, bytes, text, fail, color, num)| Texts { id, n, a, b, four, bytes, text, fail, color, num })
        .boxed()
}

fn text_strat() -> BoxedStrategy<(Texts, Texts)> {
    prop_oneof![
        2 => (texts(), texts()).boxed(),
        // differing in one place
        3 => (texts(), texts(), 0u8..11).prop_map(|(t, u, i)| {
            let mut v = t.clone();
            match i {
                0 => v.id = u.id,
                1 => v.n = u.n,
                2 => v.a = u.a,
                3 => v.b = u.b,
                4 => v.four[u.id as usize % 4] = u.four[0],
                5 => v.bytes[u.id as usize % 32] = u.bytes[0],
                6 => v.text = u.text,
                7 => v.fail = u.fail,
                8 => std::mem::swap(&mut v.a, &mut v.b),
                9 => v.num = u.num,
                _ => v.text.push(' '),
            }
            (t, v)
        }),
    ]
    .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "a failure, wrong credentials or damage was met, or texts of errors were compared",
        assumptions: &[
            "a failing stream is one that fails with any kind of error but Interrupted, accepts nothing more, or ends early",
            "damage of the encrypted part and wrong credentials cannot be told apart; either is reported as such",
        ],
        lanes: vec![
            lane("streams", 700, 15_000, io_strat, check_io),
            lane("key-file-streams", 1500, 30_000, key_strat, check_key),
            lane("inputs", 1500, 30_000, wrong_strat, check_wrong),
            lane("content", 2500, 60_000, super::c24::small, super::c24::check_error),
            lane("texts", 4000, 100_000, text_strat, check_text),
        ],
    }
}
