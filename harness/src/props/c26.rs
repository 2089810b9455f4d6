//! Operations do not influence each other.

use super::common::*;
use crate::ensure;
use crate::xmlmap::Layout;
use proptest::collection::vec;
use std::sync::Barrier;

/// A file: which content, credentials, salts and rounds of the case's small pools, so that files
/// share any of these with each other.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) struct FileSpec {
    content: u8,
    creds: u8,
    salts: u8,
    rounds: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) enum Op {
    /// file, credentials
    Open(u8, u8),
    /// a damaged copy of the file, with its own credentials: where, mask
    Damaged(u8, u32, u8),
    /// save the content under the credentials, look at the file and open it
    Save(u8, u8),
    /// open, search and look up in the file
    Search(u8),
    KeyFile(u8),
    Composite(u8),
    /// the stream fails (0), panics (1) or ends (2) there
    FailOpen(u8, u32, u8),
    /// the stream fails (0), panics (1) or accepts no more (2) at that call, or a text cannot be saved (3)
    FailSave(u8, u8, u8),
    /// the content is cut off there, under valid encryption
    Cut(u8, u32),
    /// the stream of an opening, at that byte, does something else
    InsideOpen(u8, u32, Box<Op>),
    /// the stream of a save, at that call, does something else
    InsideSave(u8, u8, Box<Op>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub(super) struct Case {
    contents: Vec<MDb>,
    creds: Vec<MCreds>,
    keyfiles: Vec<MKeyFile>,
    files: Vec<FileSpec>,
    /// the pool of rounds
    rounds: Vec<u32>,
    /// one list of operations per thread
    pub(super) ops: Vec<Vec<Op>>,
    /// the databases are opened once and used by all the threads
    shared: bool,
}

fn op() -> BoxedStrategy<Op> {
    let i = any::<u8>;
    let call = || prop_oneof![0u8..40, 12u8..18, any::<u8>()];
    prop_oneof![
        14 => plain_op(),
        1 => (i(), any::<u32>(), 0u8..3).prop_map(|(a, b, c)| Op::FailOpen(a, b, c)),
        1 => (i(), call(), 0u8..4).prop_map(|(a, b, c)| Op::FailSave(a, b, c)),
        1 => (i(), any::<u32>()).prop_map(|(a, b)| Op::Cut(a, b)),
        1 => (i(), any::<u32>(), plain_op()).prop_map(|(a, b, c)| Op::InsideOpen(a, b, Box::new(c))),
        1 => (i(), call(), plain_op()).prop_map(|(a, b, c)| Op::InsideSave(a, b, Box::new(c))),
    ]
    .boxed()
}

fn plain_op() -> BoxedStrategy<Op> {
    let i = any::<u8>;
    prop_oneof![
        5 => (i(), i()).prop_map(|(a, b)| Op::Open(a, b)),
        3 => i().prop_map(|a| Op::Open(a, 255)),
        1 => (i(), any::<u32>(), 1u8..=255).prop_map(|(a, b, c)| Op::Damaged(a, b, c)),
        3 => (i(), i()).prop_map(|(a, b)| Op::Save(a, b)),
        1 => i().prop_map(Op::Search),
        1 => i().prop_map(Op::KeyFile),
        1 => i().prop_map(Op::Composite),
    ]
    .boxed()
}

fn rounds() -> BoxedStrategy<Vec<u32>> {
    let r = prop_oneof![6 => 1u32..10, 2 => 10u32..1000, 1 => Just(6000u32), 2 => Just(10_000u32), 1 => Just(60_000u32)];
    vec(r, 1..4).boxed()
}

fn spec() -> BoxedStrategy<FileSpec> {
    (any::<u8>(), any::<u8>(), 0u8..2, 0u8..3).prop_map(|(content, creds, salts, rounds)| FileSpec { content, creds, salts, rounds }).boxed()
}

fn creds() -> BoxedStrategy<Vec<MCreds>> {
    // some of them alike
    (vec(gen::creds(), 1..4), any::<bool>())
        .prop_map(|(mut v, twins)| {
            if twins {
                let mut t = v[0].clone();
                if let Some(p) = &mut t.password {
                    p.push('x');
                    v.push(t);
                }
            }
            v.dedup();
            v
        })
        .boxed()
}

pub(super) fn strat(threads: std::ops::Range<usize>, ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (vec(gen::small_db(), 1..4), creds(), vec(gen::key_file(), 1..3), vec(spec(), 1..5), rounds(), vec(vec(op(), ops), threads), any::<bool>())
        .prop_map(|(contents, creds, keyfiles, files, rounds, ops, shared)| Case { contents, creds, keyfiles, files, rounds, ops, shared })
        .boxed()
}

/// A stream at one point of which something happens.
pub(super) struct At<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    /// bytes read, or calls to write
    done: usize,
    at: usize,
    happened: bool,
    what: &'a mut dyn FnMut() -> std::io::Result<usize>,
}

impl<'a> At<'a> {
    fn new(data: &'a [u8], at: usize, what: &'a mut dyn FnMut() -> std::io::Result<usize>) -> Self {
        At { data, out: Vec::new(), done: 0, at, happened: false, what }
    }
    /// What the call returns at once; usize::MAX if it is to go on.
    fn now(&mut self) -> std::io::Result<usize> {
        if self.done < self.at {
            return Ok(usize::MAX);
        }
        self.happened = true;
        (self.what)()
    }
}

impl std::io::Read for At<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let stop = self.now()?;
        let left = self.data.len() - self.done;
        let n = if self.happened { left } else { left.min(self.at - self.done) };
        let n = n.min(buf.len()).min(stop);
        buf[..n].copy_from_slice(&self.data[self.done..self.done + n]);
        self.done += n;
        Ok(n)
    }
}

impl std::io::Write for At<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.now()?.min(buf.len());
        self.done += 1;
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn mishap(how: u8) -> std::io::Result<usize> {
    match how {
        0 => Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")),
        1 => panic!("injected"),
        _ => Ok(0),
    }
}

pub(super) struct Ready {
    case: Case,
    /// bytes, content, index of the credentials
    files: Vec<(Vec<u8>, MDb, usize)>,
    composites: Vec<[u8; 32]>,
}

fn pick(i: u8, n: usize) -> usize {
    i as usize % n
}

pub(super) fn ready(c: &Case) -> Ready {
    let files = c
        .files
        .iter()
        .map(|f| {
            let mut m = c.contents[pick(f.content, c.contents.len())].clone();
            m.rounds = c.rounds.get(f.rounds as usize % c.rounds.len().max(1)).copied().unwrap_or(1) as u64;
            let k = pick(f.creds, c.creds.len());
            (encode(&m, &Layout::default(), &c.creds[k], 1000 + f.salts as u64), m, k)
        })
        .collect();
    Ready { case: c.clone(), files, composites: c.creds.iter().map(|c| c.composite()).collect() }
}

/// What may be shared between threads without being changed.
pub(super) struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

pub(super) fn run(r: &Ready, op: &Op, shared: Option<&Shared<Vec<kpdb::Database>>>) -> Check {
    let c = &r.case;
    match op {
        Op::Open(f, k) => {
            let (b, m, own) = &r.files[pick(*f, r.files.len())];
            let k = if *k == 255 { *own } else { pick(*k, c.creds.len()) };
            let res = open(b, &c.creds[k])?;
            if r.composites[k] == r.composites[*own] {
                let d = res.map_err(|e| format!("a good file does not open: {:?}", e))?;
                same("opened", m, &conv::from_db(&d)?)?;
                conv::check_parents(&d)
            } else {
                ensure!(res.is_err(), "opened with other credentials");
                Ok(())
            }
        }
        Op::Damaged(f, p, x) => {
            let (b, m, own) = &r.files[pick(*f, r.files.len())];
            let mut b = b.clone();
            let i = at(*p, b.len());
            b[i] ^= x;
            if !affordable(&b) {
                return Ok(());
            }
            if let Ok(d) = open(&b, &c.creds[*own])? {
                same("opened from a damaged copy", m, &conv::from_db(&d)?)?;
            }
            Ok(())
        }
        Op::Save(i, k) => {
            let cr = &c.creds[pick(*k, c.creds.len())];
            match shared {
                Some(s) if !s.0.is_empty() => {
                    let j = pick(*i, s.0.len());
                    let (_, m, own) = &r.files[j];
                    let b = save(&s.0[j])?;
                    check_file(&b, m, &c.creds[*own])?;
                    same("saved and reopened", &m.as_saved(), &open_model(&b, &c.creds[*own])?)
                }
                _ => {
                    let m = &c.contents[pick(*i, c.contents.len())];
                    let b = save(&conv::database(m, cr))?;
                    check_file(&b, m, cr)?;
                    same("saved and reopened", &m.as_saved(), &open_model(&b, cr)?)
                }
            }
        }
        Op::Search(f) => {
            let j = pick(*f, r.files.len());
            let (b, m, own) = &r.files[j];
            let mine;
            let d = match shared {
                Some(s) => &s.0[j],
                None => {
                    mine = open_ok(b, &c.creds[*own])?;
                    &mine
                }
            };
            let n = d.find_groups("").len();
            ensure!(n == m.root.bfs().len(), "{} groups found of {}", n, m.root.bfs().len());
            for g in m.root.bfs() {
                let x = d.get_group(conv::gid(g.uuid)).ok_or_else(|| format!("group {:?} not found", g.uuid))?;
                ensure!(conv::id(&x.uuid.0) == g.uuid, "group {:?} found for {:?}", conv::id(&x.uuid.0), g.uuid);
            }
            same("after searching", m, &conv::from_db(d)?)
        }
        Op::FailOpen(f, p, how) => {
            let (b, _, own) = &r.files[pick(*f, r.files.len())];
            let key = conv::key(&c.creds[*own]);
            let mut what = || mishap(*how);
            let mut s = At::new(b, at(*p, b.len()), &mut what);
            let res = guard(|| kpdb::Database::open(&mut s, &key).is_ok());
            ensure!(!s.happened || !matches!(res, Ok(true)), "opened although the stream failed");
            Ok(())
        }
        Op::FailSave(i, call, how) => {
            let mut m = c.contents[pick(*i, c.contents.len())].clone();
            if *how == 3 {
                m.root.name.push('\0');
            }
            let d = conv::database(&m, &c.creds[pick(*i, c.creds.len())]);
            let mut what = || mishap(*how);
            let mut s = At::new(&[], if *how == 3 { usize::MAX } else { *call as usize }, &mut what);
            let res = guard(|| d.save(&mut s).is_ok());
            ensure!(!(s.happened || *how == 3) || !matches!(res, Ok(true)), "saved although {}", if *how == 3 { "a text cannot be" } else { "the stream failed" });
            same("after a failed save", &m, &conv::from_db(&d)?)
        }
        Op::Cut(f, p) => {
            let j = pick(*f, r.files.len());
            let (_, m, own) = &r.files[j];
            let l = Layout::default();
            let ps = parts(m, &l, &c.creds[*own], 1000 + c.files[j].salts as u64);
            let xml = crate::xmlmini::serialize(&ps.finish_xml(crate::xmlmap::to_xml(m, &l), &l), &l.style);
            let end = xml.windows(14).rposition(|w| w == b"</KeePassFile>").unwrap_or(0);
            let b = ps.file_from_xml_bytes(&xml[..at(*p, end + 14)], &l);
            ensure!(open(&b, &c.creds[*own])?.is_err(), "opened although the content is cut off");
            Ok(())
        }
        Op::InsideOpen(f, p, op) => {
            let (b, m, own) = &r.files[pick(*f, r.files.len())];
            let key = conv::key(&c.creds[*own]);
            let mut inner = None;
            let mut what = || {
                if inner.is_none() {
                    inner = Some(run(r, op, shared));
                }
                Ok(usize::MAX)
            };
            let mut s = At::new(b, at(*p, b.len()), &mut what);
            let d = guard(|| kpdb::Database::open(&mut s, &key)).map_err(|p| format!("open: {}", p))?.map_err(|e| format!("a good file does not open: {:?}", e))?;
            same("opened", m, &conv::from_db(&d)?)?;
            inner.unwrap_or(Ok(())).map_err(|e| format!("done by the stream: {}", e))
        }
        Op::InsideSave(i, call, op) => {
            let m = &c.contents[pick(*i, c.contents.len())];
            let cr = &c.creds[pick(*i, c.creds.len())];
            let d = conv::database(m, cr);
            let mut inner = None;
            let mut what = || {
                if inner.is_none() {
                    inner = Some(run(r, op, shared));
                }
                Ok(usize::MAX)
            };
            let mut s = At::new(&[], *call as usize, &mut what);
            guard(|| d.save(&mut s)).map_err(|p| format!("save: {}", p))?.map_err(|e| format!("save failed: {:?}", e))?;
            let b = s.out;
            check_file(&b, m, cr)?;
            same("saved and reopened", &m.as_saved(), &open_model(&b, cr)?)?;
            inner.unwrap_or(Ok(())).map_err(|e| format!("done by the stream: {}", e))
        }
        Op::KeyFile(i) => {
            let k = &c.keyfiles[pick(*i, c.keyfiles.len())];
            let mut v = Vec::new();
            conv::key_file(k).save(&mut v).map_err(|e| format!("key file save: {:?}", e))?;
            let x = kpdb::KeyFile::open(&mut &v[..]).map_err(|e| format!("key file open: {:?}", e))?;
            ensure!(x.key.unsecure() == &k.key.0[..], "a key file came back with another key");
            Ok(())
        }
        Op::Composite(i) => {
            let j = pick(*i, c.creds.len());
            ensure!(conv::key(&c.creds[j]).unsecure() == r.composites[j], "a composite key is wrong");
            Ok(())
        }
    }
}

fn open_all(r: &Ready) -> Res<Shared<Vec<kpdb::Database>>> {
    let mut v = Vec::new();
    for (b, _, k) in &r.files {
        v.push(open_ok(b, &r.case.creds[*k])?);
    }
    Ok(Shared(v))
}

pub(super) fn check_sequence(c: &Case, o: &mut Obs) -> Check {
    let r = ready(c);
    observe(c, &r, o);
    let shared = if c.shared { Some(open_all(&r)?) } else { None };
    for (n, op) in c.ops.iter().flatten().enumerate() {
        run(&r, op, shared.as_ref()).map_err(|e| format!("operation {} ({:?}): {}", n, op, e))?;
    }
    Ok(())
}

fn observe(c: &Case, r: &Ready, o: &mut Obs) {
    let n: usize = c.ops.iter().map(|t| t.len()).sum();
    o.evals = n as u64;
    o.nontrivial = n >= 4 && (c.files.len() > 1 || c.ops.len() > 1);
    let pairs = |f: &dyn Fn(&FileSpec, &FileSpec) -> bool| c.files.iter().enumerate().any(|(i, a)| c.files[..i].iter().any(|b| f(a, b)));
    let k = |f: &FileSpec| r.composites[pick(f.creds, c.creds.len())];
    o.class_if(pairs(&|a, b| a.salts == b.salts && k(a) != k(b)), "same salts, other credentials");
    o.class_if(pairs(&|a, b| a.salts == b.salts && k(a) == k(b) && c.rounds[a.rounds as usize % c.rounds.len()] != c.rounds[b.rounds as usize % c.rounds.len()]), "same salts and credentials, other rounds");
    o.class_if(pairs(&|a, b| a.salts == b.salts && k(a) == k(b) && a.content != b.content), "same salts and credentials, other content");
    o.class_if(pairs(&|a, b| a.salts != b.salts && k(a) == k(b)), "other salts, same credentials");
    let has = |f: &dyn Fn(&Op) -> bool| c.ops.iter().flatten().any(|x| f(x));
    o.class_if(has(&|x| matches!(x, Op::FailOpen(..) | Op::FailSave(..) | Op::Cut(..))), "failures");
    o.class_if(has(&|x| matches!(x, Op::FailOpen(_, _, 1) | Op::FailSave(_, _, 1))), "streams that panic");
    o.class_if(has(&|x| matches!(x, Op::InsideOpen(..) | Op::InsideSave(..))), "operations inside operations");
    o.class_if(c.shared, "shared databases");
    o.class_if(c.ops.len() > 1, "several threads");
}

fn check_parallel(c: &Case, o: &mut Obs) -> Check {
    let r = ready(c);
    observe(c, &r, o);
    let shared = if c.shared { Some(open_all(&r)?) } else { None };
    let barrier = Barrier::new(c.ops.len());
    let (r, shared, barrier) = (&r, shared.as_ref(), &barrier);
    let results: Vec<Check> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .ops
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let st = Shared(());
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let _st = st;
                        crate::rng::seed(0x7ead + t as u64);
                        barrier.wait();
                        for (n, op) in ops.iter().enumerate() {
                            match guard(|| run(r, op, shared)) {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) | Err(e) => return Err(format!("thread {}, operation {} ({:?}): {}", t, n, op, e)),
                            }
                        }
                        Ok(())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    results.into_iter().collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "at least four operations over several files or on several threads",
        assumptions: &["the operations of one case run in one process, each case on fresh threads", "interleavings are those the operating system produces"],
        lanes: vec![
            lane("sequence", 1500, 60_000, || strat(1..2, 2..20), check_sequence),
            lane("parallel", 500, 20_000, || strat(2..7, 2..10), check_parallel),
        ],
    }
}
