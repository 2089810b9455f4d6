//! Drives the generators, shrinks failures, writes replay files and evidence.

use crate::say;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check reports about one case.
#[derive(Default, Debug)]
pub struct Obs {
    pub classes: Vec<String>,
    pub nontrivial: bool,
    /// Executions of kpdb inside this case (1 if not set).
    pub evals: u64,
}

impl Obs {
    pub fn class(&mut self, s: &str) {
        if !self.classes.iter().any(|c| c == s) {
            self.classes.push(s.to_string());
        }
    }
    pub fn class_if(&mut self, b: bool, s: &str) {
        if b {
            self.class(s)
        }
    }
}

pub type Check = Result<(), String>;

const UNSTABLE: &str = "failed once but not when run again";

pub trait DynLane: Sync + Send {
    fn name(&self) -> &'static str;
    fn total(&self, tier: Tier) -> u64;
    fn worker(&self, job: &Job<'_>);
    /// Minimises the failing case; `ext` runs a candidate in another process instead of in this one.
    fn shrink(&self, job: &Job<'_>, idx: u64, ext: Option<&dyn Fn(&Value) -> Option<String>>) -> (Value, String);
    fn replay(&self, case: &Value) -> Result<Check, String>;
    /// The case as generated.
    fn case(&self, job: &Job<'_>, idx: u64) -> Value;
}

pub struct Lane<T: std::fmt::Debug> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strat: fn() -> BoxedStrategy<T>,
    pub check: fn(&T, &mut Obs) -> Check,
}

/// An enumerated space: every case of the list, or every k-th of them in the quick tier.
pub struct EnumLane<T: std::fmt::Debug> {
    pub name: &'static str,
    pub cases: fn(Tier) -> Vec<T>,
    pub check: fn(&T, &mut Obs) -> Check,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub lanes: Vec<Box<dyn DynLane>>,
}

pub struct Job<'a> {
    pub prop: &'a str,
    pub seed: u64,
    pub tier: Tier,
    pub next: &'a AtomicU64,
    pub total: u64,
    pub fail_at: &'a AtomicU64,
    pub stats: &'a Mutex<Stats>,
    pub slot: &'a Mutex<Option<(Instant, String)>>,
    pub worker: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub cases: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub fail: BTreeMap<u64, String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs kpdb code; a panic becomes Err with its message and place.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3);
    }
    crate::rng::mix(h)
}

/// Runs one case on a fresh thread whose OS randomness is a function of the case.
pub fn run_case<T: Serialize + Sync>(check: fn(&T, &mut Obs) -> Check, case: &T, hash: u64) -> (Check, Obs) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                crate::rng::seed(hash);
                let mut obs = Obs::default();
                let r = match guard(|| check(case, &mut obs)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                };
                (r, obs)
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| (Err("case thread died".into()), Obs::default()))
    })
}

fn rng_for(prop: &str, lane: &str, seed: u64, idx: u64) -> TestRunner {
    let mut b = [0u8; 32];
    for (i, part) in [fnv(prop.as_bytes()), fnv(lane.as_bytes()), seed, idx].iter().enumerate() {
        b[i * 8..i * 8 + 8].copy_from_slice(&crate::rng::mix(*part ^ (i as u64) << 56).to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &b))
}

fn record<T: Serialize>(job: &Job<'_>, lane: &str, idx: u64, case: &T, js: &str, hash: u64, r: &Check, obs: Obs) {
    let mut st = job.stats.lock().unwrap();
    st.cases += 1;
    st.evaluations += obs.evals.max(1);
    for c in &obs.classes {
        *st.classes.entry(format!("{}: {}", lane, c)).or_default() += 1;
    }
    if obs.nontrivial {
        st.nontrivial.insert(hash);
        let have = st.samples.iter().filter(|s| s["lane"] == lane).count();
        if have < 2 && js.len() < 6000 && !obs.classes.is_empty() {
            st.samples.push(json!({"lane": lane, "index": idx, "classes": obs.classes, "case": serde_json::to_value(case).unwrap()}));
        }
    }
    if let Err(m) = r {
        st.fail.insert(idx, m.clone());
        job.fail_at.fetch_min(idx, Ordering::SeqCst);
    }
}

impl<T> DynLane for Lane<T>
where
    T: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn total(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn worker(&self, job: &Job<'_>) {
        let strat = (self.strat)();
        loop {
            let idx = job.next.fetch_add(1, Ordering::SeqCst);
            if idx >= job.total || idx > job.fail_at.load(Ordering::SeqCst) {
                return;
            }
            let mut tr = rng_for(job.prop, self.name, job.seed, idx);
            let tree = match strat.new_tree(&mut tr) {
                Ok(t) => t,
                Err(_) => continue,
            };
            let case = tree.current();
            let js = serde_json::to_string(&case).expect("case to JSON");
            let hash = fnv(js.as_bytes());
            *job.slot.lock().unwrap() = Some((Instant::now(), format!("{} #{}", self.name, idx)));
            trace(job.worker, self.name, idx);
            let (r, obs) = run_case(self.check, &case, hash);
            *job.slot.lock().unwrap() = None;
            record(job, self.name, idx, &case, &js, hash, &r, obs);
        }
    }
    fn shrink(&self, job: &Job<'_>, idx: u64, ext: Option<&dyn Fn(&Value) -> Option<String>>) -> (Value, String) {
        let strat = (self.strat)();
        let mut tr = rng_for(job.prop, self.name, job.seed, idx);
        let mut tree = strat.new_tree(&mut tr).expect("generator is deterministic");
        let run = |c: &T| {
            if let Some(e) = ext {
                return match e(&serde_json::to_value(c).unwrap()) {
                    Some(m) => Err(m),
                    None => Ok(()),
                };
            }
            let js = serde_json::to_string(c).unwrap();
            run_case(self.check, c, fnv(js.as_bytes())).0
        };
        let mut best = tree.current();
        let mut msg = match run(&best) {
            Err(m) => m,
            Ok(()) => return (serde_json::to_value(&best).unwrap(), UNSTABLE.into()),
        };
        let start = Instant::now();
        let mut n = 0;
        'outer: while !msg.starts_with("the case does not end") && tree.simplify() {
            loop {
                n += 1;
                if n > 6000 || start.elapsed() > Duration::from_secs(90) {
                    break 'outer;
                }
                let c = tree.current();
                match run(&c) {
                    Err(m) => {
                        best = c;
                        msg = m;
                        break;
                    }
                    Ok(()) => {
                        if !tree.complicate() {
                            break 'outer;
                        }
                    }
                }
            }
        }
        (serde_json::to_value(&best).unwrap(), msg)
    }
    fn case(&self, job: &Job<'_>, idx: u64) -> Value {
        let mut tr = rng_for(job.prop, self.name, job.seed, idx);
        let tree = (self.strat)().new_tree(&mut tr).expect("generator is deterministic");
        serde_json::to_value(tree.current()).unwrap()
    }
    fn replay(&self, case: &Value) -> Result<Check, String> {
        let c: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let js = serde_json::to_string(&c).unwrap();
        Ok(run_case(self.check, &c, fnv(js.as_bytes())).0)
    }
}

impl<T> DynLane for EnumLane<T>
where
    T: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn total(&self, tier: Tier) -> u64 {
        (self.cases)(tier).len() as u64
    }
    fn worker(&self, job: &Job<'_>) {
        let cases = (self.cases)(job.tier);
        loop {
            let idx = job.next.fetch_add(1, Ordering::SeqCst);
            if idx >= job.total || idx > job.fail_at.load(Ordering::SeqCst) {
                return;
            }
            let case = &cases[idx as usize];
            let js = serde_json::to_string(case).expect("case to JSON");
            let hash = fnv(js.as_bytes());
            *job.slot.lock().unwrap() = Some((Instant::now(), format!("{} #{}", self.name, idx)));
            trace(job.worker, self.name, idx);
            let (r, obs) = run_case(self.check, case, hash);
            *job.slot.lock().unwrap() = None;
            record(job, self.name, idx, case, &js, hash, &r, obs);
        }
    }
    fn shrink(&self, job: &Job<'_>, idx: u64, ext: Option<&dyn Fn(&Value) -> Option<String>>) -> (Value, String) {
        let cases = (self.cases)(job.tier);
        let c = &cases[idx as usize];
        if let Some(e) = ext {
            let v = serde_json::to_value(c).unwrap();
            let m = e(&v).unwrap_or_else(|| UNSTABLE.into());
            return (v, m);
        }
        let js = serde_json::to_string(c).unwrap();
        let m = run_case(self.check, c, fnv(js.as_bytes())).0.err().unwrap_or_else(|| UNSTABLE.into());
        (serde_json::to_value(c).unwrap(), m)
    }
    fn case(&self, job: &Job<'_>, idx: u64) -> Value {
        serde_json::to_value(&(self.cases)(job.tier)[idx as usize]).unwrap()
    }
    fn replay(&self, case: &Value) -> Result<Check, String> {
        let c: T = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let js = serde_json::to_string(&c).unwrap();
        Ok(run_case(self.check, &c, fnv(js.as_bytes())).0)
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub const WORKERS: usize = 8;
/// A case normally takes milliseconds. One that takes this long is run again, alone and in another
/// process; only if it does not end there either is it a violation.
const CASE_LIMIT: Duration = Duration::from_secs(100);
const CONFIRM_LIMIT: Duration = Duration::from_secs(100);
/// Exit code of the checking process when a case takes too long; the supervisor goes on from there.
const HUNG: i32 = 42;

fn write_replay(prop: &str, lane: &str, seed: u64, idx: u64, case: &Value, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", prop, lane, seed, idx));
    let v = json!({"property": prop, "lane": lane, "seed": seed, "index": idx, "message": msg, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn short(m: &str) -> String {
    let m = m.replace('\n', " ");
    if m.chars().count() > 400 { m.chars().take(400).collect::<String>() + ".." } else { m }
}

/// Known findings: lines `finding: property=<id> lane=<lane> match=<text> :: <what fails>`.
/// A failure counts as known only if property and lane agree and its message equals the text.
struct Known(Vec<(String, String, String, String)>);

impl Known {
    fn load() -> Known {
        let mut v = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in s.lines() {
                let Some(rest) = l.strip_prefix("finding: property=") else { continue };
                let Some((id, rest)) = rest.split_once(" lane=") else { continue };
                let Some((lane, rest)) = rest.split_once(" match=") else { continue };
                let Some((m, what)) = rest.split_once(" :: ") else { continue };
                v.push((id.to_string(), lane.to_string(), m.to_string(), what.to_string()));
            }
        }
        Known(v)
    }
    fn find(&self, prop: &str, lane: &str, msg: &str) -> Option<&str> {
        self.0.iter().find(|(p, l, m, _)| p == prop && l == lane && m == msg).map(|(_, _, _, w)| w.as_str())
    }
}

/// Runs a property; the exit code.
pub fn run_prop(p: &Prop, seed: u64, tier: Tier, only: Option<&str>, scale: f64, err: &mut dyn FnMut(String)) -> i32 {
    let start = Instant::now();
    let known = Known::load();
    let mut lanes_ev = Vec::new();
    let mut all = Stats::default();
    let mut violation: Option<(PathBuf, String)> = None;
    let mut replayed = 0u64;
    for (id, what) in known.0.iter().filter(|k| k.0 == p.id).map(|k| (&k.0, &k.3)) {
        say!("KNOWN-FINDING: property={} {}", id, what);
    }

    // saved cases first
    let rdir = verif_dir().join("regress").join(p.id);
    if only.is_none() {
        let mut files: Vec<PathBuf> = std::fs::read_dir(&rdir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
            replayed += 1;
            trace(WORKERS, &f.display().to_string(), u64::MAX);
            match replay_file(p, f) {
                Ok((_, Ok(()))) => {}
                Ok((lane, Err(m))) => {
                    if known.find(p.id, &lane, &m).is_none() {
                        violation = Some((f.clone(), m));
                        break;
                    }
                }
                Err(e) => {
                    err(format!("{}: {}", f.display(), e));
                    return 2;
                }
            }
        }
    }

    if violation.is_none() {
        for lane in &p.lanes {
            if only.is_some_and(|o| o != lane.name()) {
                continue;
            }
            let t0 = Instant::now();
            let next = AtomicU64::new(0);
            let fail_at = AtomicU64::new(u64::MAX);
            let stats = Mutex::new(Stats::default());
            let total = ((lane.total(tier) as f64) * scale).ceil() as u64;
            let slots: Vec<Mutex<Option<(Instant, String)>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
            let done = std::sync::atomic::AtomicBool::new(false);
            let hung = std::thread::scope(|s| {
                let slots = &slots;
                let done = &done;
                let watch = s.spawn(move || {
                    while !done.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(20));
                        for w in slots {
                            if let Some((t, what)) = &*w.lock().unwrap() {
                                if t.elapsed() > CASE_LIMIT {
                                    return Some(what.clone());
                                }
                            }
                        }
                    }
                    None
                });
                let hs: Vec<_> = (0..WORKERS)
                    .map(|w| {
                        let (next, fail_at, stats) = (&next, &fail_at, &stats);
                        s.spawn(move || {
                            let job = Job { prop: p.id, seed, tier, next, total, fail_at, stats, slot: &slots[w], worker: w };
                            lane.worker(&job);
                        })
                    })
                    .collect();
                while !hs.iter().all(|h| h.is_finished()) {
                    if watch.is_finished() {
                        for (i, w) in slots.iter().enumerate() {
                            let over = w.lock().map(|w| w.as_ref().is_some_and(|(t, _)| t.elapsed() > CASE_LIMIT)).unwrap_or(false);
                            if !over {
                                // only the slots of hung cases are left for the supervisor
                                trace(i, "", u64::MAX - 1);
                            }
                        }
                        std::process::exit(HUNG);
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
                let worker_died = hs.into_iter().any(|h| h.join().is_err());
                done.store(true, Ordering::SeqCst);
                worker_died
            });
            if hung {
                say!("ERROR property={} a worker of lane {} died", p.id, lane.name());
                return 2;
            }
            let mut st = stats.into_inner().unwrap();
            lanes_ev.push(json!({"lane": lane.name(), "cases": st.cases, "executions": st.evaluations, "distinct_nontrivial": st.nontrivial.len(), "wall_s": t0.elapsed().as_secs_f64()}));
            all.evaluations += st.evaluations;
            all.cases += st.cases;
            for h in st.nontrivial.drain() {
                all.nontrivial.insert(h ^ fnv(lane.name().as_bytes()));
            }
            all.classes.append(&mut st.classes);
            all.samples.append(&mut st.samples);
            let fails = std::mem::take(&mut st.fail);
            if let Some((idx, first)) = fails.into_iter().find(|(_, m)| known.find(p.id, lane.name(), m).is_none()) {
                let st2 = Mutex::new(Stats::default());
                let slot = Mutex::new(None);
                let job = Job { prop: p.id, seed, tier, next: &next, total, fail_at: &fail_at, stats: &st2, slot: &slot, worker: WORKERS };
                // should a smaller candidate hang, the case as it is will do
                let (id, name, case, msg) = (p.id, lane.name(), lane.case(&job, idx), first.clone());
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_secs(180));
                    let path = write_replay(id, name, seed, idx, &case, &msg);
                    say!("{}\nVIOLATION property={} replay={}", short(&msg), id, path.display());
                    std::process::exit(1);
                });
                // should a smaller candidate end the process, the supervisor starts from this case
                (0..WORKERS).for_each(|w| trace(w, "", u64::MAX - 1));
                trace(WORKERS, lane.name(), idx);
                let (case, mut msg) = lane.shrink(&job, idx, None);
                if msg == UNSTABLE {
                    msg = format!("{} (not when run again alone)", first);
                }
                err(format!("lane {} case {}: {}", lane.name(), idx, short(&first)));
                let path = write_replay(p.id, lane.name(), seed, idx, &case, &msg);
                violation = Some((path, msg));
                break;
            }
        }
    }

    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations,
            "cases": all.cases,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": p.rule,
            "samples": all.samples,
            "classes": all.classes,
            "lanes": lanes_ev,
            "saved_cases_replayed": replayed,
            "os_random_bytes_served": crate::rng::SERVED.load(Ordering::Relaxed),
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    if only.is_none() {
        let edir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        if let Err(e) = std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()) {
            err(format!("cannot write evidence: {}", e));
            return 2;
        }
    }
    match violation {
        Some((path, msg)) => {
            say!("{}", short(&msg));
            say!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => {
            say!("property={} held: {} cases, {} executions, {} distinct non-trivial, {:.1} s", p.id, all.cases, all.evaluations, all.nontrivial.len(), start.elapsed().as_secs_f64());
            0
        }
    }
}

pub fn replay_file(p: &Prop, f: &std::path::Path) -> Result<(String, Check), String> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let lane = v["lane"].as_str().ok_or("no lane")?;
    let l = p.lanes.iter().find(|l| l.name() == lane).ok_or_else(|| format!("no lane {}", lane))?;
    Ok((lane.to_string(), l.replay(&v["case"])?))
}

const SLOT: usize = 256;

/// Notes in the supervisor's file what a worker is about to run.
fn trace(worker: usize, what: &str, idx: u64) {
    use std::os::unix::fs::FileExt;
    static FILE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    let f = FILE.get_or_init(|| std::env::var_os("VERIF_TRACE").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()));
    if let Some(f) = f {
        let mut b = [b' '; SLOT];
        let t = format!("{}\n{}\n", idx, what);
        let n = t.len().min(SLOT);
        b[..n].copy_from_slice(&t.as_bytes()[..n]);
        let _ = f.write_at(&b, (worker * SLOT) as u64);
    }
}

/// How a child process ended.
pub enum End {
    Code(i32),
    Signal(i32),
}

fn end(s: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(c), _) => End::Code(c),
        (_, sig) => End::Signal(sig.unwrap_or(0)),
    }
}

fn crash(sig: i32) -> Option<&'static str> {
    match sig {
        4 => Some("SIGILL"),
        6 => Some("SIGABRT"),
        7 => Some("SIGBUS"),
        8 => Some("SIGFPE"),
        11 => Some("SIGSEGV"),
        _ => None,
    }
}

/// Runs the property in a child process, so that an abort or a stack overflow of kpdb is found
/// to be one and not mistaken for a failure of the check.
pub fn supervise(p: &Prop, seed: u64, tier: Tier, args: &[String], err: &mut dyn FnMut(String)) -> i32 {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            err(e.to_string());
            return 2;
        }
    };
    let tmp = std::env::temp_dir().join(format!("kpdb-verif-{}", std::process::id()));
    if let Err(e) = std::fs::create_dir_all(&tmp) {
        err(e.to_string());
        return 2;
    }
    let tf = tmp.join("trace");
    let _ = std::fs::write(&tf, vec![b' '; SLOT * (WORKERS + 1)]);
    let st = std::process::Command::new(&exe).args(args).env("VERIF_CHILD", "1").env("VERIF_TRACE", &tf).status();
    let code = match st.map(end) {
        Ok(End::Code(HUNG)) => crashed(p, seed, tier, &exe, &tmp, &std::fs::read(&tf).unwrap_or_default(), "a case still running"),
        Ok(End::Code(c)) => c,
        Ok(End::Signal(sig)) => match crash(sig) {
            None => {
                say!("ERROR property={} the checking process was ended by signal {}", p.id, sig);
                3
            }
            Some(name) => crashed(p, seed, tier, &exe, &tmp, &std::fs::read(&tf).unwrap_or_default(), name),
        },
        Err(e) => {
            err(e.to_string());
            2
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

fn crashed(p: &Prop, seed: u64, tier: Tier, exe: &std::path::Path, tmp: &std::path::Path, trace: &[u8], name: &str) -> i32 {
    let run = |v: &Value, lane: &str| -> Option<String> {
        let f = tmp.join("candidate.json");
        std::fs::write(&f, json!({"property": p.id, "lane": lane, "case": v}).to_string()).ok()?;
        let out = tmp.join("out");
        let to = std::fs::File::create(&out).ok()?;
        let mut c = std::process::Command::new(exe).arg("replay").arg(&f).env("VERIF_CHILD", "1").stdout(to).spawn().ok()?;
        let t = Instant::now();
        let s = loop {
            if let Some(s) = c.try_wait().ok()? {
                break s;
            }
            if t.elapsed() > CONFIRM_LIMIT {
                let _ = c.kill();
                let _ = c.wait();
                return Some(format!("the case does not end (stopped after {} s)", CONFIRM_LIMIT.as_secs()));
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        match end(s) {
            End::Signal(sig) => crash(sig).map(|n| format!("the process ended with {}", n)),
            // a candidate that fails without a crash is as good
            End::Code(1) => Some(std::fs::read_to_string(&out).ok()?.lines().next().unwrap_or("failed").to_string()),
            _ => None,
        }
    };
    let evidence = |msg: &str| {
        let ev = json!({
            "property": p.id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": p.rule, "samples": [msg]},
            "assumptions": p.assumptions, "wall_s": 0.0, "violations": 1,
        });
        let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", p.id)), ev.to_string());
    };
    for s in trace.chunks(SLOT) {
        let t = String::from_utf8_lossy(s).to_string();
        let mut it = t.lines();
        let (Some(idx), Some(what)) = (it.next().and_then(|i| i.trim().parse::<u64>().ok()), it.next()) else { continue };
        if idx == u64::MAX {
            let v: Value = std::fs::read_to_string(what).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
            if let Some(m) = run(&v["case"], v["lane"].as_str().unwrap_or("")) {
                evidence(&m);
                say!("{}\nVIOLATION property={} replay={}", m, p.id, what);
                return 1;
            }
            continue;
        }
        let Some(lane) = p.lanes.iter().find(|l| l.name() == what) else { continue };
        let (next, fail_at) = (AtomicU64::new(0), AtomicU64::new(u64::MAX));
        let (stats, slot) = (Mutex::new(Stats::default()), Mutex::new(None));
        let job = Job { prop: p.id, seed, tier, next: &next, total: 0, fail_at: &fail_at, stats: &stats, slot: &slot, worker: WORKERS };
        let ext = |v: &Value| run(v, what);
        let (case, msg) = lane.shrink(&job, idx, Some(&ext));
        if msg != UNSTABLE {
            let path = write_replay(p.id, what, seed, idx, &case, &msg);
            evidence(&msg);
            say!("{}\nVIOLATION property={} replay={}", msg, p.id, path.display());
            return 1;
        }
    }
    say!("ERROR property={} the checking process ended with {}, and no single case explains it", p.id, name);
    3
}
