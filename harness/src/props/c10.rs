//! Injected I/O failures.

use super::common::*;
use crate::ensure;
use crate::io::*;
use proptest::sample::select;

fn faults() -> BoxedStrategy<Fault> {
    prop_oneof![3 => select(KINDS.to_vec()).prop_map(Fault::Error), 1 => Just(Fault::Stop)].boxed()
}

/// (database, credentials, fault, transfer size, dense enumeration of call or byte points)
pub(super) type Case = (MDb, MCreds, Fault, u16, bool);

fn points(n: usize, max: usize) -> Vec<u64> {
    if n <= max {
        (0..n as u64).collect()
    } else {
        let mut v: Vec<u64> = (0..(max / 2) as u64).collect();
        v.extend((0..max / 4).map(|i| (max / 2 + i * (n - max / 2) / (max / 4)) as u64));
        v.extend((n - max / 4..n).map(|i| i as u64));
        v.dedup();
        v
    }
}

pub(super) fn check((m, c, fault, chunk, wide): &Case, o: &mut Obs) -> Check {
    let chunk = *chunk as usize + 1;
    let max = if *wide { 1500 } else { 150 };
    let d = conv::database(m, c);
    let before = conv::from_db(&d)?;
    let key = conv::key(c);
    o.class(&format!("{:?}", fault));

    // saving: a run without failures tells how many calls and bytes there are
    let mut probe = FaultIo::new(&[], When::Call(u64::MAX), *fault, chunk);
    d.save(&mut probe).map_err(|e| format!("save: {:?}", e))?;
    let file = probe.out;
    let mut n = 0u64;
    let mut plan: Vec<When> = points(probe.calls as usize, max).into_iter().map(When::Call).collect();
    plan.extend(points(probe.calls as usize, max / 2).into_iter().map(When::CallOnce));
    plan.extend(points(file.len(), max).into_iter().map(When::Byte));
    for when in plan {
        let mut w = FaultIo::new(&[], when, *fault, chunk);
        let r = guard(|| d.save(&mut w)).map_err(|p| format!("save with {:?} at {:?}: {}", fault, when, p))?;
        n += 1;
        if w.fired > 0 {
            o.nontrivial = true;
            ensure!(r.is_err(), "save with {:?} at {:?} returned Ok after {} of {} bytes", fault, when, w.out.len(), file.len());
        } else {
            ensure!(r.is_ok(), "save failed without a fault: {:?}", r.err());
        }
    }
    same("database after failed saves", &before, &conv::from_db(&d)?)?;
    check_file(&save(&d)?, m, c).map_err(|e| format!("save after failures: {}", e))?;

    // opening
    let mut probe = FaultIo::new(&file, When::Call(u64::MAX), *fault, chunk);
    kpdb::Database::open(&mut probe, &key).map_err(|e| format!("open: {:?}", e))?;
    let eof = probe.calls;
    let mut plan: Vec<When> = points(eof as usize, max).into_iter().map(When::Call).collect();
    plan.extend(points(eof as usize, max / 2).into_iter().map(When::CallOnce));
    plan.extend(points(file.len(), max).into_iter().map(When::Byte));
    for when in plan {
        let mut r = FaultIo::new(&file, when, *fault, chunk);
        let res = guard(|| kpdb::Database::open(&mut r, &key)).map_err(|p| format!("open with {:?} at {:?}: {}", fault, when, p))?;
        n += 1;
        // an early end is one only while bytes are left
        let hit = r.fired > 0 && (matches!(fault, Fault::Error(_)) || r.pos < file.len());
        if hit {
            o.nontrivial = true;
            ensure!(res.is_err(), "open with {:?} at {:?} returned Ok ({} of {} bytes read)", fault, when, r.pos, file.len());
        } else {
            ensure!(res.is_ok(), "open failed without a fault: {:?}", res.err());
        }
    }
    o.evals = n + 4;
    Ok(())
}

pub(super) fn strat() -> BoxedStrategy<Case> {
    (gen::small_db(), gen::creds(), faults(), prop_oneof![2 => Just(65_535u16), 1 => 0u16..40, 1 => 40u16..600], proptest::bool::weighted(0.15))
        .prop_map(|(mut m, c, f, k, w)| {
            m.rounds = m.rounds.min(1);
            (m, c, f, k, w)
        })
        .boxed()
}

pub(super) type KCase = (MKeyFile, Fault, u8);

fn check_key((k, fault, chunk): &KCase, o: &mut Obs) -> Check {
    let chunk = *chunk as usize + 1;
    let kf = conv::key_file(k);
    o.class(&format!("{:?} {:?}", k.ty, fault));
    let mut probe = FaultIo::new(&[], When::Call(u64::MAX), *fault, chunk);
    kf.save(&mut probe).map_err(|e| format!("KeyFile::save: {:?}", e))?;
    let file = probe.out;
    let mut n = 0u64;
    let plan = |calls: u64, len: usize| {
        let mut v: Vec<When> = (0..calls).map(When::Call).collect();
        v.extend((0..calls).map(When::CallOnce));
        v.extend((0..len as u64).map(When::Byte));
        v
    };
    for when in plan(probe.calls, file.len()) {
        let mut w = FaultIo::new(&[], when, *fault, chunk);
        let r = guard(|| kf.save(&mut w)).map_err(|p| format!("KeyFile::save with {:?} at {:?}: {}", fault, when, p))?;
        n += 1;
        if w.fired > 0 {
            o.nontrivial = true;
            ensure!(r.is_err(), "KeyFile::save with {:?} at {:?} returned Ok after {} of {} bytes", fault, when, w.out.len(), file.len());
        } else {
            ensure!(r.is_ok(), "KeyFile::save failed without a fault: {:?}", r.err());
        }
    }
    let mut again = Vec::new();
    kf.save(&mut again).map_err(|e| format!("KeyFile::save after failures: {:?}", e))?;
    ensure!(again == file, "the key file is saved differently after failures");
    let mut probe = FaultIo::new(&file, When::Call(u64::MAX), *fault, chunk);
    kpdb::KeyFile::open(&mut probe).map_err(|e| format!("KeyFile::open: {:?}", e))?;
    for when in plan(probe.calls, file.len()) {
        let mut r = FaultIo::new(&file, when, *fault, chunk);
        let res = guard(|| kpdb::KeyFile::open(&mut r)).map_err(|p| format!("KeyFile::open with {:?} at {:?}: {}", fault, when, p))?;
        n += 1;
        if r.fired == 0 {
            ensure!(res.is_ok(), "KeyFile::open failed without a fault: {:?}", res.err());
            continue;
        }
        let early = r.pos < file.len();
        if matches!(fault, Fault::Stop) {
            // what arrived may itself be a complete key file of another format
            if !early || r.pos == 32 || (r.pos == 64 && k.ty == KfType::Hex) {
                continue;
            }
        }
        o.nontrivial = true;
        ensure!(res.is_err(), "KeyFile::open with {:?} at {:?} returned Ok ({} of {} bytes read)", fault, when, r.pos, file.len());
    }
    o.evals = n + 4;
    Ok(())
}

fn kstrat() -> BoxedStrategy<KCase> {
    (gen::key_file(), faults(), prop_oneof![2 => Just(255u8), 1 => 0u8..40]).boxed()
}

/// Failing devices of the operating system.
pub(super) type OsCase = (MDb, MCreds);

fn check_os((m, c): &OsCase, o: &mut Obs) -> Check {
    o.nontrivial = true;
    let d = conv::database(m, c);
    let mut full = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("/dev/full: {}", e))?;
    ensure!(guard(|| d.save(&mut full))?.is_err(), "save to a full device returned Ok");
    let (mut a, b) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
    drop(b);
    ensure!(guard(|| d.save(&mut a))?.is_err(), "save to a closed socket returned Ok");
    let mut short = [0u8; 100];
    ensure!(guard(|| d.save(&mut &mut short[..]))?.is_err(), "save to a slice of 100 bytes returned Ok");
    let file = save(&d)?;
    let mut exact = vec![0u8; file.len() + 64];
    guard(|| d.save(&mut &mut exact[..]))?.map_err(|e| format!("save to a large slice: {:?}", e))?;
    let mut dir = std::fs::File::open("/").map_err(|e| e.to_string())?;
    ensure!(guard(|| kpdb::Database::open(&mut dir, &conv::key(c)))?.is_err(), "opening a directory returned Ok");
    ensure!(guard(|| kpdb::Database::open(&mut std::io::empty(), &conv::key(c)))?.is_err(), "opening an empty input returned Ok");
    o.evals = 7;
    Ok(())
}

fn osstrat() -> BoxedStrategy<OsCase> {
    (gen::small_db(), gen::creds()).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "at least one injected failure was reached by the library",
        assumptions: &[
            "a fault is any error kind but Interrupted, an early end of input, or a writer that accepts nothing (Ok(0))",
            "an early end that leaves a complete key file of another format (32 bytes, or 64 hexadecimal digits) cannot be noticed",
        ],
        lanes: vec![lane("database", 160, 4_000, strat, check), lane("key-file", 600, 10_000, kstrat, check_key), lane("os-devices", 60, 400, osstrat, check_os)],
    }
}
