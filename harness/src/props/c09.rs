//! Stream granularity.

use super::common::*;
use crate::ensure;
use crate::io::{ChunkReader, ChunkWriter, Step};

type Case = (MDb, MCreds, bool, Vec<Step>, Vec<Step>);

fn classes(p: &[Step], o: &mut Obs) {
    o.class_if(p == [Step::Give(1)], "one byte at a time");
    o.class_if(p.contains(&Step::Interrupt), "interruptions");
    o.class_if(p.iter().any(|s| matches!(s, Step::Give(n) if *n < 50)), "short transfers");
}

fn check((m, c, own, rp, wp): &Case, o: &mut Obs) -> Check {
    classes(rp, o);
    classes(wp, o);
    o.nontrivial = !o.classes.is_empty();
    let d = conv::database(m, c);
    // writing
    let mut w = ChunkWriter::new(wp);
    guard(|| d.save(&mut w)).map_err(|p| format!("save: {}", p))?.map_err(|e| format!("save through a writer that accepts few bytes per call failed: {:?}", e))?;
    check_file(&w.data, m, c).map_err(|e| format!("written in small pieces: {}", e))?;
    // reading
    let file = if *own { w.data } else { encode(m, &crate::xmlmap::Layout { blocks: vec![64], ..Default::default() }, c, 4) };
    let exp = if *own { m.as_saved() } else { m.clone() };
    let key = conv::key(c);
    let mut r = ChunkReader::new(&file, rp);
    let got = guard(|| kpdb::Database::open(&mut r, &key)).map_err(|p| format!("open: {}", p))?;
    let got = got.map_err(|e| format!("open from a reader that delivers few bytes per call failed: {:?}", e))?;
    same("read in small pieces", &exp, &conv::from_db(&got)?)?;
    // wrong data fails in the same way however it is delivered
    let mut bad = file.clone();
    let k = bad.len() - 17;
    bad[k] ^= 1;
    let whole = open(&bad, c)?.map(|_| ()).map_err(|e| format!("{:?}", e));
    let mut r = ChunkReader::new(&bad, rp);
    let pieces = guard(|| kpdb::Database::open(&mut r, &key)).map_err(|p| format!("open: {}", p))?.map(|_| ()).map_err(|e| format!("{:?}", e));
    ensure!(whole == pieces, "damaged file: {:?} as a whole, {:?} in pieces", whole, pieces);
    o.evals = 4;
    Ok(())
}

fn strat() -> BoxedStrategy<Case> {
    (prop_oneof![3 => gen::small_db(), 1 => gen::db()], gen::creds(), any::<bool>(), gen::steps(), gen::steps())
        .prop_map(|(mut m, c, own, a, b)| {
            m.rounds = m.rounds.min(3);
            (m, c, own, a, b)
        })
        .boxed()
}

type KCase = (MKeyFile, Vec<Step>, Vec<Step>);

fn check_key((k, rp, wp): &KCase, o: &mut Obs) -> Check {
    classes(rp, o);
    classes(wp, o);
    o.nontrivial = !o.classes.is_empty();
    o.class(&format!("{:?}", k.ty));
    let kf = conv::key_file(k);
    let mut w = ChunkWriter::new(wp);
    guard(|| kf.save(&mut w)).map_err(|p| format!("KeyFile::save: {}", p))?.map_err(|e| format!("KeyFile::save: {:?}", e))?;
    let mut whole = Vec::new();
    kf.save(&mut whole).map_err(|e| format!("KeyFile::save: {:?}", e))?;
    ensure!(w.data == whole, "a writer that accepts few bytes per call got {} bytes instead of {}", w.data.len(), whole.len());
    for data in [&whole[..], &whole[..whole.len() - 1], &[&whole[..], b"x"].concat()] {
        let a = guard(|| kpdb::KeyFile::open(&mut &data[..])).map_err(|p| format!("KeyFile::open: {}", p))?;
        let mut r = ChunkReader::new(data, rp);
        let b = guard(|| kpdb::KeyFile::open(&mut r)).map_err(|p| format!("KeyFile::open: {}", p))?;
        match (a, b) {
            (Ok(a), Ok(b)) => ensure!(a.key.unsecure() == b.key.unsecure() && a.file_type == b.file_type, "key file read in pieces differs"),
            (Err(_), Err(_)) => {}
            (a, b) => return Err(format!("key file of {} bytes: ok={} as a whole, ok={} in pieces ({:?})", data.len(), a.is_ok(), b.is_ok(), b.err())),
        }
    }
    o.evals = 8;
    Ok(())
}

fn kstrat() -> BoxedStrategy<KCase> {
    (gen::key_file(), gen::steps(), gen::steps()).boxed()
}

/// Real pipes, files and buffered streams instead of in-memory ones.
type OsCase = (MDb, MCreds, u16, u8);

fn check_os((m, c, cap, kind): &OsCase, o: &mut Obs) -> Check {
    use std::io::{BufReader, BufWriter, LineWriter, Write};
    o.nontrivial = true;
    let d = conv::database(m, c);
    let key = conv::key(c);
    let cap = *cap as usize + 1;
    let file = match kind % 3 {
        0 => {
            o.class("BufWriter");
            let mut w = BufWriter::with_capacity(cap, Vec::new());
            d.save(&mut w).map_err(|e| format!("{:?}", e))?;
            w.into_inner().map_err(|e| e.to_string())?
        }
        1 => {
            o.class("LineWriter");
            let mut w = LineWriter::with_capacity(cap, Vec::new());
            d.save(&mut w).map_err(|e| format!("{:?}", e))?;
            w.flush().map_err(|e| e.to_string())?;
            w.into_inner().map_err(|e| e.to_string())?
        }
        _ => {
            o.class("pipe");
            let (mut a, b) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
            let t = std::thread::spawn(move || {
                let mut v = Vec::new();
                let mut b = b;
                std::io::Read::read_to_end(&mut b, &mut v).map(|_| v)
            });
            d.save(&mut a).map_err(|e| format!("{:?}", e))?;
            drop(a);
            t.join().map_err(|_| "thread")?.map_err(|e| e.to_string())?
        }
    };
    check_file(&file, m, c)?;
    let mut r = BufReader::with_capacity(cap, &file[..]);
    let d2 = kpdb::Database::open(&mut r, &key).map_err(|e| format!("BufReader of {} bytes: {:?}", cap, e))?;
    same("buffered", &m.as_saved(), &conv::from_db(&d2)?)?;
    let (a, mut b) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
    let f2 = file.clone();
    let t = std::thread::spawn(move || {
        let mut a = a;
        for ch in f2.chunks(cap) {
            if a.write_all(ch).is_err() {
                break;
            }
        }
    });
    let r = kpdb::Database::open(&mut b, &key).map_err(|e| format!("socket, {} bytes a time: {:?}", cap, e));
    drop(b);
    t.join().map_err(|_| "thread")?;
    o.evals = 3;
    same("over a socket", &m.as_saved(), &conv::from_db(&r?)?)
}

fn osstrat() -> BoxedStrategy<OsCase> {
    (gen::small_db(), gen::creds(), prop_oneof![2 => 0u16..64, 1 => 64u16..9000], any::<u8>()).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "the schedule of at least one stream delivers or accepts fewer bytes than asked, or interrupts",
        assumptions: &["an interrupted call (ErrorKind::Interrupted) transfers nothing and may be repeated, as std documents"],
        lanes: vec![lane("database", 2500, 60_000, strat, check), lane("key-file", 3000, 60_000, kstrat, check_key), lane("os-streams", 300, 4_000, osstrat, check_os)],
    }
}
