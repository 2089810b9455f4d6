use kpdb_verif::runner::*;
use kpdb_verif::say;
use std::io::Write;
use std::os::fd::{FromRawFd, RawFd};

unsafe extern "C" {
    fn dup(fd: RawFd) -> RawFd;
}

#[global_allocator]
static ALLOC: kpdb_verif::alloc::Counting = kpdb_verif::alloc::Counting;

fn main() {
    kpdb_verif::rng::keep();
    kpdb_verif::outside::keep();
    let args: Vec<String> = std::env::args().collect();
    // what kpdb prints is looked at by some checks and dropped; keep our own channels
    let mut out = unsafe { std::fs::File::from_raw_fd(dup(2)) };
    let supervisor = args.get(1).is_some_and(|a| a == "run") && std::env::var_os("VERIF_CHILD").is_none();
    if !supervisor && std::env::var_os("VERIF_KEEP_STDERR").is_none() {
        if let Err(e) = kpdb_verif::said::capture() {
            let _ = writeln!(out, "the standard streams: {}", e);
            std::process::exit(2);
        }
    }
    let mut err = move |m: String| {
        let _ = writeln!(out, "{}", m);
    };
    install_hook();
    if let Err(e) = kpdb_verif::crypto::self_test() {
        err(format!("self test of the harness failed: {}", e));
        std::process::exit(2);
    }
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 3 => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            match kpdb_verif::props::get(&args[2]) {
                Some(p) if std::env::var_os("VERIF_CHILD").is_none() => supervise(&p, seed, tier, &args[1..], &mut err),
                Some(p) => run_prop(&p, seed, tier, args.get(3).map(|s| s.as_str()), scale, &mut err),
                None => {
                    err(format!("no property {}", args[2]));
                    2
                }
            }
        }
        Some("replay") if args.len() == 3 => {
            let text = std::fs::read_to_string(&args[2]).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            let id = v["property"].as_str().unwrap_or("").to_string();
            match kpdb_verif::props::get(&id) {
                Some(p) => match replay_file(&p, std::path::Path::new(&args[2])) {
                    Ok((_, Ok(()))) => {
                        say!("the case passes");
                        0
                    }
                    Ok((_, Err(m))) => {
                        say!("{}", m);
                        say!("VIOLATION property={} replay={}", id, args[2]);
                        1
                    }
                    Err(e) => {
                        err(e);
                        2
                    }
                },
                None => {
                    err(format!("no property in {}", args[2]));
                    2
                }
            }
        }
        Some("list") => {
            for id in kpdb_verif::props::IDS {
                let p = kpdb_verif::props::get(id).unwrap();
                for l in &p.lanes {
                    say!("{} {} quick={} thorough={}", id, l.name(), l.total(Tier::Quick), l.total(Tier::Thorough));
                }
            }
            0
        }
        _ => {
            err("usage: kpdb-verif run <id> [lane] | replay <file> | list".into());
            2
        }
    };
    std::process::exit(code);
}
