//! What the process says on standard output and standard error. The checks speak on the original
//! standard output; what kpdb says goes to a file, where `during` finds it.

use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::sync::{Mutex, OnceLock};

unsafe extern "C" {
    fn dup(fd: RawFd) -> RawFd;
    fn dup2(a: RawFd, b: RawFd) -> RawFd;
}

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();
static SAID: OnceLock<std::path::PathBuf> = OnceLock::new();

/// Says a line on the original standard output.
pub fn say(s: std::fmt::Arguments) {
    match OUT.get() {
        Some(f) => {
            let mut f = f.lock().unwrap_or_else(|e| e.into_inner());
            let _ = writeln!(f, "{}", s);
        }
        None => println!("{}", s),
    }
}

#[macro_export]
macro_rules! say {
    ($($t:tt)*) => { $crate::said::say(format_args!($($t)*)) };
}

/// Sends what anything says on the standard streams to a file from now on. The file's name is gone
/// when this returns; its descriptor keeps it.
pub fn capture() -> std::io::Result<()> {
    let path = std::env::temp_dir().join(format!("kpdb-said-{}", std::process::id()));
    let f = std::fs::OpenOptions::new().create(true).read(true).append(true).open(&path)?;
    std::fs::remove_file(&path)?;
    std::io::stdout().flush()?;
    unsafe {
        let keep = dup(1);
        let _ = OUT.set(Mutex::new(std::fs::File::from_raw_fd(keep)));
        dup2(f.as_raw_fd(), 1);
        dup2(f.as_raw_fd(), 2);
    }
    let _ = SAID.set(format!("/proc/self/fd/{}", f.as_raw_fd()).into());
    std::mem::forget(f);
    let (_, s) = during(|| {
        print!("out, unfinished");
        eprintln!("err");
    });
    if s != b"out, unfinishederr\n" && s != b"err\nout, unfinished" {
        return Err(std::io::Error::new(std::io::ErrorKind::Other, "what is said is not seen"));
    }
    Ok(())
}

/// Runs `f`; what the process said meanwhile (other threads included).
pub fn during<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    let Some(path) = SAID.get() else { return (f(), vec![]) };
    // a descriptor of its own, so that no position is shared
    let Ok(mut file) = std::fs::File::open(path) else { return (f(), vec![]) };
    let _ = std::io::stdout().flush();
    let start = file.seek(SeekFrom::End(0)).unwrap_or(0);
    let r = f();
    let _ = std::io::stdout().flush();
    let mut v = Vec::new();
    let _ = file.seek(SeekFrom::Start(start));
    let _ = file.take(1 << 26).read_to_end(&mut v);
    (r, v)
}
