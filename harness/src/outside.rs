//! What a thread asks of the system besides memory: files, connections, programs and variables of
//! the environment. The executable defines the functions of the C library that reach them, notes
//! the calls on a thread that is watched, and passes them on.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr};

thread_local! {
    static WATCHED: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Runs `f`; what it asked of the system meanwhile.
pub fn during<R>(f: impl FnOnce() -> R) -> (R, Vec<String>) {
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            WATCHED.with(|w| w.set(false));
        }
    }
    SEEN.with(|s| s.borrow_mut().clear());
    WATCHED.with(|w| w.set(true));
    let r = {
        let _end = End;
        f()
    };
    (r, SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())))
}

fn note(what: impl FnOnce() -> Option<String>) {
    if WATCHED.try_with(|w| w.replace(false)).unwrap_or(false) {
        if let Some(t) = what() {
            let _ = SEEN.try_with(|s| {
                let mut s = s.borrow_mut();
                if s.len() < 100 {
                    s.push(t);
                }
            });
        }
        let _ = WATCHED.try_with(|w| w.set(true));
    }
}

unsafe fn text(p: *const c_char) -> String {
    if p.is_null() {
        return "?".into();
    }
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

/// The system's random numbers and its description of itself may be read.
fn opening(what: &str, path: String, reading: bool) -> Option<String> {
    let own = ["/dev/urandom", "/dev/random"].contains(&path.as_str()) || path.starts_with("/proc/") || path.starts_with("/sys/");
    (!(reading && own)).then(|| format!("{} {}", what, path))
}

unsafe extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
}

const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;

macro_rules! pass {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty => $note:expr;)*) => {
        $(
            /// # Safety
            /// As the function of the C library.
            #[unsafe(no_mangle)]
            pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
                #[allow(unused_unsafe)]
                note(|| unsafe { $note });
                unsafe {
                    let f = dlsym(RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char);
                    assert!(!f.is_null());
                    let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(f);
                    f($($a),*)
                }
            }
        )*
        /// Called from `main` so that the linker keeps these symbols.
        pub fn keep() -> usize {
            let mut x = 0;
            $( x ^= std::hint::black_box($name as *const () as usize); )*
            x
        }
    };
}

type P = *const c_char;
type V = *const c_void;

pass! {
    open(path: P, flags: c_int, mode: c_uint) -> c_int => opening("opened", text(path), flags & 3 == 0);
    open64(path: P, flags: c_int, mode: c_uint) -> c_int => opening("opened", text(path), flags & 3 == 0);
    openat(dir: c_int, path: P, flags: c_int, mode: c_uint) -> c_int => opening("opened", text(path), flags & 3 == 0);
    openat64(dir: c_int, path: P, flags: c_int, mode: c_uint) -> c_int => opening("opened", text(path), flags & 3 == 0);
    creat(path: P, mode: c_uint) -> c_int => opening("created", text(path), false);
    creat64(path: P, mode: c_uint) -> c_int => opening("created", text(path), false);
    fopen(path: P, mode: P) -> V => opening("opened", text(path), text(mode).starts_with('r'));
    fopen64(path: P, mode: P) -> V => opening("opened", text(path), text(mode).starts_with('r'));
    opendir(path: P) -> V => opening("listed", text(path), true);
    unlink(path: P) -> c_int => Some(format!("removed {}", text(path)));
    unlinkat(dir: c_int, path: P, flags: c_int) -> c_int => Some(format!("removed {}", text(path)));
    rmdir(path: P) -> c_int => Some(format!("removed {}", text(path)));
    mkdir(path: P, mode: c_uint) -> c_int => Some(format!("created {}", text(path)));
    rename(a: P, b: P) -> c_int => Some(format!("renamed {} to {}", text(a), text(b)));
    link(a: P, b: P) -> c_int => Some(format!("linked {} as {}", text(a), text(b)));
    symlink(a: P, b: P) -> c_int => Some(format!("linked {} as {}", text(a), text(b)));
    chmod(path: P, mode: c_uint) -> c_int => Some(format!("changed the mode of {}", text(path)));
    chdir(path: P) -> c_int => Some(format!("went to {}", text(path)));
    shm_open(path: P, flags: c_int, mode: c_uint) -> c_int => Some(format!("shared memory {}", text(path)));
    memfd_create(path: P, flags: c_uint) -> c_int => Some(format!("shared memory {}", text(path)));
    socket(a: c_int, b: c_int, c: c_int) -> c_int => Some("made a socket".into());
    socketpair(a: c_int, b: c_int, c: c_int, d: *mut c_int) -> c_int => Some("made a socket".into());
    connect(fd: c_int, a: V, n: c_uint) -> c_int => Some("connected".into());
    getaddrinfo(a: P, b: P, c: V, d: V) -> c_int => Some(format!("asked for the address of {}", text(a)));
    fork() -> c_int => Some("forked".into());
    execve(path: P, a: V, e: V) -> c_int => Some(format!("started {}", text(path)));
    execvp(path: P, a: V) -> c_int => Some(format!("started {}", text(path)));
    posix_spawn(pid: V, path: P, x: V, y: V, a: V, e: V) -> c_int => Some(format!("started {}", text(path)));
    posix_spawnp(pid: V, path: P, x: V, y: V, a: V, e: V) -> c_int => Some(format!("started {}", text(path)));
    system(cmd: P) -> c_int => Some(format!("started {}", text(cmd)));
    popen(cmd: P, mode: P) -> V => Some(format!("started {}", text(cmd)));
    kill(pid: c_int, sig: c_int) -> c_int => Some("sent a signal".into());
    getenv(name: P) -> *mut c_char => Some(text(name)).filter(|n| !n.starts_with("RUST")).map(|n| format!("asked for the variable {}", n));
    secure_getenv(name: P) -> *mut c_char => Some(format!("asked for the variable {}", text(name)));
    setenv(name: P, value: P, over: c_int) -> c_int => Some(format!("set the variable {}", text(name)));
    unsetenv(name: P) -> c_int => Some(format!("removed the variable {}", text(name)));
    syslog(level: c_int, text_: P, a: V, b: V, c: V, d: V) -> () => Some("wrote to the system's log".into());
}

/// Whether the calls are seen.
pub fn self_test() -> Result<(), String> {
    let (_, v) = during(|| {
        let _ = std::fs::File::open("/nowhere/in");
        let _ = std::fs::write("/nowhere/out", "x");
        let _ = std::fs::create_dir("/nowhere/dir");
        let _ = std::fs::remove_file("/nowhere/out");
        let _ = std::fs::rename("/nowhere/out", "/nowhere/in");
        let _ = std::env::var("NOWHERE");
        let _ = std::net::TcpListener::bind("127.0.0.1:0");
        let _ = std::process::Command::new("/nowhere/program").spawn();
        let _ = std::fs::read("/dev/urandom/x");
    });
    let want = ["opened /nowhere/in", "opened /nowhere/out", "created /nowhere/dir", "removed /nowhere/out", "renamed /nowhere/out to /nowhere/in", "asked for the variable NOWHERE", "made a socket", "started /nowhere/program", "opened /dev/urandom/x"];
    for w in want {
        if !v.iter().any(|x| x == w) && !(w.starts_with("started") && v.iter().any(|x| x == "forked")) {
            return Err(format!("not seen: {} (seen: {:?})", w, v));
        }
    }
    Ok(())
}
