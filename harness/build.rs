fn main() {
    // The harness replaces getrandom(2) and syscall(2) so that randomness inside a case is a pure
    // function of the case (see src/rng.rs); the symbol has to be visible to dlsym as well.
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    // Likewise the functions of src/outside.rs.
    for name in ["open", "open64", "openat", "openat64", "creat", "creat64", "fopen", "fopen64", "opendir", "unlink", "unlinkat", "rmdir", "mkdir", "rename", "link", "symlink", "chmod", "chdir", "shm_open", "memfd_create", "socket", "socketpair", "connect", "getaddrinfo", "fork", "execve", "execvp", "posix_spawn", "posix_spawnp", "system", "popen", "kill", "getenv", "secure_getenv", "setenv", "unsetenv", "syslog"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={}", name);
    }
    println!("cargo:rerun-if-changed=build.rs");
}
