fn main() {
    // std and getrandom look these up through weak symbols / dlsym, so the
    // simulator's definitions have to be visible in the dynamic symbol table
    for s in ["getrandom", "syscall", "clock_gettime", "pthread_create", "pthread_join", "sched_getaffinity"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
