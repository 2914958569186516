#![recursion_limit = "512"]
#![allow(static_mut_refs)]
mod check;
mod core;
mod exec;
mod faulty;
mod hist;
mod mem;
mod orch;
mod plan;
mod pow;
mod redis_srv;
mod rng;
mod run;
mod shrink;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// a logger that is switched on: the arguments of log records are evaluated and formatted
struct Null;
impl log::Log for Null {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("libmcaptcha")
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let _ = r.args().to_string();
        }
    }
    fn flush(&self) {}
}

fn main() {
    let _ = log::set_logger(&Null);
    log::set_max_level(log::LevelFilter::Trace);
    orch::main()
}
