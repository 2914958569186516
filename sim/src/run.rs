//! One simulated execution in a forked child process.
use crate::check;
use crate::core;
use crate::hist;
use crate::plan::Plan;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering::SeqCst};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// stable name of what is broken
    pub kind: String,
    pub msg: String,
}

#[derive(Clone, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub abort: Option<String>,
    pub viol: Vec<Viol>,
    pub stats: core::Stats,
    pub sim_ns: u64,
    pub hash: u64,
    pub digest: u64,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub panics: Vec<String>,
    pub notes: Vec<String>,
    pub nontrivial: bool,
    pub trace: Vec<(u32, u32)>,
    pub strings: Vec<String>,
    pub log: Vec<String>,
    /// the child died without an answer
    pub died: Option<String>,
    pub timeout: bool,
}

pub struct Opts<'a> {
    pub plan: &'a Plan,
    pub trace: Option<&'a [(u32, u32)]>,
    pub log: bool,
    pub dir: &'a str,
    pub timeout_ms: i32,
}

static FD: AtomicI32 = AtomicI32::new(-1);
static LOG: AtomicBool = AtomicBool::new(false);
static DONE: AtomicBool = AtomicBool::new(false);
static mut PLAN: *const Plan = std::ptr::null();

pub fn fnv(b: &[u8], mut h: u64) -> u64 {
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn on_abort(why: &str) -> ! {
    finish(Some(why.to_string()))
}

fn finish(abort: Option<String>) -> ! {
    core::stop();
    if DONE.swap(true, SeqCst) {
        unsafe { libc::_exit(3) };
    }
    let plan = unsafe { &*PLAN };
    let h = hist::h();
    let mut out = RunOut {
        abort: abort.clone(),
        ..Default::default()
    };
    for e in h.evs.iter() {
        *out.ops.entry(e.op.name().to_string()).or_default() += 1;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check::evaluate(plan, h, abort.as_deref())));
    match r {
        Ok((v, nontrivial, strings)) => {
            out.viol = v;
            out.nontrivial = nontrivial;
            out.strings = strings;
        }
        Err(_) => out.notes.push(format!("HARNESS: oracle panicked: {:?}", h.panics.last())),
    }
    core::with(|c| {
        out.stats = c.stats.clone();
        out.stats.blocks = core::blocks();
        out.hash = c.hash;
        out.trace = c.trace.clone();
    });
    out.sim_ns = core::now();
    out.probes = h.probes.clone();
    out.faults = h.faults.clone();
    out.panics = h.panics.clone();
    out.notes.extend(h.notes.iter().cloned());
    if out.viol.is_empty() && !LOG.load(SeqCst) {
        out.trace.clear();
    }
    let mut d = out.hash;
    for e in h.evs.iter() {
        d = fnv(serde_json::to_string(e).unwrap().as_bytes(), d);
    }
    for e in h.comp.iter() {
        d = fnv(serde_json::to_string(e).unwrap().as_bytes(), d);
    }
    out.digest = d;
    if LOG.load(SeqCst) {
        for e in h.evs.iter() {
            let t1 = if e.t1 == u64::MAX { "....".into() } else { format!("{:.3}", e.t1 as f64 / 1e6) };
            out.log.push(format!(
                "#{} e{} c{} [{:.3} .. {} ms] {} arg={:?} sub={:?} polls={} -> {}",
                e.id,
                e.epoch,
                e.client,
                e.t0 as f64 / 1e6,
                t1,
                serde_json::to_string(&e.op).unwrap(),
                e.arg,
                e.sub.as_ref().map(|s| (&s.string, &s.key, &s.ip)),
                e.polls,
                serde_json::to_string(&e.r).unwrap()
            ));
        }
        for c in h.comp.iter() {
            out.log.push(format!("  component [{:.3} ms seq {}] {} {:?} effect={} ok={} -> {}", c.t as f64 / 1e6, c.seq, c.what, c.args, c.effect, c.ok, c.reply));
        }
    }
    let b = serde_json::to_vec(&out).unwrap_or_default();
    let fd = FD.load(SeqCst);
    let mut i = 0;
    while i < b.len() {
        let n = unsafe { core::raw_syscall(libc::SYS_write, fd as i64, b[i..].as_ptr() as i64, (b.len() - i) as i64, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        i += n as usize;
    }
    unsafe { libc::_exit(0) }
}

fn child(o: &Opts, fd: i32) -> ! {
    FD.store(fd, SeqCst);
    LOG.store(o.log, SeqCst);
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        // a child must not survive its parent
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    // only one of the threads runs at a time: they are fastest together
    unsafe {
        let cpu = libc::sched_getcpu();
        if cpu >= 0 && std::env::var("MCSIM_NOPIN").is_err() {
            let mut s: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(cpu as usize, &mut s);
            libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
        }
    }
    let plan = Box::leak(Box::new(o.plan.clone()));
    unsafe { PLAN = plan };
    let replay: Option<HashMap<u32, u32>> = o.trace.map(|t| t.iter().copied().collect());
    let sock = format!("{}/{:07}.s", o.dir, unsafe { libc::getpid() });
    std::panic::set_hook(Box::new(|i| {
        if hist::ready() {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let bt = if loc.starts_with("/rustc") || std::env::var("MCSIM_BT").is_ok() {
                format!("{}", std::backtrace::Backtrace::force_capture())
            } else {
                String::new()
            };
            let site = bt
                .lines()
                .filter(|l| l.contains("/repo/src") || l.contains("src/"))
                .find(|l| l.contains("/repo/src"))
                .map(|l| l.trim().to_string())
                .unwrap_or_default();
            hist::h().panics.push(format!("{m} @ {loc} {site}"));
            if std::env::var("MCSIM_BT").is_ok() {
                eprintln!("PANIC {m} @ {loc}\n{bt}");
            }
        }
    }));
    // a fresh thread: no thread-local state of the harness leaks into the run
    let p2: &'static Plan = plan;
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            hist::init(p2);
            core::start(p2.seed, p2.pol.clone(), replay, p2.entropy, on_abort);
            if p2.flavor.starts_with("bulk") || p2.flavor == "crowd" {
                // an actor polls all its timers whenever it runs
                core::with(|c| c.max_steps = 100_000_000);
            }
            crate::exec::run(p2.clone(), sock.clone());
            let _ = std::fs::remove_file(&sock);
            finish(None)
        })
        .unwrap();
    let _ = t.join();
    unsafe { libc::_exit(4) }
}

/// lets all threads of the child use all processors
fn unpin(pid: i32) {
    let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return };
    for e in d.flatten() {
        let Some(t) = e.file_name().to_str().and_then(|x| x.parse::<i32>().ok()) else { continue };
        unsafe {
            let mut s: libc::cpu_set_t = std::mem::zeroed();
            for c in 0..libc::CPU_SETSIZE as usize {
                libc::CPU_SET(c, &mut s);
            }
            libc::sched_setaffinity(t, std::mem::size_of_val(&s), &s);
        }
    }
}

pub fn run(o: &Opts) -> RunOut {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            child(o, p[1]);
        }
        libc::close(p[1]);
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let mut buf = vec![];
        let mut tmp = [0u8; 65536];
        let t0 = std::time::Instant::now();
        let mut timeout = false;
        let mut pinned = true;
        loop {
            let left = o.timeout_ms as i64 - t0.elapsed().as_millis() as i64;
            if left <= 0 {
                timeout = true;
                break;
            }
            let mut pf = libc::pollfd {
                fd: p[0],
                events: libc::POLLIN,
                revents: 0,
            };
            let r = libc::poll(&mut pf, 1, if pinned { 1500.min(left as i32) } else { left as i32 });
            if r == 0 && pinned {
                // somebody else needs that processor
                unpin(pid);
                pinned = false;
                continue;
            }
            if r == 0 {
                timeout = true;
                break;
            }
            match f.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
                Err(_) => break,
            }
        }
        if timeout {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let _ = std::fs::remove_file(format!("{}/{:07}.s", o.dir, pid));
        match serde_json::from_slice::<RunOut>(&buf) {
            Ok(r) => r,
            Err(_) => RunOut {
                timeout,
                died: Some(if libc::WIFSIGNALED(st) {
                    format!("signal {}", libc::WTERMSIG(st))
                } else {
                    format!("exit {}", libc::WEXITSTATUS(st))
                }),
                ..Default::default()
            },
        }
    }
}
