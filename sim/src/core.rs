//! The simulator kernel: one token, many real threads, virtual time.
//!
//! Every thread of the program under test is a real OS thread, but only the one holding the
//! token runs. The token moves only inside the hooks below (libc entry points that this binary
//! defines itself, and the yield points in the vendored crates), and where it moves is decided
//! by `choose`, i.e. by the seed or by the recorded trace. Time is a counter that jumps to the
//! next deadline when nobody can run.
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub type Ns = u64;
pub const US: Ns = 1_000;
pub const MS: Ns = 1_000_000;
pub const SEC: Ns = 1_000_000_000;
const MONO_BASE: u64 = 5_000 * SEC;
const WALL_BASE: u64 = 1_700_000_000 * SEC;

/// stall lengths that a scheduling decision can inject; index 0 = none
pub const STALLS: [Ns; 10] = [
    0,
    5 * US,
    60 * US,
    700 * US,
    6 * MS,
    30 * MS,
    120 * MS,
    450 * MS,
    1300 * MS,
    4000 * MS,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "k")]
pub enum Sched {
    /// run until blocked, then least recently run
    Fifo,
    /// switch with this probability (per 10k) at every yield point
    Random { p: u32 },
    /// random priorities with `d` priority change points spread over `len` yield points
    Pct { d: u32, len: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Policy {
    pub sched: Sched,
    /// probability (per 10k) of a stall at a yield point, and the largest index into STALLS
    pub p_stall: u32,
    pub max_stall: u8,
    /// probability (per 10k) that a ready task or mailbox is polled later
    pub p_defer: u32,
    /// simulated cost of one hash verification
    pub work_us: u64,
    /// extra random cost factor 0..=n for a verification
    #[serde(default)]
    pub work_jitter: u8,
    /// basic blocks of the library between two preemptions, on average (0: none)
    #[serde(default)]
    pub preempt: u32,
}

impl Default for Policy {
    fn default() -> Self {
        Policy {
            sched: Sched::Fifo,
            p_stall: 0,
            max_stall: 0,
            p_defer: 0,
            work_us: 0,
            work_jitter: 0,
            preempt: 0,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Blocked,
    Dead,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Wait {
    None,
    Futex(usize, u32),
    Join(usize),
    Io,
    Sleep,
    Ext,
}

struct Th {
    st: St,
    ready_at: Ns,
    wait: Wait,
    deadline: Option<Ns>,
    timed_out: bool,
    sem: AtomicU32,
    spin_q: Ns,
    last_run: u64,
    block_seq: u64,
    prio: u64,
    pthread: libc::pthread_t,
    ktid: i32,
    joined: bool,
    started_at: Ns,
    parent: usize,
    /// consecutive spin hints without progress
    spins: u32,
}

#[derive(Default, Clone, Serialize, Deserialize)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub stalls: u64,
    pub defers: u64,
    pub threads: u64,
    pub wall_jumps: u64,
    pub forced: u64,
    pub works: u64,
    pub entropy_bytes: u64,
    #[serde(default)]
    pub preempts: u64,
    #[serde(default)]
    pub blocks: u64,
    #[serde(default)]
    pub busy: u64,
    #[serde(default)]
    pub spins: u64,
}

pub struct Core {
    th: Vec<Box<Th>>,
    cur: usize,
    now: Ns,
    wall_off: i64,
    rng: Rng,
    ent: Rng,
    /// distances between preemption points
    pre: Rng,
    seed0: u64,
    pub pol: Policy,
    replay: Option<HashMap<u32, u32>>,
    pub trace: Vec<(u32, u32)>,
    nchoice: u32,
    pct_points: Vec<u64>,
    pct_low: u64,
    runseq: u64,
    pub max_steps: u64,
    pub hash: u64,
    watch: Option<fn(Ns) -> Option<String>>,
    watch_next: Ns,
    pub stalls: Vec<(Ns, Ns)>,
    /// time that passed because something polled
    hurries: Vec<(Ns, Ns)>,
    pub stats: Stats,
    on_abort: fn(&str) -> !,
    /// value of BLOCKS at the last step
    busy_from: u64,
    /// the current choice is a preemption: any thread might go on
    forced_pick: bool,
    /// the waiters of harness-level events
    ext_gen: u64,
    quiet: bool,
    /// steps since everybody last waited
    same: u64,
    hurry: u64,
    /// the step is one of many within a single poll
    inner: bool,
}

static mut CORE: *mut Core = std::ptr::null_mut();
static ACTIVE: AtomicBool = AtomicBool::new(false);
use crate::mem::IN_CORE;
static STEPS: AtomicU64 = AtomicU64::new(0);
static mut KEY: libc::pthread_key_t = 0;

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static EXIT_ROUND: Cell<u32> = const { Cell::new(0) };
}

#[inline]
fn core() -> &'static mut Core {
    unsafe { &mut *CORE }
}
#[inline]
fn me() -> Option<usize> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    let t = TID.with(|t| t.get());
    if t < 0 {
        None
    } else {
        Some(t as usize)
    }
}

struct Guard;
impl Guard {
    fn new() -> Guard {
        IN_CORE.store(true, SeqCst);
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_CORE.store(false, SeqCst);
    }
}

// ---------------------------------------------------------------- public API for the harness

pub fn start(
    seed: u64,
    pol: Policy,
    replay: Option<HashMap<u32, u32>>,
    entropy: u64,
    on_abort: fn(&str) -> !,
) {
    let mut rng = Rng::new(mix(seed, 0x5c4ed));
    let mut pct_points = vec![];
    if let Sched::Pct { d, len } = &pol.sched {
        for _ in 0..*d {
            pct_points.push(rng.range(1, (*len).max(2) as u64));
        }
        pct_points.sort();
    }
    let c = Core {
        th: Vec::with_capacity(64),
        cur: 0,
        now: 0,
        wall_off: 0,
        rng,
        ent: Rng::new(mix(entropy, 0xe27)),
        pre: Rng::new(mix(seed, 0x93e)),
        seed0: seed,
        pol,
        replay,
        trace: Vec::with_capacity(1 << 16),
        nchoice: 0,
        pct_points,
        pct_low: 1 << 20,
        runseq: 1,
        max_steps: 3_000_000,
        hash: 0xcbf29ce484222325,
        watch: None,
        watch_next: u64::MAX,
        stalls: Vec::with_capacity(4096),
        hurries: vec![],
        stats: Stats::default(),
        on_abort,
        busy_from: 0,
        forced_pick: false,
        ext_gen: 0,
        quiet: false,
        same: 0,
        hurry: HURRY,
        inner: false,
    };
    unsafe {
        CORE = Box::into_raw(Box::new(c));
        libc::pthread_key_create(&raw mut KEY, Some(exit_dtor));
        // resolve the real entry points before anything is intercepted
        real_create();
        real_join();
    }
    let c = core();
    next_preempt(c);
    new_th(c);
    c.th[0].ktid = unsafe { raw_syscall(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32;
    TID.with(|t| t.set(0));
    install_alarm();
    ACTIVE.store(true, SeqCst);
}

fn new_th(c: &mut Core) -> usize {
    let tid = c.th.len();
    let prio = (1 << 30) + (c.rng.next() >> 34);
    c.th.push(Box::new(Th {
        st: St::Run,
        ready_at: c.now,
        wait: Wait::None,
        deadline: None,
        timed_out: false,
        sem: AtomicU32::new(0),
        spin_q: 0,
        last_run: 0,
        block_seq: 0,
        prio,
        pthread: 0,
        ktid: 0,
        joined: false,
        started_at: c.now,
        parent: c.cur,
        spins: 0,
    }));
    c.stats.threads += 1;
    tid
}

/// stop simulating: from here on the hooks pass through (used right before _exit)
pub fn stop() {
    ACTIVE.store(false, SeqCst);
}
pub fn active() -> bool {
    me().is_some()
}
pub fn now() -> Ns {
    core().now
}
pub fn started() -> bool {
    unsafe { !CORE.is_null() }
}
pub fn with<R>(f: impl FnOnce(&mut Core) -> R) -> R {
    f(core())
}
pub fn live_threads() -> usize {
    core().th.iter().filter(|t| t.st != St::Dead).count()
}
/// threads with index in lo..hi started by `parent`, and all their descendants: (live, ever)
pub fn family(parent: usize, lo: usize, hi: usize) -> (usize, usize) {
    let c = core();
    let mut m = vec![false; c.th.len()];
    let (mut live, mut n) = (0, 0);
    for i in lo..c.th.len() {
        let t = &c.th[i];
        if (i < hi && t.parent == parent) || m[t.parent] {
            m[i] = true;
            n += 1;
            if t.st != St::Dead {
                live += 1;
            }
        }
    }
    (live, n)
}
pub fn threads_started() -> usize {
    core().th.len()
}
pub fn set_watch(f: fn(Ns) -> Option<String>, next: Ns) {
    let c = core();
    c.watch = Some(f);
    c.watch_next = next;
}
pub fn wall_jump(delta_ns: i64) {
    let c = core();
    c.wall_off += delta_ns;
    c.stats.wall_jumps += 1;
}
/// once faults stop: no more stalls or deferrals, plain scheduling goes on
pub fn quiet(on: bool) {
    core().quiet = on;
}
/// simulated nanoseconds of injected stalls that overlap [a, b], and of time spent polling
pub fn stall_overlap(a: Ns, b: Ns) -> Ns {
    overlap(&core().stalls, a, b) + overlap(&core().hurries, a, b)
}
/// injected stalls only
pub fn injected(a: Ns, b: Ns) -> Ns {
    overlap(&core().stalls, a, b)
}
fn overlap(v: &[(Ns, Ns)], a: Ns, b: Ns) -> Ns {
    v.iter()
        .map(|&(s, e)| {
            let lo = s.max(a);
            let hi = e.min(b);
            hi.saturating_sub(lo)
        })
        .sum()
}

/// every nondeterministic decision goes through here; 0 is the boring answer
fn choose(c: &mut Core, n: usize, pick: impl FnOnce(&mut Core) -> usize) -> usize {
    let i = c.nchoice;
    c.nchoice += 1;
    c.stats.choices += 1;
    let v = match &c.replay {
        Some(m) => (m.get(&i).copied().unwrap_or(0) as usize).min(n - 1),
        None => pick(c).min(n - 1),
    };
    if v != 0 {
        c.trace.push((i, v as u32));
    }
    v
}

/// harness-level decision, recorded like the others
pub fn decide(n: usize, per10k: u32) -> usize {
    let c = core();
    choose(c, n, |c| {
        if c.rng.chance(per10k) {
            1 + c.rng.below(n - 1)
        } else {
            0
        }
    })
}

// ---------------------------------------------------------------- scheduling

fn wake_sem(t: &Th) {
    t.sem.store(1, SeqCst);
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            &t.sem as *const _ as i64,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64,
            1,
            0,
            0,
            0,
        );
    }
}
fn wait_sem(t: &Th) {
    while t.sem.swap(0, SeqCst) == 0 {
        unsafe {
            raw_syscall(
                libc::SYS_futex,
                &t.sem as *const _ as i64,
                (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
                0,
                0,
                0,
                0,
            );
        }
    }
}

fn abort(c: &mut Core, why: &str) -> ! {
    IN_CORE.store(false, SeqCst);
    ACTIVE.store(false, SeqCst);
    (c.on_abort)(why)
}

fn make_ready(c: &mut Core, t: usize) {
    let now = c.now;
    let th = &mut c.th[t];
    th.st = St::Run;
    th.wait = Wait::None;
    th.deadline = None;
    th.ready_at = now;
}

/// so many steps without having to wait for anything: somebody polls
const HURRY: u64 = 200_000;

/// timers that are due
fn expire(c: &mut Core) {
    let now = c.now;
    for i in 0..c.th.len() {
        if c.th[i].st == St::Blocked && c.th[i].deadline.map_or(false, |d| d <= now) {
            make_ready(c, i);
            c.th[i].timed_out = true;
        }
    }
    if now >= c.watch_next {
        if let Some(f) = c.watch {
            c.watch_next = now + 100 * MS;
            if let Some(why) = f(now) {
                abort(c, &why);
            }
        }
    }
}

fn pick_next(c: &mut Core) -> usize {
    // an actor with many open tasks looks at all of them whenever it is polled: one poll, not many
    let inner = std::mem::take(&mut c.inner);
    c.same += !inner as u64;
    if c.same > c.hurry && !inner {
        // what polls takes its time, more and more of it; and it will do so again
        let n = c.same - c.hurry;
        c.hurry = HURRY / 100;
        let from = c.now;
        c.now += (n * US / 64).min(5 * MS);
        c.stats.spins += 1;
        match c.hurries.last_mut() {
            Some(l) if l.1 <= from && from - l.1 < 50 * US => l.1 = c.now,
            _ => c.hurries.push((from, c.now)),
        }
        expire(c);
    }
    loop {
        let cur = c.cur;
        let now = c.now;
        let mut n = 0usize;
        let mut cur_ready = false;
        for (i, t) in c.th.iter().enumerate() {
            if t.st == St::Run && t.ready_at <= now {
                n += 1;
                if i == cur {
                    cur_ready = true;
                }
            }
        }
        if n == 1 {
            c.forced_pick = false;
            return c
                .th
                .iter()
                .position(|t| t.st == St::Run && t.ready_at <= now)
                .unwrap();
        }
        if n > 1 {
            let mut ready: Vec<usize> = (0..c.th.len())
                .filter(|&i| c.th[i].st == St::Run && c.th[i].ready_at <= now)
                .collect();
            ready.sort_by_key(|&i| {
                if i == cur && cur_ready {
                    (0, 0)
                } else {
                    (1, c.th[i].last_run)
                }
            });
            let forced = std::mem::take(&mut c.forced_pick);
            let k = choose(c, n, |c| match c.pol.sched {
                _ if forced || c.same > c.hurry => c.rng.below(n),
                Sched::Fifo => 0,
                Sched::Random { p } => {
                    if !cur_ready || c.rng.chance(p) {
                        c.rng.below(n)
                    } else {
                        0
                    }
                }
                Sched::Pct { .. } => {
                    let mut best = 0;
                    for (k, &i) in ready.iter().enumerate() {
                        if c.th[i].prio > c.th[ready[best]].prio {
                            best = k;
                        }
                    }
                    best
                }
            });
            return ready[k];
        }
        // nobody can run now: let time pass
        c.same = 0;
        let mut t_next = u64::MAX;
        for t in c.th.iter() {
            match t.st {
                St::Run => t_next = t_next.min(t.ready_at),
                St::Blocked => {
                    if let Some(d) = t.deadline {
                        t_next = t_next.min(d)
                    }
                }
                St::Dead => {}
            }
        }
        if t_next == u64::MAX {
            abort(c, "deadlock: every thread is blocked and no timer is pending");
        }
        if t_next > c.now {
            c.now = t_next;
        }
        expire(c);
    }
}

fn run_on(c: &mut Core, next: usize, kind: u32) {
    let prev = c.cur;
    if next != prev {
        c.stats.switches += 1;
        c.hash = (c.hash ^ ((next as u64) << 8 | kind as u64)).wrapping_mul(0x100000001b3);
        c.hash ^= c.hash >> 29;
    }
    c.runseq += 1;
    c.th[next].last_run = c.runseq;
    c.cur = next;
}

/// give up the token; returns when this thread is scheduled again
fn reschedule(c: &mut Core, me: usize, kind: u32) {
    let next = pick_next(c);
    run_on(c, next, kind);
    if next != me {
        let mine: *const Th = &*c.th[me];
        let th: *const Th = &*c.th[next];
        IN_CORE.store(false, SeqCst);
        unsafe {
            wake_sem(&*th);
            wait_sem(&*mine);
        }
        IN_CORE.store(true, SeqCst);
    }
}

fn block(me: usize, w: Wait, deadline: Option<Ns>) -> bool {
    let c = core();
    bump_steps(c);
    c.runseq += 1;
    let seq = c.runseq;
    let t = &mut c.th[me];
    t.st = St::Blocked;
    t.wait = w;
    t.deadline = deadline;
    t.timed_out = false;
    t.block_seq = seq;
    t.spin_q = 0;
    t.spins = 0;
    let k = match w {
        Wait::None => 100,
        Wait::Futex(..) => 101,
        Wait::Join(_) => 102,
        Wait::Io => 103,
        Wait::Sleep => 104,
        Wait::Ext => 105,
    };
    reschedule(c, me, k);
    !core().th[me].timed_out
}

fn bump_steps(c: &mut Core) {
    c.stats.steps += 1;
    c.busy_from = blocks();
    STEPS.store(c.stats.steps, Relaxed);
    if c.stats.steps > c.max_steps {
        abort(c, if c.hurry < HURRY { "cut: too many steps of polling" } else { "step limit" });
    }
    if let Sched::Pct { .. } = c.pol.sched {
        if c.replay.is_none() && !c.pct_points.is_empty() && c.pct_points[0] <= c.stats.steps {
            c.pct_points.remove(0);
            let cur = c.cur;
            c.pct_low -= 1;
            c.th[cur].prio = c.pct_low;
        }
    }
}

pub fn yield_point(kind: u32) {
    let Some(me) = me() else { return };
    let _g = Guard::new();
    let c = core();
    bump_steps(c);
    c.th[me].spin_q = 0;
    c.th[me].spins = 0;
    if c.pol.p_stall > 0 && !c.quiet {
        let n = c.pol.max_stall as usize + 1;
        let k = choose(c, n, |c| {
            if c.rng.chance(c.pol.p_stall) {
                1 + c.rng.below(n - 1)
            } else {
                0
            }
        });
        if k > 0 {
            stall(c, me, STALLS[k]);
            c.stats.stalls += 1;
        }
    }
    c.inner = matches!(kind, 10 | 13);
    reschedule(c, me, kind);
}

fn stall(c: &mut Core, me: usize, d: Ns) {
    let now = c.now;
    c.stalls.push((now, now + d));
    c.th[me].ready_at = now + d;
}

/// the caller is polling for something another thread has to do
pub fn spin(kind: u32, q_min: Ns, q_max: Ns) {
    let Some(me) = me() else { return };
    let _g = Guard::new();
    let c = core();
    bump_steps(c);
    let now = c.now;
    let t = &mut c.th[me];
    t.spins += 1;
    c.stats.spins += 1;
    t.spin_q = if t.spin_q == 0 {
        q_min
    } else {
        (t.spin_q * 2).min(q_max)
    };
    t.ready_at = now + t.spin_q;
    let q = t.spin_q;
    reschedule(c, me, kind);
    // keep growing across the yield points inside one polling iteration
    core().th[me].spin_q = q;
}

pub fn sleep_ns(d: Ns) {
    let Some(me) = me() else { return };
    let _g = Guard::new();
    let until = core().now.saturating_add(d);
    block(me, Wait::Sleep, Some(until));
}

/// block until `ext_wake` or the deadline; true if woken
pub fn ext_wait(deadline: Option<Ns>) -> bool {
    let Some(me) = me() else { return true };
    let _g = Guard::new();
    block(me, Wait::Ext, deadline)
}
pub fn ext_wake() {
    let c = core();
    for i in 0..c.th.len() {
        if c.th[i].st == St::Blocked && c.th[i].wait == Wait::Ext {
            make_ready(c, i);
            c.th[i].timed_out = false;
        }
    }
}
pub fn my_tid() -> usize {
    me().unwrap_or(usize::MAX)
}
/// the process crashes: no thread but the caller and `keep` ever runs again, and the kernel
/// closes their sockets
pub fn kill_others(keep: &[usize]) {
    let me = my_tid();
    let c = core();
    for i in 0..c.th.len() {
        if i != me && !keep.contains(&i) {
            c.th[i].st = St::Dead;
        }
    }
    for fd in 0..FDS.len() {
        if FDS[fd].swap(false, SeqCst) {
            unsafe { raw_syscall(libc::SYS_shutdown, fd as i64, 2, 0, 0, 0, 0) };
        }
    }
    io_bump();
}
static FDS: [AtomicBool; 1024] = [const { AtomicBool::new(false) }; 1024];

fn io_bump() {
    let c = core();
    for i in 0..c.th.len() {
        if c.th[i].st == St::Blocked && c.th[i].wait == Wait::Io {
            make_ready(c, i);
            c.th[i].timed_out = false;
        }
    }
}

// ---------------------------------------------------------------- hooks of the vendored crates

#[no_mangle]
pub extern "C" fn mcsim_yield(kind: u32) {
    // a polling loop calls yield then spin: keep its back-off
    if kind == 3 {
        if let Some(me) = me() {
            let (q, s) = {
                let t = &core().th[me];
                (t.spin_q, t.spins)
            };
            yield_point(kind);
            let t = &mut core().th[me];
            t.spin_q = q;
            t.spins = s;
        }
        return;
    }
    yield_point(kind)
}
#[no_mangle]
pub extern "C" fn mcsim_spin(kind: u32) {
    spin(kind, US, 5 * MS)
}
#[no_mangle]
pub extern "C" fn mcsim_defer(_kind: u32) -> u32 {
    if me().is_none() {
        return 0;
    }
    let c = core();
    if c.pol.p_defer == 0 || c.quiet {
        return 0;
    }
    let _g = Guard::new();
    let k = choose(c, 2, |c| c.rng.chance(c.pol.p_defer) as usize);
    if k != 0 {
        c.stats.defers += 1;
    }
    k as u32
}
#[no_mangle]
pub extern "C" fn mcsim_work() {
    let Some(me) = me() else { return };
    let c = core();
    c.stats.works += 1;
    if c.pol.work_us == 0 {
        return;
    }
    let _g = Guard::new();
    let mut d = c.pol.work_us * US;
    if c.pol.work_jitter > 0 {
        let n = c.pol.work_jitter as usize + 1;
        d += d * choose(c, n, |c| c.rng.below(n)) as u64;
    }
    let until = c.now + d;
    c.th[me].ready_at = until;
    bump_steps(c);
    reschedule(c, me, 30);
}

// ---------------------------------------------------------------- preemption inside the library
// Every basic block of the library calls this (see rustc-wrap.sh).

static mut BLOCKS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
/// so many blocks without any other hook: the thread is polling for something
const BUSY: u64 = 20_000;

pub fn blocks() -> u64 {
    unsafe { BLOCKS }
}

fn next_preempt(c: &mut Core) {
    // less and less often in long runs
    let n = (c.pol.preempt as u64) << (c.stats.preempts / 1500).min(10);
    let at = if n == 0 || c.quiet { BUSY } else { c.pre.range(1, 2 * n - 1).min(BUSY) };
    unsafe { NEXT = BLOCKS + at };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    unsafe {
        BLOCKS += 1;
        if BLOCKS >= NEXT {
            at_block();
        }
    }
}

#[cold]
fn at_block() {
    let Some(me) = me() else {
        unsafe { NEXT = BLOCKS + 1000 };
        return;
    };
    if IN_CORE.load(SeqCst) {
        unsafe { NEXT = BLOCKS + 1 };
        return;
    }
    let c = core();
    let busy = blocks() - c.busy_from >= BUSY;
    next_preempt(c);
    if busy {
        c.stats.busy += 1;
        spin(121, US, 5 * MS);
        return;
    }
    if c.pol.preempt == 0 || c.quiet {
        return;
    }
    let _g = Guard::new();
    // a busy loop stays one, however often it is preempted
    let (from, q, s) = (c.busy_from, c.th[me].spin_q, c.th[me].spins);
    bump_steps(c);
    c.busy_from = from;
    c.stats.preempts += 1;
    if c.pol.p_stall > 0 {
        let n = c.pol.max_stall as usize + 1;
        let k = choose(c, n, |c| {
            if c.rng.chance(c.pol.p_stall) && c.rng.chance(1000) {
                1 + c.rng.below(n - 1)
            } else {
                0
            }
        });
        if k > 0 {
            stall(c, me, STALLS[k]);
            c.stats.stalls += 1;
        }
    }
    c.forced_pick = true;
    reschedule(c, me, 70);
    let t = &mut core().th[me];
    t.spin_q = q;
    t.spins = s;
}

// ---------------------------------------------------------------- real system calls

#[inline]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    *mut libc::c_void,
) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static REAL_CREATE: AtomicU64 = AtomicU64::new(0);
static REAL_JOIN: AtomicU64 = AtomicU64::new(0);
unsafe fn real_create() -> CreateFn {
    let mut p = REAL_CREATE.load(Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as u64;
        REAL_CREATE.store(p, Relaxed);
    }
    std::mem::transmute(p)
}
unsafe fn real_join() -> JoinFn {
    let mut p = REAL_JOIN.load(Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()) as u64;
        REAL_JOIN.store(p, Relaxed);
    }
    std::mem::transmute(p)
}

struct Tramp {
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    tid: usize,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let b = unsafe { Box::from_raw(p as *mut Tramp) };
    let th: *const Th = &*core().th[b.tid];
    unsafe {
        wait_sem(&*th);
        core().th[b.tid].ktid = raw_syscall(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as i32;
        TID.with(|t| t.set(b.tid as i32));
        libc::pthread_setspecific(KEY, 1 as *const _);
    }
    (b.f)(b.arg)
}

/// runs after Rust's thread-local destructors; hands the token on for good in the last round
extern "C" fn exit_dtor(_: *mut libc::c_void) {
    let Some(me) = me() else { return };
    let r = EXIT_ROUND.with(|r| {
        r.set(r.get() + 1);
        r.get()
    });
    if r < 3 {
        unsafe { libc::pthread_setspecific(KEY, 1 as *const _) };
        return;
    }
    let _g = Guard::new();
    let c = core();
    c.th[me].st = St::Dead;
    for i in 0..c.th.len() {
        if c.th[i].st == St::Blocked && c.th[i].wait == Wait::Join(me) {
            make_ready(c, i);
            c.th[i].timed_out = false;
        }
    }
    TID.with(|t| t.set(-1));
    let next = pick_next(c);
    run_on(c, next, 110);
    let th: *const Th = &*c.th[next];
    IN_CORE.store(false, SeqCst);
    unsafe { wake_sem(&*th) };
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    if me().is_none() {
        return real_create()(out, attr, f, arg);
    }
    yield_point(40);
    let c = core();
    let tid = crate::mem::harness(|| new_th(c));
    let b = Box::into_raw(Box::new(Tramp { f, arg, tid }));
    let r = real_create()(out, attr, trampoline, b as *mut _);
    if r == 0 {
        c.th[tid].pthread = *out;
    } else {
        c.th[tid].st = St::Dead;
        drop(Box::from_raw(b));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if let Some(me) = me() {
        let target = core()
            .th
            .iter()
            .position(|x| x.pthread == t && !x.joined);
        if let Some(i) = target {
            {
                let _g = Guard::new();
                while core().th[i].st != St::Dead {
                    block(me, Wait::Join(i), None);
                }
            }
            core().th[i].joined = true;
        }
    }
    real_join()(t, r)
}

fn ts_ns(t: &libc::timespec) -> Ns {
    (t.tv_sec.max(0) as u64)
        .saturating_mul(SEC)
        .saturating_add(t.tv_nsec.max(0) as u64)
}

unsafe fn sim_futex(me: usize, uaddr: usize, op: i32, val: u32, ts: *const libc::timespec, bits: u32) -> i64 {
    let cmd = op & 127;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let c = core();
            let cur = (*(uaddr as *const AtomicU32)).load(SeqCst);
            if cur != val {
                return fail(libc::EAGAIN);
            }
            let deadline = if ts.is_null() {
                None
            } else if cmd == libc::FUTEX_WAIT {
                Some(c.now.saturating_add(ts_ns(&*ts)))
            } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                let base = (WALL_BASE as i64 + c.wall_off) as u64;
                Some(ts_ns(&*ts).saturating_sub(base))
            } else {
                Some(ts_ns(&*ts).saturating_sub(MONO_BASE))
            };
            let bits = if cmd == libc::FUTEX_WAIT { !0 } else { bits };
            if block(me, Wait::Futex(uaddr, bits), deadline) {
                0
            } else {
                fail(libc::ETIMEDOUT)
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let c = core();
            let bits = if cmd == libc::FUTEX_WAKE { !0 } else { bits };
            let mut n = 0i64;
            while n < (val as i32).max(0) as i64 {
                let mut w: Vec<usize> = (0..c.th.len())
                    .filter(|&i| {
                        c.th[i].st == St::Blocked
                            && matches!(c.th[i].wait, Wait::Futex(a, b) if a == uaddr && b & bits != 0)
                    })
                    .collect();
                if w.is_empty() {
                    break;
                }
                w.sort_by_key(|&i| c.th[i].block_seq);
                let k = if w.len() > 1 && (val as usize) < w.len() {
                    let n = w.len();
                    choose(c, n, |c| if c.rng.chance(2000) { c.rng.below(n) } else { 0 })
                } else {
                    0
                };
                make_ready(c, w[k]);
                c.th[w[k]].timed_out = false;
                n += 1;
            }
            n
        }
        _ => fail(libc::ENOSYS),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a: i64,
    b: i64,
    c: i64,
    d: i64,
    e: i64,
    f: i64,
) -> libc::c_long {
    if let Some(me) = me() {
        if n == libc::SYS_futex {
            let _g = Guard::new();
            return sim_futex(me, a as usize, b as i32, c as u32, d as *const _, f as u32);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b as usize, 0) as i64;
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if me().is_none() {
        return ret(raw_syscall(
            libc::SYS_getrandom,
            buf as i64,
            len as i64,
            flags as i64,
            0,
            0,
            0,
        )) as isize;
    }
    let c = core();
    c.stats.entropy_bytes += len as u64;
    let mut i = 0;
    while i < len {
        let r = c.ent.next().to_le_bytes();
        for x in r {
            if i < len {
                *buf.add(i) = x;
                i += 1;
            }
        }
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if me().is_some() {
        let c = core();
        let v = match clk {
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_BOOTTIME => Some(MONO_BASE + c.now),
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                Some(((WALL_BASE + c.now) as i64 + c.wall_off).max(0) as u64)
            }
            _ => None,
        };
        if let Some(v) = v {
            c.now += 40;
            (*ts).tv_sec = (v / SEC) as i64;
            (*ts).tv_nsec = (v % SEC) as i64;
            return 0;
        }
    }
    ret(raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if me().is_some() {
        sleep_ns(ts_ns(&*req));
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if me().is_some() {
        let mut d = ts_ns(&*req);
        if flags & libc::TIMER_ABSTIME != 0 {
            let mut t = std::mem::zeroed();
            clock_gettime(clk, &mut t);
            d = d.saturating_sub(ts_ns(&t));
        }
        sleep_ns(d);
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if me().is_some() {
        spin(50, US, 5 * MS);
        return 0;
    }
    ret(raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

/// the number of processors is one of the plan's secrets, too
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    if me().is_some() {
        std::ptr::write_bytes(set as *mut u8, 0, size);
        let n = [1, 2, 4, 8, 16][(mix(core().seed0, 0xc9) % 5) as usize];
        for c in 0..n {
            libc::CPU_SET(c, &mut *set);
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0);
    ret(r.min(0)) as i32
}

// ---- I/O: the real descriptors are used, only blocking and wake-ups are simulated

unsafe fn io_wait(me: usize, timeout_ns: Option<Ns>, mut f: impl FnMut() -> i64) -> i64 {
    yield_point(60);
    let deadline = timeout_ns.map(|t| core().now.saturating_add(t));
    loop {
        let r = f();
        if r != 0 {
            return ret(r);
        }
        if let Some(d) = deadline {
            if core().now >= d {
                return 0;
            }
        }
        let _g = Guard::new();
        block(me, Wait::Io, deadline);
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: i32, ev: *mut libc::epoll_event, max: i32, timeout: i32) -> i32 {
    if let Some(me) = me() {
        let t = if timeout < 0 { None } else { Some(timeout as u64 * MS) };
        return io_wait(me, t, || {
            raw_syscall(libc::SYS_epoll_wait, ep as i64, ev as i64, max as i64, 0, 0, 0)
        }) as i32;
    }
    ret(raw_syscall(libc::SYS_epoll_wait, ep as i64, ev as i64, max as i64, timeout as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: i32) -> i32 {
    if let Some(me) = me() {
        let t = if timeout < 0 { None } else { Some(timeout as u64 * MS) };
        return io_wait(me, t, || {
            raw_syscall(libc::SYS_poll, fds as i64, n as i64, 0, 0, 0, 0)
        }) as i32;
    }
    ret(raw_syscall(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0)) as i32
}

macro_rules! io_fn {
    ($name:ident, $sys:expr, $rt:ty, $($a:ident : $t:ty),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $rt {
            let args = [$($a as i64),*];
            let g = |i: usize| args.get(i).copied().unwrap_or(0);
            let r = raw_syscall($sys, g(0), g(1), g(2), g(3), g(4), g(5));
            if me().is_some() { io_bump(); }
            ret(r) as $rt
        }
    };
}
io_fn!(write, libc::SYS_write, isize, fd: i32, buf: *const u8, n: usize);
io_fn!(writev, libc::SYS_writev, isize, fd: i32, iov: *const libc::iovec, n: i32);
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !await_input(fd) {
        return fail(libc::EAGAIN) as isize;
    }
    let r = raw_syscall(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0);
    if me().is_some() {
        io_bump();
    }
    ret(r) as isize
}
io_fn!(readv, libc::SYS_readv, isize, fd: i32, iov: *const libc::iovec, n: i32);
io_fn!(send, libc::SYS_sendto, isize, fd: i32, buf: *const u8, n: usize, fl: i32);
#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut u8, n: usize, fl: i32) -> isize {
    if fl & libc::MSG_DONTWAIT == 0 && !await_input(fd) {
        return fail(libc::EAGAIN) as isize;
    }
    let r = raw_syscall(libc::SYS_recvfrom, fd as i64, buf as i64, n as i64, fl as i64, 0, 0);
    if me().is_some() {
        io_bump();
    }
    ret(r) as isize
}

/// Input on a connection that blocks: waits in simulated time for it, as long as SO_RCVTIMEO says
unsafe fn await_input(fd: i32) -> bool {
    let Some(me) = me() else { return true };
    if fd < 0 || fd as usize >= FDS.len() || !FDS[fd as usize].load(SeqCst) {
        return true;
    }
    let fl = raw_syscall(libc::SYS_fcntl, fd as i64, libc::F_GETFL as i64, 0, 0, 0, 0);
    if fl < 0 || fl & libc::O_NONBLOCK as i64 != 0 {
        return true;
    }
    let mut tv: libc::timeval = std::mem::zeroed();
    let mut l = std::mem::size_of::<libc::timeval>() as u32;
    libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVTIMEO, &mut tv as *mut _ as *mut _, &mut l);
    let ns = tv.tv_sec as u64 * SEC + tv.tv_usec as u64 * US;
    let mut p = libc::pollfd {
        fd,
        events: libc::POLLIN,
        revents: 0,
    };
    io_wait(me, if ns == 0 { None } else { Some(ns) }, || {
        raw_syscall(libc::SYS_poll, &mut p as *mut _ as i64, 1, 0, 0, 0, 0)
    }) != 0
}
io_fn!(sendmsg, libc::SYS_sendmsg, isize, fd: i32, m: *const libc::msghdr, fl: i32);
io_fn!(recvmsg, libc::SYS_recvmsg, isize, fd: i32, m: *mut libc::msghdr, fl: i32);
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd >= 0 && (fd as usize) < FDS.len() {
        FDS[fd as usize].store(false, SeqCst);
    }
    let r = raw_syscall(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0);
    if me().is_some() {
        io_bump();
    }
    ret(r) as i32
}
io_fn!(shutdown, libc::SYS_shutdown, i32, fd: i32, how: i32);
/// Simulated TCP: port P of any address is the Unix socket `<base>.P`
static mut TCP_BASE: *const String = std::ptr::null();
pub fn tcp_base(p: &str) {
    unsafe { TCP_BASE = Box::into_raw(Box::new(p.to_string())) };
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: i32, ty: i32, proto: i32) -> i32 {
    let (mut d, mut p) = (dom, proto);
    if me().is_some() && !TCP_BASE.is_null() && matches!(dom, libc::AF_INET | libc::AF_INET6) {
        (d, p) = (libc::AF_UNIX, 0);
    }
    ret(raw_syscall(libc::SYS_socket, d as i64, ty as i64, p as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, lvl: i32, name: i32, v: *const libc::c_void, n: libc::socklen_t) -> i32 {
    if me().is_some() && !TCP_BASE.is_null() && lvl == libc::IPPROTO_TCP {
        return 0;
    }
    ret(raw_syscall(libc::SYS_setsockopt, fd as i64, lvl as i64, name as i64, v as i64, n as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, n: libc::socklen_t) -> i32 {
    let mut un: libc::sockaddr_un = std::mem::zeroed();
    let (mut a, mut n) = (a, n);
    if me().is_some() && !TCP_BASE.is_null() && (*a).sa_family as i32 == libc::AF_INET {
        let port = u16::from_be((*(a as *const libc::sockaddr_in)).sin_port);
        un.sun_family = libc::AF_UNIX as _;
        for (d, b) in un.sun_path.iter_mut().zip(format!("{}.{port}", *TCP_BASE).bytes()) {
            *d = b as _;
        }
        a = &un as *const _ as *const _;
        n = std::mem::size_of::<libc::sockaddr_un>() as _;
    }
    let mut r = raw_syscall(libc::SYS_connect, fd as i64, a as i64, n as i64, 0, 0, 0);
    if un.sun_family != 0 && r == -(libc::ENOENT as i64) {
        r = -(libc::ECONNREFUSED as i64);
    }
    if me().is_some() {
        if fd >= 0 && (fd as usize) < FDS.len() {
            FDS[fd as usize].store(true, SeqCst);
        }
        io_bump();
    }
    ret(r) as i32
}

/// keep the linker from dropping the entry points that only std refers to
#[used]
static KEEP: [unsafe extern "C" fn(libc::c_long, i64, i64, i64, i64, i64, i64) -> libc::c_long; 1] = [syscall];
#[used]
static KEEP2: unsafe extern "C" fn(*mut u8, usize, u32) -> isize = getrandom;

// ---------------------------------------------------------------- unhooked busy loops
// A thread that polls without any hooked call would keep the token for ever. A real-time alarm
// notices the lack of progress and makes it spin (this is the only decision that depends on real
// time; it is counted, and reported with the run).

static ALARM_LAST: AtomicU64 = AtomicU64::new(u64::MAX);
static ALARM_SAME: AtomicU32 = AtomicU32::new(0);

extern "C" fn on_alarm(_: i32) {
    unsafe {
        let errno = *libc::__errno_location();
        if ACTIVE.load(SeqCst) && !CORE.is_null() {
            let s = STEPS.load(SeqCst);
            if ALARM_LAST.swap(s, SeqCst) != s {
                ALARM_SAME.store(0, SeqCst);
            } else if ALARM_SAME.fetch_add(1, SeqCst) >= 4 {
                let c = core();
                let cur = c.cur;
                if TID.with(|t| t.get()) == cur as i32 {
                    if !IN_CORE.load(SeqCst) {
                        c.stats.forced += 1;
                        // come straight back here if nothing else happens
                        spin(120, 500 * MS, 2 * SEC);
                    }
                } else {
                    let k = c.th[cur].ktid;
                    if k != 0 {
                        ALARM_LAST.store(s, SeqCst);
                        raw_syscall(libc::SYS_tgkill, libc::getpid() as i64, k as i64, libc::SIGALRM as i64, 0, 0, 0);
                    }
                }
            }
        }
        *libc::__errno_location() = errno;
    }
}

fn install_alarm() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_alarm as *const () as usize;
        sa.sa_flags = libc::SA_RESTART | libc::SA_NODEFER;
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 100_000 },
            it_value: libc::timeval { tv_sec: 0, tv_usec: 100_000 },
        };
        libc::setitimer(libc::ITIMER_REAL, &it, std::ptr::null_mut());
    }
}
