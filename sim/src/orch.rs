//! Search, evidence, shrinking and replay.
use crate::check::{self, Prop};
use crate::plan::Plan;
use crate::rng::{mix, Rng};
use crate::run::{self, Opts, RunOut, Viol};
use crate::shrink::{self, Case, Shrinker};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    executions: u64,
    nontrivial: u64,
    sim_ns: u64,
    ops: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    flavors: BTreeMap<String, u64>,
    scheds: BTreeMap<String, u64>,
    stats: crate::core::Stats,
    aborts: BTreeMap<String, u64>,
    panics: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    died: BTreeMap<String, u64>,
    timeouts: u64,
    hashes: Vec<u64>,
    rechecked: u64,
    mismatched: u64,
    forced_runs: u64,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    viol: Option<(Plan, Vec<(u32, u32)>, Viol)>,
}

fn madd(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_default() += v;
    }
}
fn bump(a: &mut BTreeMap<String, u64>, k: &str) {
    *a.entry(k.to_string()).or_default() += 1;
}

fn sadd(a: &mut crate::core::Stats, b: &crate::core::Stats) {
    a.steps += b.steps;
    a.switches += b.switches;
    a.choices += b.choices;
    a.stalls += b.stalls;
    a.defers += b.defers;
    a.threads += b.threads;
    a.wall_jumps += b.wall_jumps;
    a.forced += b.forced;
    a.works += b.works;
    a.entropy_bytes += b.entropy_bytes;
    a.preempts += b.preempts;
    a.blocks += b.blocks;
    a.busy += b.busy;
}

/// a text without run-specific detail, to count it under
fn generic(s: &str) -> String {
    let mut o = String::new();
    let mut digit = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !digit {
                o.push('N');
            }
            digit = true;
        } else {
            digit = false;
            o.push(c);
        }
    }
    o
}

/// an entry of known_findings.txt
struct Known {
    prop: String,
    kind: String,
    text: String,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let f = verif().join("known_findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let (head, what) = r.split_once(" :: ").unwrap_or((r, ""));
        let mut k = Known {
            prop: String::new(),
            kind: String::new(),
            text: String::new(),
            what: what.to_string(),
        };
        for w in head.split(" | ") {
            if let Some((a, b)) = w.split_once('=') {
                match a.trim() {
                    "property" => k.prop = b.trim().into(),
                    "kind" => k.kind = b.trim().into(),
                    "match" => k.text = b.trim().into(),
                    _ => {}
                }
            }
        }
        v.push(k);
    }
    v
}
fn is_known<'a>(ks: &'a [Known], prop: &str, v: &Viol) -> Option<&'a Known> {
    ks.iter()
        .find(|k| k.prop == prop && k.kind == v.kind && v.msg.contains(&k.text))
}

fn verif() -> std::path::PathBuf {
    std::env::var("MCSIM_VERIF").map(Into::into).unwrap_or_else(|_| {
        let mut p = std::path::PathBuf::from(env!("CARGO_MANIFEST_DIR"));
        p.pop();
        p
    })
}

/// one evaluation of a plan: one execution, or two that differ only in entropy
fn judge(pr: &Prop, p: &Plan, t: Option<&[(u32, u32)]>, dir: &str) -> (RunOut, Vec<Viol>) {
    let o = shrink::plain(p, t, dir);
    let mut v = o.viol.clone();
    if let Some(d) = &o.died {
        // the process under test died: that is a violation of the crash-freedom properties
        if !o.timeout && d.starts_with("signal") && matches!(pr.id, "C14" | "C15" | "C17") {
            v.push(Viol {
                kind: "process-died".into(),
                msg: format!("the process died: {d}"),
            });
        }
    }
    if pr.pair && v.is_empty() {
        let mut q = p.clone();
        q.entropy = mix(p.entropy, 0xd1ff);
        let o2 = shrink::plain(&q, t, dir);
        v.extend(o2.viol.clone());
        let a: HashSet<&String> = o.strings.iter().collect();
        if let Some(s) = o2.strings.iter().find(|s| a.contains(s)) {
            v.push(Viol {
                kind: "string-not-from-entropy".into(),
                msg: format!("string {s:?} occurs in two executions that differ in the operating system's entropy"),
            });
        }
    }
    (o, v)
}

fn plan_for(pr: &Prop, seed: u64, i: u64) -> Plan {
    let mut h = seed;
    for b in pr.id.bytes() {
        h = mix(h, b as u64);
    }
    let mut r = Rng::new(mix(h, i));
    let mut p = (pr.gen)(&mut r, i);
    p.prop = pr.id.to_string();
    p
}

fn pin(w: usize) {
    unsafe {
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(w % n, &mut s);
        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
    }
}

fn worker(pr: &Prop, w: u64, nw: u64, seed: u64, dir: &str, until: Instant, max: u64, stop: &AtomicU32) -> Agg {
    let ks = known_findings();
    let mut a = Agg::default();
    let mut hs = HashSet::new();
    let mut i = w;
    while Instant::now() < until && stop.load(SeqCst) == 0 && i < max {
        let p = plan_for(pr, seed, i);
        let (o, v) = judge(pr, &p, None, dir);
        a.runs += 1;
        a.executions += 1 + pr.pair as u64;
        a.sim_ns += o.sim_ns;
        madd(&mut a.ops, &o.ops);
        madd(&mut a.probes, &o.probes);
        madd(&mut a.faults, &o.faults);
        bump(&mut a.flavors, &p.flavor);
        bump(
            &mut a.scheds,
            match p.pol.sched {
                crate::core::Sched::Fifo => "fifo",
                crate::core::Sched::Random { .. } => "random",
                crate::core::Sched::Pct { .. } => "pct",
            },
        );
        sadd(&mut a.stats, &o.stats);
        if o.stats.forced > 0 {
            a.forced_runs += 1;
        }
        if let Some(r) = &o.abort {
            bump(&mut a.aborts, &generic(r));
        }
        for n in o.panics.iter() {
            bump(&mut a.panics, &generic(n));
        }
        for n in o.notes.iter() {
            bump(&mut a.notes, &generic(n));
        }
        if let Some(d) = &o.died {
            if o.timeout {
                a.timeouts += 1;
                bump(&mut a.notes, &format!("timed out: index {i}, seed {seed}"));
                if std::env::var("MCSIM_BT").is_ok() {
                    eprintln!("timed out: index {i}");
                }
            } else {
                bump(&mut a.died, d);
            }
        }
        if o.nontrivial && hs.insert(o.hash) {
            a.nontrivial += 1;
        }
        if o.died.is_none() && a.samples.len() < 1 && o.nontrivial {
            a.samples.push(serde_json::json!({
                "index": i, "seed": p.seed, "flavor": p.flavor, "digest": format!("{:016x}", o.digest),
                "simulated_ms": o.sim_ns / 1_000_000, "steps": o.stats.steps, "switches": o.stats.switches,
                "faults": o.faults, "plan": p }));
        }
        // the same seed again must be the same execution
        if (i / nw) % 64 == 7 && o.died.is_none() && o.stats.forced == 0 && v.is_empty() {
            let o2 = shrink::plain(&p, None, dir);
            a.rechecked += 1;
            if o2.digest != o.digest {
                a.mismatched += 1;
                bump(&mut a.notes, &format!("digest mismatch at index {i}"));
            }
        }
        let mut bad = None;
        for x in v {
            match is_known(&ks, pr.id, &x) {
                Some(k) => bump(&mut a.known, &k.what),
                None => {
                    bad.get_or_insert(x);
                }
            }
        }
        if let Some(x) = bad {
            stop.store(1, SeqCst);
            a.viol = Some((p, o.trace.clone(), x));
            break;
        }
        i += nw;
    }
    a.hashes = hs.into_iter().collect();
    a
}

fn fork_worker(f: impl FnOnce() -> Agg) -> (i32, std::fs::File) {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
            let a = f();
            let b = serde_json::to_vec(&a).unwrap();
            let mut o = std::fs::File::from_raw_fd(p[1]);
            let _ = o.write_all(&b);
            drop(o);
            libc::_exit(0);
        }
        libc::close(p[1]);
        (pid, std::fs::File::from_raw_fd(p[0]))
    }
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    violation: Viol,
    digest: String,
    pair: bool,
    plan: Plan,
    /// (index of the decision, what was chosen); every other decision is 0
    schedule: Vec<(u32, u32)>,
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn check_cmd(id: &str, dir: &str) -> i32 {
    let Some(pr) = check::props().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed = env_u64("VERIF_SEED", 1);
    let secs = env_u64("MCSIM_SECS", if thorough { 600 } else { 22 });
    let max = env_u64("MCSIM_RUNS", u64::MAX);
    let nw = env_u64("MCSIM_WORKERS", 8);
    println!("check {id} tier={tier} seed={seed} for {secs} s with {nw} workers");
    let t0 = Instant::now();
    let until = t0 + Duration::from_secs(secs);
    let stop = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const AtomicU32)
    };
    let mut ws: Vec<_> = (0..nw)
        .map(|w| fork_worker(|| worker(&pr, w, nw, seed, dir, until, max, stop)))
        .collect();
    let mut a = Agg::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut viols = vec![];
    let mut lost = 0;
    for (pid, f) in ws.iter_mut() {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        unsafe { libc::waitpid(*pid, std::ptr::null_mut(), 0) };
        let Ok(x) = serde_json::from_slice::<Agg>(&b) else {
            lost += 1;
            continue;
        };
        a.runs += x.runs;
        a.executions += x.executions;
        a.sim_ns += x.sim_ns;
        madd(&mut a.ops, &x.ops);
        madd(&mut a.probes, &x.probes);
        madd(&mut a.faults, &x.faults);
        madd(&mut a.flavors, &x.flavors);
        madd(&mut a.scheds, &x.scheds);
        madd(&mut a.aborts, &x.aborts);
        madd(&mut a.panics, &x.panics);
        madd(&mut a.notes, &x.notes);
        madd(&mut a.died, &x.died);
        madd(&mut a.known, &x.known);
        sadd(&mut a.stats, &x.stats);
        a.timeouts += x.timeouts;
        a.rechecked += x.rechecked;
        a.mismatched += x.mismatched;
        a.forced_runs += x.forced_runs;
        if a.samples.len() < 2 {
            a.samples.extend(x.samples);
        }
        hs.extend(x.hashes);
        if let Some(v) = x.viol {
            viols.push(v);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ks = known_findings();
    for k in ks.iter().filter(|k| k.prop == id) {
        println!("KNOWN-FINDING: property={id} {} (seen {} times in this run)", k.what, a.known.get(&k.what).unwrap_or(&0));
    }
    let mut code = 0;
    let mut nviol = 0;
    // prefer the smallest failing plan
    viols.sort_by_key(|v| shrink::size(&v.0));
    if let Some((plan, trace, viol)) = viols.into_iter().next() {
        nviol = 1;
        code = 1;
        println!("found: {} - {}", viol.kind, viol.msg);
        println!("shrinking ...");
        let size0 = shrink::size(&plan);
        let tr0 = trace.len();
        let seed0 = plan.seed;
        let j = |p: &Plan, t: Option<&[(u32, u32)]>, d: &str| judge(&pr, p, t, d);
        let mut s = Shrinker {
            dir,
            deadline: Instant::now() + Duration::from_secs(if thorough { 120 } else { 30 }),
            runs: 0,
            judge: &j,
        };
        let c = s.shrink(Case { plan, trace, viol });
        println!(
            "shrunk from {size0} operations and {tr0} scheduling decisions to {} and {} in {} runs",
            shrink::size(&c.plan),
            c.trace.len(),
            s.runs
        );
        let (o, v) = judge(&pr, &c.plan, Some(&c.trace), dir);
        let viol = v.into_iter().find(|x| x.kind == c.viol.kind).unwrap_or(c.viol.clone());
        let rdir = verif().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{:x}.json", seed0));
        let r = Replay {
            property: id.into(),
            violation: viol.clone(),
            digest: format!("{:016x}", o.digest),
            pair: pr.pair,
            plan: c.plan,
            schedule: c.trace,
        };
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        // a fresh process must reproduce it
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", path.to_str().unwrap()])
            .stdout(std::process::Stdio::null())
            .status();
        println!(
            "replay in a fresh process: {}",
            if st.map(|s| s.code() == Some(1)).unwrap_or(false) {
                "reproduced exactly"
            } else {
                "NOT reproduced"
            }
        );
        println!("violation: {} - {}", viol.kind, viol.msg);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let per_h = |x: f64| (x / wall.max(0.001) * 3600.0) as u64;
    let ev = serde_json::json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": nviol,
        "coverage": {
            "evaluations": a.executions,
            "distinct_nontrivial": hs.len(),
            "rule": pr.rule,
            "samples": a.samples,
            "plans": a.runs,
            "runs_per_hour": per_h(a.executions as f64),
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "faults_injected": a.faults,
            "stalls_injected": a.stats.stalls,
            "task_polls_deferred": a.stats.defers,
            "wall_clock_jumps": a.stats.wall_jumps,
            "scheduling_steps": a.stats.steps,
            "context_switches": a.stats.switches,
            "decisions": a.stats.choices,
            "library_basic_blocks_executed": a.stats.blocks,
            "preemptions_inside_library_code": a.stats.preempts,
            "library_busy_loops_paced": a.stats.busy,
            "threads_simulated": a.stats.threads,
            "proofs_verified_by_the_library": a.stats.works,
            "entropy_bytes_served": a.stats.entropy_bytes,
            "distinct_interleavings_measure": "distinct hashes of the sequence (thread switched to, kind of switch point) among non-trivial runs",
            "operations": a.ops,
            "oracle_probes": a.probes,
            "workloads": a.flavors,
            "schedulers": a.scheds,
            "runs_cut_short": a.aborts,
            "panics_seen": a.panics,
            "harness_notes": a.notes,
            "runs_that_timed_out": a.timeouts,
            "runs_that_died": a.died,
            "determinism_rechecked": a.rechecked,
            "determinism_mismatches": a.mismatched,
            "runs_with_forced_preemption": a.forced_runs,
            "known_findings_seen": a.known,
            "real_components": REAL,
            "stubbed_components": STUB,
        },
        "assumptions": ASSUME,
    });
    let edir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id}: {} executions, {} distinct non-trivial interleavings, {} preemptions in library code, {:.0} simulated s, {:.1} s wall; cut short {:?}, timeouts {}, died {:?}, determinism {}/{} mismatches{}",
        a.executions,
        hs.len(),
        a.stats.preempts,
        a.sim_ns as f64 / 1e9,
        wall,
        a.aborts.values().sum::<u64>(),
        a.timeouts,
        a.died,
        a.mismatched,
        a.rechecked,
        if lost > 0 { format!(", {lost} workers lost") } else { String::new() }
    );
    if a.stats.blocks == 0 {
        eprintln!("note: the library was built without preemption points (see check.sh)");
    }
    if code == 0 && (lost > 0 || a.runs == 0 || a.nontrivial_missing(hs.len())) {
        eprintln!("error: the check did not explore anything meaningful");
        return 2;
    }
    if code == 0 && a.notes.keys().any(|k| k.starts_with("HARNESS")) {
        eprintln!("error: harness failure: {:?}", a.notes);
        return 2;
    }
    code
}

impl Agg {
    fn nontrivial_missing(&self, n: usize) -> bool {
        n == 0
    }
}

const REAL: [&str; 6] = [
    "libmcaptcha (all of it, unmodified, from /repo's working tree)",
    "actix actors, mailboxes and supervisors; actix-rt arbiters; tokio current-thread runtimes and timers",
    "crossbeam-channel, std threads, mutexes, condition variables, mpsc (on simulated futexes)",
    "redis-rs client, connection manager, RESP codec (over a Unix socket inside the process)",
    "mcaptcha_pow_sha256, rand",
    "serde/serde_json snapshots",
];
const STUB: [&str; 5] = [
    "OS thread scheduler, futex, clocks, sleeps, epoll/poll time-outs (simulated; one thread runs at a time)",
    "getrandom (seeded stream)",
    "Redis server with the mCaptcha cache module (model with fault injection, own thread, real socket)",
    "CPU time of a proof verification (a simulated duration)",
    "fault-injecting Save/Master implementations (only in C18 and in workloads named 'faulty')",
];
const ASSUME: [&str; 4] = [
    "threads interact only through the hooked primitives (channels, mutexes, futexes, sockets, timers); memory accesses are sequentially consistent",
    "the mCaptcha Redis module behaves as modelled in sim/src/redis_srv.rs (GET_CHALLENGE consumes; CAPTCHA_EXISTS answers 0 for a registered site)",
    "a sample of schedules, workloads and faults is explored, not all of them",
    "the vendored actix, actix-rt, crossbeam-channel and mcaptcha_pow_sha256 differ from the released crates only by yield points",
];

fn replay_cmd(file: &str, dir: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let pr = check::props().into_iter().find(|p| p.id == r.property).expect("property");
    let o = run::run(&Opts {
        plan: &r.plan,
        trace: Some(&r.schedule),
        log: true,
        dir,
        timeout_ms: 30_000,
    });
    for l in o.log.iter() {
        println!("{l}");
    }
    println!("panics: {:#?}\nabort: {:?}", o.panics, o.abort);
    let (o, v) = judge(&pr, &r.plan, Some(&r.schedule), dir);
    let d = format!("{:016x}", o.digest);
    for x in v.iter() {
        println!("violation: {} - {}", x.kind, x.msg);
    }
    println!("digest {d}, recorded {}", r.digest);
    if v.iter().any(|x| *x == r.violation) && d == r.digest {
        println!("VIOLATION property={} replay={file}", r.property);
        1
    } else if v.iter().any(|x| x.kind == r.violation.kind) {
        println!("the same kind of violation, but not the recorded execution (other code?)");
        println!("VIOLATION property={} replay={file}", r.property);
        3
    } else {
        println!("not reproduced");
        0
    }
}

fn one_cmd(id: &str, i: u64, dir: &str) -> i32 {
    let pr = check::props().into_iter().find(|p| p.id == id).expect("property");
    let p = plan_for(&pr, env_u64("VERIF_SEED", 1), i);
    if std::env::var("PLAN").is_ok() {
        println!("{}", serde_json::to_string_pretty(&p).unwrap());
    }
    let t = Instant::now();
    let o = run::run(&Opts {
        plan: &p,
        trace: None,
        log: true,
        dir,
        timeout_ms: 30_000,
    });
    for l in o.log.iter() {
        println!("{l}");
    }
    println!(
        "{:?} flavor {} viol {:#?}\nabort {:?} died {:?} panics {:#?} notes {:?} digest {:x} sim {} ms steps {} switches {} blocks {} preempts {} busy {} forced {} probes {:?} faults {:?}",
        t.elapsed(), p.flavor, o.viol, o.abort, o.died, o.panics, o.notes, o.digest, o.sim_ns / 1_000_000, o.stats.steps, o.stats.switches, o.stats.blocks, o.stats.preempts, o.stats.busy, o.stats.forced, o.probes, o.faults
    );
    0
}

/// every seed twice, in different processes on different processors: the digests must agree
fn selftest_cmd(n: u64, dir: &str) -> i32 {
    let mut bad = 0;
    let only = std::env::var("MCSIM_ONLY").ok();
    for pr in check::props().into_iter().filter(|p| only.as_deref().is_none_or(|o| o == p.id)) {
        let mut res: Vec<BTreeMap<String, u64>> = vec![];
        for pass in 0..2u64 {
            let nw = if pass == 0 { 8 } else { 5 };
            let mut m = BTreeMap::new();
            let ws: Vec<_> = (0..nw)
                .map(|w| {
                    fork_worker(|| {
                        pin((w + pass * 3) as usize);
                        let mut a = Agg::default();
                        let mut i = w;
                        while i < n {
                            let p = plan_for(&pr, 99, i);
                            let o = shrink::plain(&p, None, dir);
                            if o.stats.forced == 0 && o.died.is_none() {
                                a.notes.insert(i.to_string(), o.digest);
                            }
                            i += nw;
                        }
                        a
                    })
                })
                .collect();
            for (pid, mut f) in ws {
                let mut b = vec![];
                let _ = f.read_to_end(&mut b);
                unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
                if let Ok(a) = serde_json::from_slice::<Agg>(&b) {
                    m.extend(a.notes);
                }
            }
            res.push(m);
        }
        let mut diff = vec![];
        for (k, v) in res[0].iter() {
            if let Some(x) = res[1].get(k) {
                if x != v {
                    diff.push(k.clone());
                }
            }
        }
        println!("{}: {} seeds twice, {} differ {:?}", pr.id, res[0].len(), diff.len(), diff);
        bad += diff.len();
    }
    (bad > 0) as i32
}

pub fn main() {
    // the same addresses in every process
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var("MCSIM_EXEC").is_err() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as _) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args().skip(1))
                    .env("MCSIM_EXEC", "1")
                    .exec();
                eprintln!("exec: {e}");
            }
        }
    }
    let a: Vec<String> = std::env::args().collect();
    let dir = format!("/tmp/mcsim.{:07}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let code = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(id)) => check_cmd(id, &dir),
        (Some("replay"), Some(f)) => replay_cmd(f, &dir),
        (Some("one"), Some(id)) => one_cmd(id, a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0), &dir),
        (Some("selftest"), n) => selftest_cmd(n.and_then(|s| s.parse().ok()).unwrap_or(100), &dir),
        _ => {
            eprintln!("usage: mcsim check ID | replay FILE | one ID INDEX | selftest [N]");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}
