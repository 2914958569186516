//! C25: waiting for a verdict holds up nobody else. C26: a system with nothing to do is at rest.
use super::gen::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            rule: "calls that do not wait for a proof return at once however many do; proofs are checked on all workers at once, whoever submitted them",
            gen: gen25,
            check: check25,
            pair: false,
        },
        Prop {
            id: "C26",
            rule: "while nobody calls, or all callers wait for proofs being checked, no thread of the system runs in circles",
            gen: gen26,
            check: check26,
            pair: false,
        },
    ]
}

fn verify(ch: usize, work: Work, ip_: String, key: Option<String>, raw: Option<String>, cancel: Option<Cancel>) -> Op {
    Op::Verify {
        ch,
        raw,
        work,
        key,
        ip: ip_,
        out: ch,
        cancel,
    }
}
fn pow(site: &str, out: usize) -> Op {
    Op::GetPow {
        site: site.into(),
        out,
        cancel: None,
    }
}

/// start of the busy part
const T0: u64 = 60_000_000;

// ------------------------------------------------------------------ C25

fn gen25(r: &mut Rng, i: u64) -> Plan {
    let fl = ["flood", "trickle", "many", "redis", "shared", "cancel"][(i % 6) as usize];
    let mut p = base(r, "C25", fl);
    p.pol.p_stall = 0;
    p.pol.work_jitter = 0;
    p.pol.work_us = *r.pick(&[500_000, 800_000, 2_000_000, 20_000_000]);
    p.queue = *r.pick(&[1, 3, 8, 1000, 1000, 1000, 1000]);
    p.op_bound_ms = 600_000;
    p.runners = *r.pick(&[1, 1, 2, 3, 4, 8]);
    p.gc = *r.pick(&[1, 5, 1_000_000]);
    match fl {
        "redis" => p.backend = if r.chance(5000) { Backend::Redis } else { Backend::Mixed },
        "shared" => {
            p.instances = 2;
            p.shared = true;
        }
        _ => {}
    }
    let embedded = p.backend == Backend::Embedded;
    // "a": proofs; "t": visitors that expire; "k": what the rest is about
    let long = 100_000;
    let d = *r.pick(&[1, 2, 5, 20, 100, 250]);
    p.sites = vec![
        SiteCfg {
            order: 0,
            name: "a".into(),
            dur: long,
            levels: vec![(10_000, d), (20_000, d + 2)],
        },
        SiteCfg {
            order: 0,
            name: "t".into(),
            dur: r.range(1, 4),
            levels: vec![(10_000, d), (20_000, d + 2)],
        },
        SiteCfg {
            order: 0,
            name: "k".into(),
            dur: long,
            levels: vec![(10_000, d), (20_000, d + 2)],
        },
    ];
    let threads = r.range(1, 3) as usize;
    let nsys = p.instances;
    let heavy = match fl {
        "flood" => r.range(2, 12) as usize,
        "many" => r.range(12, 40) as usize,
        _ => r.range(1, 8) as usize,
    };
    let nip = r.range(1, heavy as u64) as usize;
    let p_bad = *r.pick(&[0, 2000, 5000]);
    let p_cancel = if fl == "cancel" { 4000 } else { 0 };
    let mut cl = vec![];
    // tokens and challenges for the others
    let ntok = 4;
    let mut prep: Vec<Op> = (0..ntok).map(|k| pow("k", 500 + k)).collect();
    prep.push(Op::Par {
        ops: (0..ntok).map(|k| verify(500 + k, Work::Honest, ip(60 + k), None, None, None)).collect(),
    });
    prep.push(pow("k", 550));
    prep.extend((0..heavy).map(|k| pow("a", k)));
    cl.push(Client {
        thread: r.below(threads),
        sys: 0,
        start_us: 0,
        ops: prep,
    });
    // those who wait for verdicts, all from one or two executors
    let busy = if r.chance(7000) { 1 } else { 2 };
    for b in 0..busy {
        let mut vs: Vec<Op> = (0..heavy)
            .filter(|k| k % busy == b)
            .map(|k| {
                let w = if r.chance(p_bad) { bad_work(r, heavy) } else { Work::Honest };
                let c = if r.chance(p_cancel) {
                    Some(if r.chance(5000) {
                        Cancel::Polls(r.range(1, 6) as u32)
                    } else {
                        Cancel::AfterUs(*r.pick(&[1, 1000, 100_000, 3_000_000]))
                    })
                } else {
                    None
                };
                verify(k, w, ip(r.below(nip)), None, None, c)
            })
            .collect();
        let mut ops = vec![Op::At { us: T0 }];
        if fl == "trickle" {
            while !vs.is_empty() {
                let k = r.range(1, vs.len().min(3) as u64) as usize;
                ops.push(Op::Par {
                    ops: vs.drain(..k).collect(),
                });
                ops.push(Op::Sleep {
                    us: *r.pick(&[1, 1000, 300_000, 3_000_000]),
                });
            }
        } else {
            ops.push(Op::Par { ops: vs });
        }
        cl.push(Client {
            thread: r.below(threads),
            sys: if nsys > 1 && r.chance(3000) { 1 } else { 0 },
            start_us: 0,
            ops,
        });
    }
    // everybody else
    let span = p.pol.work_us * (heavy as u64 / p.runners as u64 + 1);
    for c in 0..r.range(1, 4) as usize {
        let mut ops = vec![Op::At {
            us: T0 + r.range(0, 2000),
        }];
        let guest = format!("guest{c}");
        let mut there = false;
        for _ in 0..r.range(3, 14) {
            if r.chance(6000) {
                ops.push(Op::Sleep {
                    us: r.range(1, (span / 4).max(2)),
                });
            }
            let any = || Some("nosite".to_string());
            match r.below(13) {
                0 | 1 => ops.push(pow(if r.chance(5000) { "k" } else { "t" }, 600 + c)),
                2 | 3 => ops.push(Op::Validate {
                    tok: Tok::Slot(500 + r.below(ntok)),
                    key: if r.chance(7000) { "k".into() } else { "a".into() },
                    cancel: None,
                }),
                4 | 5 => ops.push(Op::Visit {
                    site: "t".into(),
                    cancel: None,
                }),
                6 | 7 if p.backend != Backend::Redis => ops.push(Op::Count { site: "t".into() }),
                // refused before anybody looks at the proof
                8 => ops.push(verify(550, Work::Honest, ip(r.below(nip)), any(), None, None)),
                9 => ops.push(verify(550, Work::Honest, ip(r.below(nip)), None, any(), None)),
                10 if p.backend != Backend::Redis => ops.push(Op::Snapshot { out: 0 }),
                11 => {
                    if there {
                        ops.push(Op::Remove {
                            site: guest.clone(),
                            cancel: None,
                        });
                    } else {
                        ops.push(Op::AddSite {
                            cfg: 0,
                            name: Some(guest.clone()),
                            cancel: None,
                        });
                    }
                    there = !there;
                }
                12 if embedded => ops.push(if r.chance(5000) {
                    Op::Hold {
                        site: "t".into(),
                        out: c,
                    }
                } else {
                    Op::DelTok {
                        tok: Tok::Text("nothing".into()),
                    }
                }),
                _ => ops.push(Op::Visit {
                    site: "nosite".into(),
                    cancel: None,
                }),
            }
        }
        cl.push(Client {
            thread: r.below(threads),
            sys: r.below(nsys),
            start_us: 0,
            ops,
        });
    }
    p.epochs = vec![epoch(vec![0, 1, 2], cl, vec![])];
    p
}

fn refused(e: &Ev) -> bool {
    ["QueueFull", "StringNotFound", "MCaptchaKeyValidationFail"].iter().any(|k| err_is(&e.r, k))
}

fn check25(cx: &mut Cx) {
    let all = ["get_pow", "verify", "validate", "visit", "count", "add_site", "remove", "hold", "snapshot", "del_token"];
    cx.no_stuck(&all, "never");
    let w = cx.p.pol.work_us * US;
    let base = BASE + if cx.p.backend == Backend::Embedded { 0 } else { BASE };
    let vs = cx.verifies();
    let (mut waited, mut others) = (0, 0);
    for e in cx.h.evs.iter() {
        if !all.contains(&e.op.name()) || e.t1 == u64::MAX || matches!(e.r, R::Skipped | R::Lost | R::Cancelled | R::Pending) {
            continue;
        }
        let d = e.t1 - e.t0;
        let slack = base + core::stall_overlap(e.t0, e.t1);
        if e.op.name() != "verify" || refused(e) {
            if d > slack {
                let n = vs.iter().filter(|o| o.id != e.id && o.t0 <= e.t1 && o.t1 >= e.t0).count();
                cx.v(
                    "held-up",
                    format!("{} (call #{} of client {}) took {} ms, although it needs no proof to be checked; {n} submissions were waiting", e.op.name(), e.id, e.client, d / MS),
                );
            }
            others += vs.iter().any(|o| o.t0 <= e.t0 && o.t1 >= e.t1 && o.t1 - o.t0 >= w) as u32;
            continue;
        }
        // everything that can be in the pool meanwhile, spread over the workers
        let n = vs
            .iter()
            .filter(|o| o.id != e.id && o.sys == e.sys && !refused(o) && o.t0 <= e.t1 && (o.t1 >= e.t0 || o.r == R::Cancelled))
            .count() as u64;
        waited += (n > 0) as u32;
        let bound = (n + cx.p.runners as u64) * w / cx.p.runners as u64 + slack;
        if d > bound {
            cx.v(
                "not-parallel",
                format!(
                    "call #{} waited {} ms for its verdict; {} other submissions of {} ms each take {} workers at most {} ms",
                    e.id,
                    d / MS,
                    n,
                    w / MS,
                    cx.p.runners,
                    bound / MS
                ),
            );
        }
    }
    // visitors expire on time, whoever waits for what
    let dur = cx.p.sites[1].dur * SEC;
    let visits: Vec<&Ev> = cx
        .h
        .evs
        .iter()
        .filter(|e| match (&e.op, &e.r) {
            (Op::Visit { site, .. }, R::Visit { .. }) | (Op::GetPow { site, .. }, R::Pow { .. }) => site == "t",
            _ => false,
        })
        .collect();
    for e in cx.h.evs.iter() {
        let (Op::Count { .. }, R::Count(n)) = (&e.op, &e.r) else { continue };
        let lo = visits.iter().filter(|v| v.t1 < e.t0 && v.t0 + dur > e.t1).count() as u64;
        let hi = visits.iter().filter(|v| v.t0 <= e.t1 && v.t1 + dur + base + core::stall_overlap(v.t1, e.t1) >= e.t0).count() as u64;
        if *n < lo || *n > hi {
            cx.v(
                "count",
                format!("call #{} at {} ms counts {} visitors of \"t\", it has had {}..={} in the last {} s", e.id, e.t0 / MS, n, lo, hi, dur / SEC),
            );
        }
    }
    cx.nontrivial = others > 0 || waited > 0;
}

// ------------------------------------------------------------------ C26

fn gen26(r: &mut Rng, i: u64) -> Plan {
    let fl = ["after", "abandon", "pending", "rebuilt", "redis", "sites"][(i % 6) as usize];
    let mut p = base(r, "C26", fl);
    p.pol.p_stall = 0;
    p.pol.work_jitter = 0;
    p.op_bound_ms = 600_000;
    p.queue = *r.pick(&[2, 1000]);
    p.gc = *r.pick(&[1, 10, 1_000_000]);
    if fl == "redis" {
        p.backend = if r.chance(5000) { Backend::Redis } else { Backend::Mixed };
    }
    let rest = |r: &mut Rng| Op::Rest {
        us: *r.pick(&[5_000_000, 20_000_000, 100_000_000]),
    };
    p.sites = sites(r, 2, (1, 60));
    let mut t = Traffic::new(r, &p.sites);
    if fl == "abandon" {
        t.p_cancel = 5000;
    }
    let mut cl = traffic(r, &t);
    if fl == "sites" {
        let mut ops = vec![];
        for k in 0..r.range(2, 8) as usize {
            let name = format!("guest{}", k % 3);
            ops.push(match r.below(4) {
                0 => Op::Remove {
                    site: name,
                    cancel: None,
                },
                1 => Op::Rename {
                    from: name,
                    to: format!("guest{}", r.below(3)),
                    cancel: None,
                },
                2 => Op::Visit {
                    site: name,
                    cancel: None,
                },
                _ => Op::AddSite {
                    cfg: 0,
                    name: Some(name),
                    cancel: None,
                },
            });
        }
        cl.push(Client {
            thread: r.below(3),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    let mut post = vec![rest(r)];
    match fl {
        "rebuilt" => {
            for _ in 0..r.range(1, 3) {
                post.push(Op::DropSystem);
                if r.chance(5000) {
                    post.push(rest(r));
                }
                post.push(Op::RebuildSystem {
                    runners: r.range(1, 5) as usize,
                    queue: 100,
                });
                if r.chance(5000) {
                    post.extend(trip(&p.sites[0].name, 700, &ip(1)));
                }
                post.push(rest(r));
            }
        }
        "pending" => {
            // everybody waits for very slow proofs
            p.pol.work_us = *r.pick(&[30_000_000, 120_000_000]);
            p.sites[0].dur = 100_000;
            let n = r.range(1, 6) as usize;
            let name = p.sites[0].name.clone();
            cl = vec![];
            for k in 0..n {
                let mut ops = vec![pow(&name, k), Op::At { us: 1_000_000 }];
                ops.push(verify(k, if r.chance(2000) { Work::Forged } else { Work::Honest }, ip(r.below(n)), None, None, None));
                cl.push(Client {
                    thread: r.below(3),
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
            cl.push(Client {
                thread: r.below(3),
                sys: 0,
                start_us: 0,
                ops: vec![Op::At { us: 2_000_000 }, Op::Rest { us: 20_000_000 }],
            });
            post = vec![Op::Sleep { us: 1_000_000 }, rest(r)];
        }
        _ => {
            post.extend(trip(&p.sites[0].name, 700, &ip(1)));
            post.push(rest(r));
        }
    }
    p.epochs = vec![epoch(vec![0, 1], cl, post)];
    p
}

/// what a second of doing nothing may cost: ticks and clean ups, but not polling
const STEPS: u64 = 2_000;
const BLOCKS: u64 = 40_000;

fn check26(cx: &mut Cx) {
    cx.no_stuck(&["get_pow", "verify", "validate", "visit", "add_site", "remove", "rename", "rest"], "never");
    for e in cx.h.evs.iter() {
        let (Op::Rest { us }, R::Rest { blocks, steps, busy }) = (&e.op, &e.r) else { continue };
        cx.nontrivial = true;
        let s = us / 1_000_000;
        if *busy > 5 + 5 * s || *blocks > 20_000 + BLOCKS * s || *steps > 2_000 + STEPS * s {
            cx.v(
                "restless",
                format!("call #{}: in {s} s in which there was nothing to do the system took {steps} steps, {blocks} basic blocks, and was found looping {busy} times", e.id),
            );
        }
    }
}
