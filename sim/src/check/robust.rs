//! C14, C18, C19: hostile use, failing components, entropy.
use super::gen::*;
use super::*;
use crate::hist::CompEv;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "no panic, no call without an answer, and a fresh site serves an honest client afterwards",
            gen: gen14,
            check: check14,
            pair: false,
        },
        Prop {
            id: "C18",
            rule: "what was handed out is what the component acknowledged; only calls whose component failed fail",
            gen: gen18,
            check: check18,
            pair: false,
        },
        Prop {
            id: "C19",
            rule: "all strings differ, within a run, across restarts and between runs with different entropy",
            gen: gen19,
            check: check19,
            pair: true,
        },
    ]
}

fn cl(ops: Vec<Op>, thread: usize) -> Client {
    Client {
        thread,
        sys: 0,
        start_us: 0,
        ops,
    }
}

/// panics that are not the simulator's own
pub fn no_panics(cx: &mut Cx) {
    for p in cx.h.panics.iter() {
        cx.viol.push(Viol {
            kind: "panic".into(),
            msg: format!("a thread or task panicked: {p}"),
        });
        return;
    }
}

/// the round trip at the end of the plan
pub fn served(cx: &mut Cx, site: &str, slot: usize, kind: &str) -> bool {
    let mut seen = 0;
    for e in cx.h.evs.iter().filter(|e| e.client == 2000) {
        let (ok, what) = match &e.op {
            Op::AddSite { .. } if e.arg.as_deref() == Some(site) => (e.r == R::Unit, "add_site"),
            Op::GetPow { site: s, out, .. } if s == site && *out == slot => (matches!(e.r, R::Pow { .. }), "get_pow"),
            Op::Verify { ch, .. } if *ch == slot => (matches!(e.r, R::Pass { .. }), "verify_pow"),
            Op::Validate { tok: Tok::Slot(s), .. } if *s == slot => (e.r == R::Bool(true), "validate"),
            _ => continue,
        };
        seen += 1;
        if !ok && !matches!(e.r, R::Lost | R::Skipped) {
            cx.v(
                kind,
                format!(
                    "call #{}: {what} of an honest client after everything calmed down gave {}",
                    e.id,
                    serde_json::to_string(&e.r).unwrap_or_default()
                ),
            );
            return false;
        }
    }
    seen == 4
}

// ------------------------------------------------------------------ C14

fn long(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "x".repeat(70_000),
        1 => "\u{1F600}".repeat(50),
        2 => "a\0b".into(),
        3 => "%s%n{}".into(),
        4 => String::new(),
        5 => "\r\n*1\r\n$4\r\nPING\r\n".into(),
        _ => "zzz".into(),
    }
}

fn hostile(r: &mut Rng, names: &[String], ns: usize, c: usize, p_cancel: u32) -> Op {
    let n = if r.chance(1200) { long(r) } else { r.pick(names).clone() };
    let s = c * 6 + r.below(6);
    let any = r.below(24);
    let cn = cancel(r, p_cancel);
    match r.below(24) {
        0..=3 => Op::GetPow {
            site: n,
            out: s,
            cancel: cn,
        },
        4..=8 => Op::Verify {
            ch: any,
            raw: if r.chance(1500) { Some(long(r)) } else { None },
            work: match r.below(4) {
                0 => Work::Text(long(r)),
                1 => Work::Honest,
                _ => bad_work(r, 24),
            },
            key: if r.chance(2000) { Some(n) } else { None },
            ip: match r.below(5) {
                0 => long(r),
                _ => ip(r.below(4)),
            },
            out: any,
            cancel: cn,
        },
        9..=11 => Op::Validate {
            tok: match r.below(4) {
                0 => Tok::Text(long(r)),
                1 => Tok::Pre(long(r), any),
                _ => Tok::Slot(any),
            },
            key: n,
            cancel: cn,
        },
        12 | 13 => Op::Visit { site: n, cancel: cn },
        14 => Op::Count { site: n },
        15 => Op::Hold {
            site: n,
            out: r.below(8),
        },
        16 => Op::Held {
            slot: r.below(8),
            visit: r.chance(7000),
        },
        17 | 18 => Op::AddSite {
            cfg: r.below(ns),
            name: if r.chance(7000) { Some(n) } else { None },
            cancel: cn,
        },
        19 => Op::Remove { site: n, cancel: cn },
        20 => Op::Rename {
            from: n,
            to: r.pick(names).clone(),
            cancel: cn,
        },
        21 => Op::Snapshot { out: r.below(3) },
        22 => Op::Restore {
            from: r.below(3),
            cancel: cn,
            more: 0,
        },
        _ => Op::WallJump {
            ms: *r.pick(&[-3_600_000, -1, 1, 3_600_000]),
        },
    }
}

fn gen14(r: &mut Rng, i: u64) -> Plan {
    let fl = ["mix", "admin", "cancel", "burst", "extremes", "redis"][(i % 6) as usize];
    let mut p = base(r, "C14", fl);
    p.gc = r.range(1, 4);
    p.queue = *r.pick(&[120, 1000]);
    p.pol.work_us = some_work(r, p.pol.work_us);
    if fl == "redis" {
        p.backend = if r.chance(6000) { Backend::Redis } else { Backend::Mixed };
    }
    let ns = r.range(1, 4) as usize;
    p.sites = sites(r, ns, (1, 5));
    if fl == "extremes" {
        for s in p.sites.iter_mut() {
            match r.below(6) {
                0 => s.dur = u64::MAX,
                1 => s.dur = *r.pick(&[u64::MAX / 2, 1 << 40, 10_000_000_000, 70_000_000]),
                2 => {
                    let l = s.levels.len() - 1;
                    s.levels[l].0 = u32::MAX;
                }
                3 => {
                    // nobody computes that proof, but asking for it must not hurt
                    let d = *r.pick(&[1000, 100_000]);
                    let l = s.levels.len() - 1;
                    s.levels[l].1 = d.max(s.levels[l].1);
                }
                _ => {}
            }
        }
    }
    let mut names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    names.push("new".into());
    let nc = r.range(2, 4) as usize;
    let p_cancel = match fl {
        "cancel" => 7000,
        _ => *r.pick(&[0, 1000, 3000]),
    };
    let gc = p.gc * 1_000_000;
    let mut cls = vec![];
    for c in 0..nc {
        let mut ops = vec![];
        for _ in 0..r.range(3, 16) {
            match r.below(6) {
                0 => ops.push(Op::Sleep {
                    us: *r.pick(&[1, 500, 20_000, 400_000, 1_100_000]),
                }),
                1 => ops.push(Op::At {
                    us: r.range(0, 3) * gc + *r.pick(&[0, 0, 1000, 2000]),
                }),
                _ => {}
            }
            if fl == "burst" && r.chance(3000) {
                let k = r.range(10, 30);
                let one = hostile(r, &names, ns, c, p_cancel);
                let same = r.chance(5000);
                ops.push(Op::Par {
                    ops: (0..k)
                        .map(|_| {
                            if same {
                                one.clone()
                            } else {
                                hostile(r, &names, ns, c, p_cancel)
                            }
                        })
                        .filter(|o| !matches!(o, Op::WallJump { .. }))
                        .collect(),
                });
            } else if fl == "admin" && r.chance(4000) {
                let k = r.range(2, 5);
                let o = (0..k)
                    .map(|_| loop {
                        let o = hostile(r, &names, ns, c, p_cancel);
                        if matches!(
                            o,
                            Op::AddSite { .. } | Op::Remove { .. } | Op::Rename { .. } | Op::Snapshot { .. } | Op::Restore { .. } | Op::Visit { .. }
                        ) {
                            break o;
                        }
                    })
                    .collect();
                ops.push(Op::Par { ops: o });
            } else {
                ops.push(hostile(r, &names, ns, c, p_cancel));
            }
        }
        cls.push(cl(ops, if r.chance(6000) { c } else { 0 }));
    }
    p.sites.push(SiteCfg {
        order: 0,
        name: "fresh".into(),
        dur: 60,
        levels: vec![(5, 3), (10, 20)],
    });
    let mut post = vec![Op::Quiet { on: true }];
    if r.chance(7000) {
        post.push(Op::Sleep {
            us: r.range(0, 3) * gc + *r.pick(&[0, 1000, 500_000]),
        });
    }
    post.push(Op::AddSite {
        cfg: ns,
        name: None,
        cancel: None,
    });
    post.extend(trip("fresh", 700, "10.9.9.9"));
    // an address that took part in the hostilities is as good as any other
    post.extend(trip("fresh", 701, &ip(0)));
    post.push(Op::Remove {
        site: "fresh".into(),
        cancel: None,
    });
    if p.backend != Backend::Redis {
        post.push(Op::Snapshot { out: 5 });
    }
    if p.backend == Backend::Redis && r.chance(3000) {
        super::rds::in_cluster(r, &mut p, &mut cls, true);
    }
    p.epochs = vec![epoch((0..ns).collect(), cls, post)];
    p
}

pub const ALL: &[&str] = &[
    "get_pow", "verify", "validate", "visit", "count", "hold", "held", "snapshot", "restore", "add_site", "remove", "rename",
];

fn check14(cx: &mut Cx) {
    no_panics(cx);
    cx.no_stuck(ALL, "stuck");
    if cx.abort.is_some() {
        return;
    }
    let a = served(cx, "fresh", 700, "not-serving");
    if a {
        for e in cx.h.evs.iter().filter(|e| e.client == 2000) {
            let bad = match &e.op {
                Op::GetPow { out: 701, .. } => !matches!(e.r, R::Pow { .. }),
                Op::Verify { ch: 701, .. } => !matches!(e.r, R::Pass { .. }),
                Op::Validate { tok: Tok::Slot(701), .. } => e.r != R::Bool(true),
                Op::Remove { .. } => e.r != R::Unit,
                Op::Snapshot { .. } => !matches!(e.r, R::Sites(_)),
                _ => false,
            };
            if bad {
                cx.v(
                    "not-serving",
                    format!("call #{} {} after everything calmed down gave {:?}", e.id, e.op.name(), e.r),
                );
                break;
            }
        }
    }
    cx.nontrivial = a;
}

// ------------------------------------------------------------------ C18

fn fact(r: &mut Rng) -> FAct {
    match r.below(10) {
        0 | 1 => FAct::Err,
        2 => FAct::ErrAfter,
        3 | 4 => FAct::Drop,
        5 => FAct::DropAfter,
        6 | 7 => FAct::Delay {
            ms: *r.pick(&[1, 30, 400, 2500, 7000, 40_000, 700_000]),
        },
        8 => FAct::Die,
        _ => FAct::None,
    }
}

fn gen18(r: &mut Rng, i: u64) -> Plan {
    let fl = ["mix", "storm", "race", "one"][(i % 4) as usize];
    let mut p = base(r, "C18", fl);
    p.backend = Backend::Faulty;
    p.queue = 1000;
    p.op_bound_ms = 20_000_000;
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (3, 40));
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[0, 0, 2000]);
    t.p_share = *r.pick(&[0, 3000]);
    t.p_cancel = *r.pick(&[0, 0, 1500]);
    t.ops = (3, 9);
    let msgs = ["CachePoW", "CacheResult", "RetrivePoW", "AddVisitor", "VerifyCaptchaResult"];
    let mut cls = if fl == "one" {
        // each step of one round trip with one fault
        let site = t.sites[0].clone();
        let mut ops = vec![];
        for k in 0..r.range(2, 4) as usize {
            if r.chance(7000) {
                ops.push(Op::Fault(FaultOp {
                    msg: r.pick(&msgs).to_string(),
                    n: 1,
                    act: fact(r),
                }));
            }
            ops.extend(trip(&site, 10 + k, &ip(k)));
        }
        vec![cl(ops, 0)]
    } else if fl == "race" {
        // many calls at once, some of them hit
        let mut v = vec![];
        for k in 0..r.range(3, 8) as usize {
            let s = r.pick(&t.sites).clone();
            let mut ops = trip(&s, 10 + k, &ip(r.below(4)));
            if r.chance(5000) {
                ops.insert(1, Op::At { us: 60_000 });
            }
            if r.chance(5000) {
                ops.insert(0, Op::At { us: 10_000 });
            }
            v.push(cl(ops, if r.chance(6000) { k % 4 } else { 0 }));
        }
        v
    } else {
        traffic(r, &t)
    };
    if fl != "one" {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            if r.chance(6000) {
                ops.push(Op::Sleep {
                    us: *r.pick(&[1, 1000, 10_000, 40_000]),
                });
            }
            ops.push(Op::Fault(FaultOp {
                msg: r.pick(&msgs).to_string(),
                n: if fl == "storm" { r.range(1, 8) as u32 } else { 1 },
                act: fact(r),
            }));
        }
        cls.insert(0, cl(ops, r.below(2)));
    }
    p.sites.push(SiteCfg {
        order: 0,
        name: "fresh".into(),
        dur: 60,
        levels: vec![(5, 3)],
    });
    let mut post = vec![
        Op::Quiet { on: true },
        Op::Sleep { us: 3_000_000 },
        Op::AddSite {
            cfg: ns,
            name: None,
            cancel: None,
        },
    ];
    post.extend(trip("fresh", 700, "10.9.9.9"));
    p.epochs = vec![epoch((0..ns).collect(), cls, post)];
    p
}

/// give every left a right of its own
pub fn matching(edges: &[Vec<usize>], rights: usize) -> Option<usize> {
    let mut owner = vec![usize::MAX; rights];
    fn go(l: usize, edges: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        for &r in edges[l].iter() {
            if seen[r] {
                continue;
            }
            seen[r] = true;
            if owner[r] == usize::MAX || go(owner[r], edges, owner, seen) {
                owner[r] = l;
                return true;
            }
        }
        false
    }
    for l in 0..edges.len() {
        let mut seen = vec![false; rights];
        if !go(l, edges, &mut owner, &mut seen) {
            return Some(l);
        }
    }
    None
}

fn check18(cx: &mut Cx) {
    cx.no_stuck(&["get_pow", "verify", "validate", "add_site", "visit"], "stuck");
    if cx.abort.is_some() {
        return;
    }
    let comp: Vec<&CompEv> = cx.h.comp.iter().collect();
    let within = |c: &CompEv, e: &Ev| c.seq > e.s0 && c.seq < e.s1;
    let mut hit = 0;
    // ---- get_pow
    let mut left: Vec<&Ev> = vec![];
    let mut edges: Vec<Vec<usize>> = vec![];
    let mut bad: Vec<&Ev> = vec![];
    let mut bad_edges: Vec<Vec<usize>> = vec![];
    for e in cx.h.evs.iter() {
        let Op::GetPow { site, .. } = &e.op else { continue };
        match &e.r {
            R::Pow { string, diff, .. } => {
                let saved: Vec<&&CompEv> = comp.iter().filter(|c| c.what == "CachePoW" && c.args[0] == *string).collect();
                let Some(c) = saved.iter().find(|c| c.ok && within(c, e)) else {
                    cx.v(
                        "pow-unconfirmed",
                        format!("call #{}: challenge {string:?} handed out, the cache did not acknowledge it ({} messages)", e.id, saved.len()),
                    );
                    return;
                };
                if c.args[3] != *site || c.args[1] != diff.to_string() {
                    cx.v(
                        "pow-stored-differently",
                        format!("call #{}: challenge for {site:?} at {diff} stored as {:?}", e.id, c.args),
                    );
                    return;
                }
                let want = format!("{}|{}", c.args[1], c.args[2]);
                let ed: Vec<usize> = comp
                    .iter()
                    .enumerate()
                    .filter(|(_, v)| v.what == "AddVisitor" && v.args[0] == *site && v.ok && v.reply == want && v.seq < c.seq && within(v, e))
                    .map(|x| x.0)
                    .collect();
                left.push(e);
                edges.push(ed);
            }
            R::NoPow | R::Err(_) => {
                let ed: Vec<usize> = comp
                    .iter()
                    .enumerate()
                    .filter(|(_, v)| {
                        within(v, e)
                            && (v.what == "AddVisitor" && v.args[0] == *site && (!v.ok || v.reply == "none")
                                || v.what == "CachePoW" && v.args[3] == *site && !v.ok)
                    })
                    .map(|x| x.0)
                    .collect();
                hit += 1;
                bad.push(e);
                bad_edges.push(ed);
            }
            _ => {}
        }
    }
    if let Some(l) = matching(&edges, comp.len()) {
        let e = left[l];
        cx.v(
            "pow-not-masters",
            format!("call #{}: the master reported no such difficulty and duration for it: {:?}", e.id, e.r),
        );
    }
    if let Some(l) = matching(&bad_edges, comp.len()) {
        let e = bad[l];
        cx.v(
            "unaffected-failed",
            format!("call #{}: get_pow gave {:?}, no component failed it", e.id, e.r),
        );
    }
    // ---- verify_pow
    let issued = cx.issued();
    let mut bad: Vec<&Ev> = vec![];
    let mut bad_edges: Vec<Vec<usize>> = vec![];
    for e in cx.verifies() {
        let s = e.sub.as_ref().unwrap();
        let stored = comp.iter().find(|c| c.what == "CachePoW" && c.args[0] == s.string && c.effect);
        match &e.r {
            R::Pass { token, .. } => {
                let c = comp.iter().find(|c| c.what == "CacheResult" && c.args[0] == *token && c.ok && within(c, e));
                let Some(c) = c else {
                    cx.v(
                        "token-unconfirmed",
                        format!("call #{}: token {token:?} handed out, the cache did not acknowledge it", e.id),
                    );
                    return;
                };
                let dur = stored.map(|x| x.args[2].clone()).unwrap_or_default();
                if c.args[1] != s.key || c.args[2] != dur {
                    cx.v(
                        "token-stored-differently",
                        format!("call #{}: token for {:?} ({dur} s) stored as {:?}", e.id, s.key, c.args),
                    );
                    return;
                }
            }
            R::Err(x) => {
                let Some(g) = issued.get(&s.string) else { continue };
                if !correct(cx.p, e, g) {
                    continue;
                }
                // what the cache said to this call; other submissions of the same string may mix in
                let ed: Vec<usize> = comp
                    .iter()
                    .enumerate()
                    .filter(|(_, v)| {
                        within(v, e)
                            && (v.what == "RetrivePoW" && v.args[0] == s.string && (!v.ok || v.reply == "none")
                                || v.what == "CacheResult" && v.args[1] == s.key && !v.ok)
                    })
                    .map(|x| x.0)
                    .collect();
                hit += 1;
                let _ = x;
                bad.push(e);
                bad_edges.push(ed);
            }
            _ => {}
        }
    }
    if let Some(l) = matching(&bad_edges, comp.len()) {
        let e = bad[l];
        cx.v(
            "unaffected-failed",
            format!("call #{}: a correct proof got {:?}, no component failed it", e.id, e.r),
        );
    }
    // ---- validate
    for e in cx.validates() {
        let Op::Validate { key, .. } = &e.op else { continue };
        let t = e.arg.clone().unwrap_or_default();
        let said: Vec<&&CompEv> = comp
            .iter()
            .filter(|c| c.what == "VerifyCaptchaResult" && c.args[0] == t && c.args[1] == *key && within(c, e))
            .collect();
        let fine = match &e.r {
            R::Bool(true) => said.iter().any(|c| c.ok && c.reply == "true"),
            R::Bool(false) => said.iter().any(|c| c.ok && c.reply != "true"),
            R::Err(_) => {
                hit += 1;
                said.iter().any(|c| !c.ok)
            }
            _ => true,
        };
        if !fine {
            cx.v(
                "validate-differs",
                format!("call #{}: validate gave {:?}, the cache said {:?}", e.id, e.r, said.iter().map(|c| &c.reply).collect::<Vec<_>>()),
            );
        }
    }
    let a = served(cx, "fresh", 700, "not-healed");
    cx.nontrivial = a && hit > 0 && comp.iter().any(|c| !c.ok || !c.effect);
}

// ------------------------------------------------------------------ C19

fn gen19(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 200 == 77 { "bulk" } else { ["mint", "restart", "traffic", "faulty"][(i % 4) as usize] };
    let mut p = base(r, "C19", fl);
    p.queue = 1000;
    p.op_bound_ms = 20_000_000;
    if fl == "bulk" {
        return bulk19(r, p);
    }
    p.backend = match (fl, r.below(6)) {
        ("faulty", _) => Backend::Faulty,
        (_, 0) => Backend::Redis,
        (_, 1) => Backend::Mixed,
        _ => Backend::Embedded,
    };
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (20, 60));
    for s in p.sites.iter_mut() {
        s.levels = vec![(1, 2), (100, 3)];
    }
    let ne = if fl == "restart" { r.range(2, 3) } else { 1 };
    for e in 0..ne as usize {
        let mut cls = vec![];
        if fl == "traffic" {
            let mut t = Traffic::new(r, &p.sites);
            t.p_bad = 500;
            cls = traffic(r, &t);
        } else {
            for c in 0..r.range(1, 5) as usize {
                let mut ops = vec![];
                for k in 0..r.range(1, 5) as usize {
                    let slot = e * 100 + c * 10 + k;
                    let site = r.pick(&p.sites).name.clone();
                    if r.chance(4000) {
                        ops.push(Op::At {
                            us: r.range(1, 3) * 10_000,
                        });
                    }
                    if fl == "faulty" && r.chance(3000) {
                        ops.push(Op::Fault(FaultOp {
                            msg: r.pick(&["CachePoW", "CacheResult"]).to_string(),
                            n: 1,
                            act: fact(r),
                        }));
                    }
                    if r.chance(2000) {
                        let n = r.range(2, 12) as usize;
                        ops.push(Op::Par {
                            ops: (0..n)
                                .map(|j| Op::GetPow {
                                    site: site.clone(),
                                    out: 400 + e * 200 + c * 40 + k * 8 + j % 8,
                                    cancel: None,
                                })
                                .collect(),
                        });
                    } else {
                        let mut tr = trip(&site, slot, &ip(r.below(4)));
                        if r.chance(7000) {
                            tr.pop();
                        }
                        ops.extend(tr);
                    }
                }
                cls.push(cl(ops, if r.chance(7000) { c } else { 0 }));
            }
        }
        let mut ep = epoch((0..ns).collect(), cls, vec![]);
        if fl == "restart" && r.chance(4000) {
            ep.crash_at_us = Some(r.range(1000, 60_000));
        }
        p.epochs.push(ep);
    }
    p
}

/// very many strings, minted on several threads
fn bulk19(r: &mut Rng, mut p: Plan) -> Plan {
    p.backend = if r.chance(2000) { Backend::Mixed } else { Backend::Embedded };
    p.pol.p_stall = 0;
    p.pol.p_defer = 0;
    p.pol.work_us = 0;
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (600, 4000));
    for s in p.sites.iter_mut() {
        s.levels = vec![(1, 2), (100_000, 3)];
    }
    let mut cls = vec![];
    let ncl = r.range(1, 8) as usize;
    let n = r.range(60, 2400) as usize / ncl + 1;
    for c in 0..ncl {
        let mut ops = vec![];
        let mut par = vec![];
        let share = *r.pick(&[0, 1000, 5000]);
        for k in 0..n {
            let site = r.pick(&p.sites).name.clone();
            let slot = c * 3000 + k;
            if r.chance(share) {
                ops.extend(trip(&site, slot, &ip(c)));
            } else if r.chance(3000) {
                par.push(Op::GetPow { site, out: slot, cancel: None });
                if par.len() > 10 {
                    ops.push(Op::Par { ops: std::mem::take(&mut par) });
                }
            } else {
                ops.push(Op::GetPow { site, out: slot, cancel: None });
            }
        }
        cls.push(cl(ops, c));
    }
    p.epochs = vec![epoch((0..ns).collect(), cls, vec![])];
    p
}

fn check19(cx: &mut Cx) {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut found: Vec<(String, String)> = vec![];
    if cx.p.backend == Backend::Faulty {
        // everything that was minted, whether or not its caller got it
        for c in cx.h.comp.iter() {
            if c.reply != "stalled" && (c.what == "CachePoW" || c.what == "CacheResult") {
                found.push((c.args[0].clone(), format!("{} message {}", c.what, c.seq)));
            }
        }
    } else {
        for e in cx.h.evs.iter() {
            match &e.r {
                R::Pow { string, .. } => found.push((string.clone(), format!("challenge of call #{}", e.id))),
                R::Pass { token, .. } => found.push((token.clone(), format!("token of call #{}", e.id))),
                _ => {}
            }
        }
    }
    cx.nontrivial = found.len() > 1;
    for (s, w) in found {
        if let Some(o) = seen.insert(s.clone(), w.clone()) {
            cx.v("repeated", format!("{s:?} is the {o} and the {w}"));
            return;
        }
    }
    cx.strings = seen.into_keys().collect();
}
