//! C15, C16, C20: the Redis-backed cache and master over the simulated server.
use super::gen::*;
use super::pass::{genuine, lifetimes, single_use, token_use};
use super::robust::{matching, no_panics, served, ALL};
use super::*;
use crate::hist::CompEv;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "whatever Redis does, calls end with an answer or an error in bounded time, and it heals",
            gen: gen15,
            check: check15,
            pair: false,
        },
        Prop {
            id: "C16",
            rule: "over a shared Redis, one pass per challenge and one use per token, across faults and restarts",
            gen: gen16,
            check: check16,
            pair: false,
        },
        Prop {
            id: "C20",
            rule: "what the Redis registry acknowledges is what Redis did",
            gen: gen20,
            check: check20,
            pair: false,
        },
    ]
}

fn cl(ops: Vec<Op>, thread: usize, sys: usize) -> Client {
    Client {
        thread,
        sys,
        start_us: 0,
        ops,
    }
}

const CMDS: &[&str] = &[
    "ADD_VISITOR",
    "ADD_CHALLENGE",
    "GET_CHALLENGE",
    "ADD_CAPTCHA",
    "RENAME_CAPTCHA",
    "DELETE_CAPTCHA",
    "CAPTCHA_EXISTS",
    "SET",
    "DEL",
];

/// what a Redis server may answer to a command it does not execute
fn error_text(r: &mut Rng) -> String {
    r.pick(&[
        "ERR injected",
        "OOM command not allowed when used memory > 'maxmemory'.",
        "READONLY You can't write against a read only replica.",
        "LOADING Redis is loading the dataset in memory",
        "MOVED 3999 127.0.0.1:6381",
        "",
        "ERR unknown command",
        "ERR no such key",
        "ERR captcha not found",
        "ERR challenge not found",
        "BUSYKEY Target key name already exists.",
        "BUSY Redis is busy running a script.",
        "WRONGTYPE Operation against a key holding the wrong kind of value",
        "NOAUTH Authentication required.",
        "NOPERM this user has no permissions to run this command",
        "MISCONF Redis is configured to save RDB snapshots",
        "MASTERDOWN Link with MASTER is down",
        "NOREPLICAS Not enough good replicas to write.",
        "TRYAGAIN Multiple keys request during rehashing of slot",
        "CLUSTERDOWN The cluster is down",
        "EXECABORT Transaction discarded",
        "already exists",
        "key exists",
        "Error: does not exist",
    ])
    .to_string()
}

fn ract(r: &mut Rng) -> RAct {
    match r.below(16) {
        0..=2 => RAct::CutBefore,
        3..=5 => RAct::CutAfter,
        6 | 7 => RAct::Torn,
        8 => RAct::Trickle,
        9 | 10 => RAct::Delay {
            ms: *r.pick(&[1, 40, 300, 490, 510, 900, 4000]),
        },
        11 => RAct::Error { msg: error_text(r) },
        12 | 13 => RAct::Garbage { kind: r.below(9) as u8 },
        _ => RAct::Ignore,
    }
}

fn arm(r: &mut Rng, any: bool) -> Op {
    Op::Redis(RedisOp::Arm {
        cmd: if any && r.chance(5000) { None } else { Some(r.pick(CMDS).to_string()) },
        n: if r.chance(7000) { 1 } else { r.range(2, 5) as u32 },
        act: ract(r),
    })
}

/// how the server misbehaves over about a second
fn chaos(r: &mut Rng, n: u64, data_loss: bool) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..n {
        if r.chance(7000) {
            ops.push(Op::Sleep {
                us: *r.pick(&[1, 100, 1000, 5000, 20_000, 60_000, 300_000]),
            });
        }
        match r.below(12) {
            0..=6 => ops.push(arm(r, true)),
            7 => {
                ops.push(Op::Redis(RedisOp::Down));
                ops.push(Op::Sleep {
                    us: *r.pick(&[100, 20_000, 400_000, 3_000_000]),
                });
                ops.push(Op::Redis(RedisOp::Up));
            }
            8 | 9 => ops.push(Op::Redis(RedisOp::Reset)),
            10 => ops.push(Op::Redis(RedisOp::Restart {
                keep: !data_loss || r.chance(7000),
            })),
            _ => ops.push(Op::Redis(RedisOp::Freeze {
                ms: *r.pick(&[1, 50, 450, 700, 3000]),
            })),
        }
    }
    ops
}

/// Redis is a cluster, whose slots may change hands
pub fn in_cluster(r: &mut Rng, p: &mut Plan, cls: &mut Vec<Client>, moves: bool) {
    p.cluster = r.range(1, 3) as usize;
    p.op_bound_ms = p.op_bound_ms.max(600_000);
    if !moves && p.flavor != "modules" && r.chance(2000) {
        // the nodes have lost touch with each other
        let k = r.below(3);
        let ops = vec![
            Op::Sleep {
                us: r.range(0, 100_000),
            },
            Op::Redis(RedisOp::Arm {
                cmd: None,
                n: 100_000,
                act: RAct::Error {
                    msg: ["CLUSTERDOWN The cluster is down", "CLUSTERDOWN Hash slot not served", "TRYAGAIN Multiple keys request during rehashing of slot"][k].into(),
                },
            }),
        ];
        cls.push(cl(ops, 0, 0));
    }
    if moves && p.cluster > 1 && r.chance(6000) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::Sleep {
                us: *r.pick(&[100, 5000, 40_000, 300_000, 2_000_000]),
            });
            ops.push(Op::Redis(RedisOp::Reshard));
        }
        cls.push(cl(ops, 0, 0));
    }
}

fn fresh(name: &str) -> SiteCfg {
    SiteCfg {
        order: 0,
        name: name.into(),
        dur: 60,
        levels: vec![(5, 3)],
    }
}

/// everything is repaired; an honest client gets through after a few attempts
fn healing(p: &mut Plan) -> Vec<Op> {
    let mut post = vec![
        Op::Quiet { on: true },
        Op::Redis(RedisOp::Arm {
            cmd: None,
            n: 0,
            act: RAct::Ignore,
        }),
        Op::Redis(RedisOp::Up),
    ];
    if p.epochs.iter().flat_map(|e| e.clients.iter()).flat_map(|c| c.ops.iter()).any(|o| {
        matches!(o, Op::Redis(RedisOp::Arm { act: RAct::Ignore, .. }))
    }) {
        // connections that lead nowhere have been given up by the system in the meantime
        post.push(Op::Redis(RedisOp::Reset));
    }
    post.push(Op::Sleep { us: 3_000_000 });
    for k in 0..4 {
        let name = if k == 3 { "fresh".to_string() } else { format!("fresh{k}") };
        p.sites.push(fresh(&name));
        post.push(Op::AddSite {
            cfg: p.sites.len() - 1,
            name: None,
            cancel: None,
        });
        post.extend(trip(&name, 700 + if k == 3 { 0 } else { k + 1 }, "10.9.9.9"));
        if k < 3 {
            post.push(Op::Sleep { us: 5_000_000 });
        }
    }
    post
}

// ------------------------------------------------------------------ C15

fn gen15(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 5 {
        _ if i % 50 == 49 => "modules",
        k => ["one", "chaos", "outage", "start", "hold"][k as usize],
    };
    let mut p = base(r, "C15", fl);
    p.backend = if r.chance(7500) { Backend::Redis } else { Backend::Mixed };
    p.queue = 1000;
    p.op_bound_ms = 120_000;
    p.pol.work_us = some_work(r, p.pol.work_us);
    let ns = r.range(1, 2) as usize;
    p.sites = sites(r, ns, (3, 40));
    let mut t = Traffic::new(r, &p.sites);
    t.clients = r.range(1, 4) as usize;
    t.p_bad = *r.pick(&[0, 1000]);
    t.p_cancel = *r.pick(&[0, 0, 1500]);
    let mut cls = vec![];
    match fl {
        "one" => {
            // each step of a round trip may meet one fault
            let site = p.sites[0].name.clone();
            let mut ops = vec![];
            for k in 0..r.range(1, 3) as usize {
                for o in trip(&site, 10 + k, &ip(k)) {
                    if r.chance(4000) {
                        ops.push(Op::Redis(RedisOp::Arm {
                            cmd: None,
                            n: 1,
                            act: ract(r),
                        }));
                    }
                    ops.push(o);
                }
                if r.chance(4000) {
                    ops.push(arm(r, true));
                    ops.push(match r.below(4) {
                        0 => Op::AddSite {
                            cfg: 0,
                            name: None,
                            cancel: None,
                        },
                        1 => Op::Rename {
                            from: site.clone(),
                            to: site.clone(),
                            cancel: None,
                        },
                        2 => Op::RExists { site: site.clone() },
                        _ => Op::Visit {
                            site: site.clone(),
                            cancel: None,
                        },
                    });
                }
            }
            cls.push(cl(ops, r.below(2), 0));
        }
        "outage" => {
            // now and then for longer than any call may take
            let long = r.chance(1500);
            let k = if long { 20 } else { 1 };
            let ops = vec![
                Op::Sleep { us: r.range(0, 60_000) },
                Op::Redis(if r.chance(5000) { RedisOp::Down } else { RedisOp::Freeze { ms: k * r.range(100, 20_000) } }),
                Op::Sleep {
                    us: if long { r.range(200_000_000, 400_000_000) } else { r.range(100_000, 20_000_000) },
                },
                Op::Redis(RedisOp::Up),
            ];
            cls.push(cl(ops, 0, 0));
            t.pause_us = *r.pick(&[1000, 50_000, 2_000_000]);
            cls.extend(traffic(r, &t));
        }
        "modules" => {
            p.pol.p_stall = 0;
            let mut ops = vec![];
            for _ in 0..r.range(2, 5) {
                let list: &[&str] = match r.below(6) {
                    0 => &[],
                    1 => &["bf"],
                    2 => &["bf", "mcaptcha_cache"],
                    3 => &["search", "mcaptcha_cache", "bf"],
                    _ => &["mcaptcha_cache"],
                };
                ops.push(Op::Redis(RedisOp::Modules {
                    list: list.iter().map(|x| x.to_string()).collect(),
                    lacks: if r.chance(5000) { Some(r.pick(&crate::redis_srv::MODULE_CMDS).to_string()) } else { None },
                }));
                ops.push(Op::RConnect);
            }
            cls.push(cl(ops, r.below(2), 0));
        }
        "start" => {
            p.redis_down_at_start = true;
            let n = r.range(0, 3);
            let ops = chaos(r, n, true);
            cls.push(cl(ops, 0, 0));
            cls.extend(traffic(r, &t));
        }
        "hold" => {
            // one command is swallowed while others queue up behind it
            let mut ops = vec![];
            for _ in 0..r.range(1, 3) {
                ops.push(Op::Sleep { us: r.range(0, 30_000) });
                ops.push(Op::Redis(RedisOp::Arm {
                    cmd: None,
                    n: r.range(1, 6) as u32,
                    act: if r.chance(5000) { RAct::Ignore } else { RAct::Delay { ms: r.range(100, 5000) } },
                }));
            }
            cls.push(cl(ops, 0, 0));
            t.p_sync = 8000;
            cls.extend(traffic(r, &t));
        }
        _ => {
            let n = r.range(2, 8);
            let ops = chaos(r, n, true);
            cls.push(cl(ops, 0, 0));
            cls.extend(traffic(r, &t));
        }
    }
    if fl != "one" && r.chance(4500) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            ops.push(Op::Sleep {
                us: *r.pick(&[1, 1000, 50_000, 200_000]),
            });
            let site = r.pick(&t.sites).clone();
            ops.push(match r.below(12) {
                8 | 9 => {
                    let to = if r.chance(3000) { site.clone() } else { "moved".to_string() };
                    let back = r.chance(5000);
                    Op::Rename {
                        from: if back { to.clone() } else { site.clone() },
                        to: if back { site } else { to },
                        cancel: None,
                    }
                }
                10 | 11 => Op::Remove {
                    site: if r.chance(5000) { site } else { "moved".into() },
                    cancel: None,
                },
                0 | 1 => Op::RConnect,
                2 => Op::RPing,
                3 => Op::RExists { site },
                4 => Op::RVisitors { site },
                5 => Op::Visit { site, cancel: None },
                6 => Op::AddSite {
                    cfg: r.below(ns),
                    name: None,
                    cancel: None,
                },
                _ => Op::Snapshot { out: 0 },
            });
        }
        cls.push(cl(ops, r.below(2), 0));
    }
    if r.chance(2500) {
        // slots stay where they are: a client that has lost a connection does not learn of it
        in_cluster(r, &mut p, &mut cls, false);
    }
    p.epochs = vec![epoch((0..ns).collect(), cls, vec![])];
    if fl == "modules" {
        p.backend = Backend::Redis;
        return p;
    }
    p.epochs[0].post = healing(&mut p);
    p
}

const RALL: &[&str] = &["r_exists", "r_visitors", "r_del_challenge", "r_del_token", "r_ping", "r_connect"];

fn check15(cx: &mut Cx) {
    no_panics(cx);
    cx.no_stuck(ALL, "stuck");
    cx.no_stuck(RALL, "stuck");
    for e in cx.h.evs.iter() {
        if !matches!(e.op, Op::RConnect) {
            continue;
        }
        match &e.r {
            R::Err(x) if x == "panic" => cx.v("connect-panic", format!("call #{}: building the backends panicked", e.id)),
            R::Unit if e.client == 1000 => cx.v(
                "connect-unreachable",
                format!("call #{}: building the backends succeeded while Redis was unreachable", e.id),
            ),
            _ => {}
        }
    }
    // does the server offer what the library needs?
    if cx.p.flavor == "modules" {
        let mut offers = true;
        for e in cx.h.evs.iter() {
            match (&e.op, &e.r) {
                (Op::Redis(RedisOp::Modules { list, lacks }), _) => {
                    offers = list.iter().any(|m| m == "mcaptcha_cache") && lacks.is_none()
                }
                (Op::RConnect, R::Unit) if !offers => cx.v(
                    "connect-lacking",
                    format!("call #{}: building the backends succeeded though Redis lacks the module or a command", e.id),
                ),
                (Op::RConnect, R::Err(x)) if offers && x != "panic" => cx.v(
                    "connect-refused",
                    format!("call #{}: building the backends gave {x}, Redis has the module and its commands", e.id),
                ),
                _ => {}
            }
        }
        cx.nontrivial = true;
        return;
    }
    genuine(cx);
    token_use(cx);
    if cx.abort.is_some() {
        return;
    }
    let healed = served(cx, "fresh", 700, "not-healed");
    let hit = cx.h.comp.iter().any(|c| !c.ok) || cx.h.faults.keys().any(|k| k.starts_with("redis"));
    cx.nontrivial = healed && (hit || cx.p.redis_down_at_start);
}

// ------------------------------------------------------------------ C16

fn gen16(r: &mut Rng, i: u64) -> Plan {
    let fl = ["two", "restart", "faults", "lost-reply", "mix", "late"][(i % 6) as usize];
    let mut p = base(r, "C16", fl);
    p.backend = Backend::Redis;
    p.queue = 1000;
    p.op_bound_ms = 120_000;
    if fl != "mix" {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = some_work(r, p.pol.work_us);
    p.instances = if fl == "two" || r.chance(5000) { 2 } else { 1 };
    if fl == "restart" && r.chance(3000) {
        p.backend = Backend::Mixed;
        p.instances = 1;
    }
    let ns = r.range(1, 3) as usize;
    let d = if fl != "late" && r.chance(6000) { (20, 60) } else { (1, 4) };
    p.sites = sites(r, ns, d);
    if fl == "late" {
        return late16(r, p);
    }
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[0, 1000, 3000]);
    t.p_share = 8000;
    t.clients = r.range(2, 5) as usize;
    let epochs = match fl {
        "restart" | "mix" => r.range(2, 3) as usize,
        _ => 1,
    };
    let inst = p.instances;
    for e in 0..epochs {
        let mut cls = vec![];
        if fl == "two" || r.chance(4000) {
            // the same challenges and tokens presented to all instances at the same time
            let m = r.range(1, 3) as usize;
            for k in 0..m {
                let site = r.pick(&t.sites).clone();
                let s = 60 + k;
                let mut ops = vec![];
                if e == 0 || r.chance(5000) {
                    ops.push(Op::GetPow {
                        site: site.clone(),
                        out: s,
                        cancel: None,
                    });
                }
                cls.push(cl(ops, k % 2, r.below(inst)));
                for j in 0..r.range(2, 4) as usize {
                    let jit = if r.chance(3000) { r.range(0, 500) } else { 0 };
                    let mut ops = vec![Op::At { us: 40_000 + jit }];
                    if r.chance(7000) {
                        ops.push(Op::Verify {
                            ch: s,
                            raw: None,
                            work: Work::Honest,
                            key: if r.chance(1000) { Some(r.pick(&t.sites).clone()) } else { None },
                            ip: ip(r.below(3)),
                            out: s,
                            cancel: cancel(r, 600),
                        });
                    }
                    for _ in 0..r.range(1, 2) {
                        ops.push(Op::At { us: 90_000 + jit });
                        ops.push(Op::Validate {
                            tok: tok(r, s),
                            key: if r.chance(8000) { site.clone() } else { r.pick(&t.sites).clone() },
                            cancel: cancel(r, 600),
                        });
                    }
                    cls.push(cl(ops, j % 4, j % inst));
                }
            }
        }
        if fl != "two" || r.chance(3000) {
            let mut c = traffic(r, &t);
            for x in c.iter_mut() {
                x.sys = r.below(inst);
            }
            cls.extend(c);
        }
        match fl {
            "faults" | "mix" => {
                let n = r.range(1, 5);
                let ops = chaos(r, n, fl == "mix");
                cls.push(cl(ops, 0, 0));
            }
            "lost-reply" => {
                let mut ops = vec![];
                for _ in 0..r.range(1, 4) {
                    ops.push(Op::Sleep { us: r.range(0, 60_000) });
                    ops.push(Op::Redis(RedisOp::Arm {
                        cmd: Some(r.pick(&["GET_CHALLENGE", "SET", "DEL", "ADD_CHALLENGE"]).to_string()),
                        n: r.range(1, 2) as u32,
                        act: match r.below(5) {
                            0 => RAct::CutAfter,
                            1 => RAct::Torn,
                            4 => RAct::Garbage { kind: *r.pick(&[0, 7, 8, 1, 3]) },
                            2 => RAct::Delay { ms: r.range(480, 900) },
                            _ => RAct::CutBefore,
                        },
                    }));
                }
                cls.push(cl(ops, 0, 0));
            }
            _ => {}
        }
        if matches!(fl, "two" | "restart") && e == 0 && r.chance(2500) {
            in_cluster(r, &mut p, &mut cls, true);
        }
        let mut ep = epoch((0..ns).collect(), cls, vec![]);
        if e + 1 < epochs && r.chance(7000) {
            ep.crash_at_us = Some(r.range(1000, 150_000));
        }
        if e + 1 == epochs {
            // what is left over from before is used now
            for _ in 0..r.range(0, 6) {
                let s = if r.chance(5000) { 60 + r.below(3) } else { r.below(t.slots()) };
                if r.chance(5000) {
                    ep.post.push(Op::Verify {
                        ch: s,
                        raw: None,
                        work: Work::Honest,
                        key: None,
                        ip: ip(1),
                        out: s,
                        cancel: None,
                    });
                } else {
                    ep.post.push(Op::Validate {
                        tok: Tok::Slot(s),
                        key: r.pick(&t.sites).clone(),
                        cancel: None,
                    });
                }
            }
        }
        p.epochs.push(ep);
    }
    p
}

/// something goes wrong halfway; what is left over is presented after its lifetime, and again
fn late16(r: &mut Rng, mut p: Plan) -> Plan {
    let inst = p.instances;
    let ns = p.sites.len();
    let mut cls = vec![];
    let names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let nc = r.range(1, 3) as usize;
    for c in 0..nc {
        let mut ops = vec![];
        for k in 0..r.range(1, 4) as usize {
            let s = c * 4 + k;
            if c == 0 && r.chance(6000) {
                let cmd = *r.pick(&[
                    "SET",
                    ">SET",
                    ">SET",
                    "DEL",
                    ">DEL",
                    ">GET",
                    "GET_CHALLENGE",
                    ">GET_CHALLENGE",
                    "ADD_CHALLENGE",
                    ">ADD_CHALLENGE",
                    ">EXISTS",
                    "EXPIRE",
                ]);
                ops.push(Op::Redis(RedisOp::Arm {
                    cmd: Some(cmd.into()),
                    n: 1,
                    act: match r.below(6) {
                        0 => RAct::CutBefore,
                        1 => RAct::CutAfter,
                        2 => RAct::Torn,
                        3 => RAct::Garbage { kind: *r.pick(&[0, 1, 7]) },
                        _ => RAct::Error { msg: error_text(r) },
                    },
                }));
            }
            let site = r.pick(&names).clone();
            let t = trip(&site, s, &ip(k));
            let n = r.range(1, 3) as usize;
            ops.extend(t.into_iter().take(n));
            if n == 3 && r.chance(5000) {
                ops.push(Op::Validate {
                    tok: Tok::Slot(s),
                    key: site.clone(),
                    cancel: None,
                });
            }
        }
        cls.push(cl(ops, c % 3, r.below(inst)));
    }
    let mut post = vec![];
    let again = |r: &mut Rng, post: &mut Vec<Op>| {
        for s in 0..nc * 4 {
            if r.chance(5000) {
                post.push(Op::Verify {
                    ch: s,
                    raw: None,
                    work: Work::Honest,
                    key: None,
                    ip: ip(1),
                    // keep the token of the first attempt
                    out: s + 50,
                    cancel: None,
                });
            }
            for n in names.iter() {
                post.push(Op::Validate {
                    tok: Tok::Slot(s),
                    key: n.clone(),
                    cancel: None,
                });
            }
        }
    };
    if r.chance(4000) {
        again(r, &mut post);
    }
    post.push(Op::Sleep { us: 5_000_000 });
    again(r, &mut post);
    p.epochs = vec![epoch((0..ns).collect(), cls, post)];
    if r.chance(3000) {
        // the library is restarted in between
        let post = std::mem::take(&mut p.epochs[0].post);
        p.epochs.push(epoch(vec![], vec![], post));
    }
    p
}

/// did Redis misbehave in this run?
fn healthy(cx: &Cx) -> bool {
    !cx.h.faults.keys().any(|k| k.starts_with("redis")) && cx.p.pol.p_stall == 0 && cx.h.comp.iter().all(|c| c.ok)
}

fn check16(cx: &mut Cx) {
    single_use(cx);
    let a = cx.nontrivial;
    genuine(cx);
    token_use(cx);
    let b = cx.nontrivial;
    let must = healthy(cx);
    lifetimes(cx, must);
    cx.nontrivial = a || b;
}

// ------------------------------------------------------------------ C20

fn gen20(r: &mut Rng, i: u64) -> Plan {
    let fl = ["admin", "errors", "faults", "two"][(i % 4) as usize];
    let mut p = base(r, "C20", fl);
    p.backend = Backend::Redis;
    p.queue = 1000;
    p.op_bound_ms = 120_000;
    p.pol.p_stall = 0;
    p.instances = if fl == "two" || r.chance(2000) { 2 } else { 1 };
    let ns = r.range(2, 5) as usize;
    p.sites = sites(r, ns, (1, 60));
    if r.chance(2000) {
        p.sites[0].dur = *r.pick(&[1 << 33, 100_000_000, u64::MAX / 2, u64::MAX]);
    }
    if r.chance(2000) {
        let l = p.sites[0].levels.len() - 1;
        p.sites[0].levels[l] = (u32::MAX, u32::MAX);
    }
    if r.chance(1500) {
        let k = r.below(ns);
        let n = r.range(8, 80) as usize;
        let (mut t, mut d) = (0, 1);
        p.sites[k].levels = (0..n)
            .map(|_| {
                t += r.range(1, 3) as u32;
                d += r.range(1, 3) as u32;
                (t, d)
            })
            .collect();
        p.sites[k].dur = 4000;
    }
    let mut names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    names.truncate(r.range(1, ns as u64) as usize);
    names.push("new".into());
    if r.chance(1500) {
        names.push(r.pick(&["", "a b\r\nc", "\u{1F600}", "{}", "a:b:c"]).to_string());
    }
    let mut cls = vec![];
    for c in 0..r.range(1, 4) as usize {
        let mut ops = vec![];
        for k in 0..r.range(3, 10) as usize {
            let n = r.pick(&names).clone();
            let slot = c * 10 + k;
            if r.chance(2000) {
                ops.push(Op::Sleep {
                    us: r.range(1, 50_000),
                });
            }
            let cn = cancel(r, 500);
            match r.below(16) {
                0..=2 => ops.push(Op::AddSite {
                    cfg: r.below(ns),
                    name: if r.chance(7000) { Some(n) } else { None },
                    cancel: cn,
                }),
                3 => ops.push(Op::Remove { site: n, cancel: cn }),
                4 | 5 => ops.push(Op::Rename {
                    from: n,
                    to: r.pick(&names).clone(),
                    cancel: cn,
                }),
                6..=8 => ops.push(Op::Visit { site: n, cancel: cn }),
                9 => {
                    if fl == "faults" && r.chance(3000) {
                        ops.push(Op::Redis(RedisOp::Arm {
                            cmd: Some(r.pick(&["CAPTCHA_EXISTS", "CACHE.GET", "DEL", "ADD_VISITOR", "RENAME_CAPTCHA"]).to_string()),
                            n: 1,
                            act: RAct::Garbage { kind: r.below(9) as u8 },
                        }));
                    }
                    ops.push(Op::RExists { site: n })
                }
                10 => ops.push(Op::RVisitors { site: n }),
                11 | 12 => {
                    ops.push(Op::GetPow {
                        site: n.clone(),
                        out: slot,
                        cancel: None,
                    });
                    if r.chance(5000) {
                        ops.push(Op::RDelChallenge {
                            ch: slot,
                            key: if r.chance(2000) { Some(r.pick(&names).clone()) } else { None },
                        });
                    }
                    if p.sites.iter().all(|s| s.levels.iter().all(|l| l.1 < 1000)) {
                        ops.push(Op::Verify {
                            ch: slot,
                            raw: None,
                            work: if r.chance(2000) { Work::Weak(1) } else { Work::Honest },
                            key: None,
                            ip: ip(c),
                            out: slot,
                            cancel: None,
                        });
                        if r.chance(4000) {
                            ops.push(Op::RDelToken {
                                tok: slot,
                                key: if r.chance(3000) { r.pick(&names).clone() } else { n.clone() },
                            });
                        }
                        ops.push(Op::Validate {
                            tok: Tok::Slot(slot),
                            key: n,
                            cancel: None,
                        });
                    }
                }
                13 => ops.push(Op::RPing),
                14 if fl == "errors" || fl == "faults" => ops.push(if fl == "faults" {
                    arm(r, true)
                } else {
                    Op::Redis(RedisOp::Arm {
                        cmd: if r.chance(5000) { None } else { Some(r.pick(CMDS).to_string()) },
                        n: 1,
                        act: RAct::Error { msg: error_text(r) },
                    })
                }),
                _ => ops.push(Op::RVisitors { site: n }),
            }
        }
        let inst = p.instances;
        cls.push(cl(ops, c % 4, r.below(inst)));
    }
    if fl == "faults" {
        let n = r.range(1, 3);
        let ops = chaos(r, n, true);
        cls.push(cl(ops, 0, 0));
    } else if fl == "errors" {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::Sleep {
                us: r.range(1, 5_000),
            });
            ops.push(Op::Redis(RedisOp::Arm {
                cmd: Some(r.pick(CMDS).to_string()),
                n: r.range(1, 2) as u32,
                act: RAct::Error { msg: error_text(r) },
            }));
        }
        cls.push(cl(ops, 0, 0));
    }
    if matches!(fl, "admin" | "two") && r.chance(2500) {
        in_cluster(r, &mut p, &mut cls, true);
    }
    p.epochs = vec![epoch((0..ns.min(2)).collect(), cls, vec![])];
    p
}

fn same_json(got: &str, want: &serde_json::Value) -> bool {
    // fields Redis does not know about are none of its business
    fn sub(want: &serde_json::Value, got: &serde_json::Value) -> bool {
        match (want, got) {
            (serde_json::Value::Object(w), serde_json::Value::Object(g)) => {
                w.iter().all(|(k, v)| g.get(k).map_or(false, |x| sub(v, x)))
            }
            (serde_json::Value::Array(w), serde_json::Value::Array(g)) => {
                w.len() == g.len() && w.iter().zip(g).all(|(a, b)| sub(a, b))
            }
            _ => want == got,
        }
    }
    serde_json::from_str::<serde_json::Value>(got).map_or(false, |g| sub(want, &g))
}

fn check20(cx: &mut Cx) {
    cx.no_stuck(ALL, "stuck");
    cx.no_stuck(RALL, "stuck");
    no_panics(cx);
    let comp: Vec<&CompEv> = cx.h.comp.iter().filter(|c| c.what.starts_with("MCAPTCHA_CACHE.")).collect();
    let cmd = |c: &CompEv, n: &str| c.what[15..] == *n;
    let within = |c: &CompEv, e: &Ev| c.seq > e.s0 && c.seq < e.s1;
    // acknowledged by Redis, as far as Redis knows
    let acked = |c: &CompEv| c.effect && !c.reply.starts_with('-');
    let garbled = |c: &CompEv| c.reply == "garbage" || c.reply == "ignored" || !c.ok;
    let calm = healthy_errors(cx);
    // (call, commands that justify its answer, what it claims)
    let mut ok: Vec<(&Ev, Vec<usize>, String)> = vec![];
    let mut bad: Vec<(&Ev, Vec<usize>)> = vec![];
    let mut acks = 0;
    let find = |f: &dyn Fn(&CompEv) -> bool| -> Vec<usize> { (0..comp.len()).filter(|i| f(comp[*i])).collect() };
    for e in cx.h.evs.iter() {
        let name = e.arg.clone().unwrap_or_default();
        // what the command of this call looks like
        let mine: Box<dyn Fn(&CompEv) -> bool> = match &e.op {
            Op::AddSite { cfg, .. } => {
                let s = &cx.p.sites[*cfg];
                let lv: Vec<serde_json::Value> = s
                    .levels
                    .iter()
                    .map(|l| serde_json::json!({"visitor_threshold": l.0, "difficulty_factor": l.1}))
                    .collect();
                let want = serde_json::json!({"levels": lv, "duration": s.dur});
                Box::new(move |c| cmd(c, "ADD_CAPTCHA") && c.args.len() == 2 && c.args[0] == name && same_json(&c.args[1], &want))
            }
            Op::Rename { from, to, .. } => Box::new(move |c| cmd(c, "RENAME_CAPTCHA") && c.args == [from.clone(), to.clone()]),
            Op::Remove { site, .. } => Box::new(move |c| cmd(c, "DELETE_CAPTCHA") && c.args == [site.clone()]),
            Op::Visit { site, .. } | Op::GetPow { site, .. } => {
                Box::new(move |c| cmd(c, "ADD_VISITOR") && c.args == [site.clone()])
            }
            Op::RExists { site } => Box::new(move |c| cmd(c, "CAPTCHA_EXISTS") && c.args == [site.clone()]),
            Op::RVisitors { site } => Box::new(move |c| cmd(c, "GET") && c.args == [site.clone()]),
            _ => continue,
        };
        let all: Vec<usize> = find(&|c: &CompEv| mine(c) && within(c, e));
        let good = |f: &dyn Fn(&CompEv) -> bool| -> Vec<usize> { all.iter().copied().filter(|i| f(comp[*i])).collect() };
        let admin = matches!(e.op, Op::AddSite { .. } | Op::Rename { .. } | Op::Remove { .. });
        match &e.r {
            // a reply that is not a failure is all that is asked for
            R::Unit if admin => ok.push((e, good(&|c| acked(c) || c.reply == "garbage"), "done".into())),
            R::Visit { dur, diff } => {
                let want = format!("{{\"duration\":{dur},\"difficulty_factor\":{diff}}}");
                ok.push((e, good(&|c| acked(c) && c.reply == want), want.clone()));
            }
            R::Pow { diff, string, .. } => {
                let stored = comp.iter().find(|c| {
                    cmd(c, "ADD_CHALLENGE")
                        && acked(c)
                        && within(c, e)
                        && c.args.len() == 2
                        && same_json(&c.args[1], &serde_json::json!({"challenge": string, "difficulty": diff}))
                });
                let garbage = comp.iter().any(|c| cmd(c, "ADD_CHALLENGE") && c.reply == "garbage" && within(c, e));
                let Op::GetPow { site, .. } = &e.op else { continue };
                match stored {
                    None if garbage => {}
                    None => cx.v(
                        "challenge-not-stored",
                        format!("call #{}: challenge {string:?} at {diff} handed out, Redis did not acknowledge it", e.id),
                    ),
                    Some(c) => {
                        if c.args[0] != *site {
                            cx.v(
                                "challenge-not-stored",
                                format!("call #{}: challenge of {site:?} stored for {:?}", e.id, c.args[0]),
                            );
                        }
                        let dur = serde_json::from_str::<serde_json::Value>(&c.args[1])
                            .ok()
                            .and_then(|v| v["duration"].as_u64())
                            .unwrap_or(0);
                        let want = format!("{{\"duration\":{dur},\"difficulty_factor\":{diff}}}");
                        ok.push((e, good(&|c| acked(c) && c.reply == want), format!("stored with {want}")));
                    }
                }
            }
            R::Bool(b) if matches!(e.op, Op::RExists { .. }) => {
                let want = if *b { "0" } else { "1" };
                ok.push((e, good(&|c| acked(c) && c.reply == want), format!("{b}")));
            }
            R::Count(n) => ok.push((
                e,
                good(&|c| acked(c) && c.reply == n.to_string() || garbled(c) && [2, 7, u64::MAX].contains(n)),
                format!("{n} visitors"),
            )),
            R::Err(_) | R::NoVisit | R::NoPow | R::Absent => {
                let mut v = good(&|c| !acked(c) || !c.ok);
                if matches!(e.op, Op::GetPow { .. }) {
                    v.extend(find(&|c: &CompEv| {
                        cmd(c, "ADD_CHALLENGE") && within(c, e) && c.args[0] == comp_site(e) && (!acked(c) || !c.ok)
                    }));
                }
                bad.push((e, v));
            }
            _ => {}
        }
    }
    for (e, v, _) in ok.iter() {
        acks += !v.is_empty() as usize;
        let _ = e;
    }
    let edges: Vec<Vec<usize>> = ok.iter().map(|x| x.1.clone()).collect();
    if let Some(l) = matching(&edges, comp.len()) {
        let (e, _, what) = &ok[l];
        cx.v(
            "not-what-redis-did",
            format!(
                "call #{} {} reports {what}; Redis did no such thing for it",
                e.id,
                serde_json::to_string(&e.op).unwrap_or_default()
            ),
        );
    }
    if calm {
        let edges: Vec<Vec<usize>> = bad.iter().map(|x| x.1.clone()).collect();
        if let Some(l) = matching(&edges, comp.len()) {
            let e = bad[l].0;
            cx.v(
                "failure-invented",
                format!(
                    "call #{} {} gave {:?}; Redis reported no failure to it",
                    e.id,
                    serde_json::to_string(&e.op).unwrap_or_default(),
                    e.r
                ),
            );
        }
        // nothing changes that nobody asked for
        let mut wants: Vec<usize> = vec![];
        let mut edges: Vec<Vec<usize>> = vec![];
        for (i, c) in comp.iter().enumerate() {
            if !["ADD_CAPTCHA", "RENAME_CAPTCHA", "DELETE_CAPTCHA", "ADD_VISITOR"].iter().any(|n| cmd(c, n)) || !c.effect {
                continue;
            }
            wants.push(i);
            edges.push(
                cx.h.evs
                    .iter()
                    .filter(|e| {
                        // a call that was given up may still have its effect
                        c.seq > e.s0
                            && (c.seq < e.s1 || matches!(e.r, R::Cancelled | R::Lost | R::Pending))
                            && match &e.op {
                                Op::AddSite { .. } => cmd(c, "ADD_CAPTCHA") && e.arg.as_deref() == c.args.first().map(|x| x.as_str()),
                                Op::Rename { from, to, .. } => cmd(c, "RENAME_CAPTCHA") && c.args == [from.clone(), to.clone()],
                                Op::Remove { site, .. } => cmd(c, "DELETE_CAPTCHA") && c.args == [site.clone()],
                                Op::Visit { site, .. } | Op::GetPow { site, .. } => {
                                    cmd(c, "ADD_VISITOR") && c.args == [site.clone()]
                                }
                                _ => false,
                            }
                    })
                    .map(|e| e.id)
                    .collect(),
            );
        }
        if let Some(l) = matching(&edges, cx.h.evs.len()) {
            let c = comp[wants[l]];
            cx.v(
                "unasked-change",
                format!("Redis was told {} {:?}, which no call asked for", c.what, c.args),
            );
        }
    }
    deletions(cx);
    cx.nontrivial = acks > 1;
}

fn comp_site(e: &Ev) -> String {
    match &e.op {
        Op::GetPow { site, .. } => site.clone(),
        _ => String::new(),
    }
}

/// nothing but well-formed error replies was injected
fn healthy_errors(cx: &Cx) -> bool {
    cx.p.pol.p_stall == 0 && !cx.h.faults.keys().any(|k| k.starts_with("redis") && k != "redis Error")
}

/// an acknowledged deletion is final, one that names something else has no effect
fn deletions(cx: &mut Cx) {
    for d in cx.h.evs.iter().filter(|e| e.r == R::Unit) {
        let what = d.arg.clone().unwrap_or_default();
        let garbage = cx.h.comp.iter().any(|c| (c.reply == "garbage" || !c.ok) && c.seq > d.s0 && c.seq < d.s1);
        if garbage {
            continue;
        }
        match &d.op {
            Op::RDelChallenge { .. } => {
                let comp: Vec<&CompEv> = cx.h.comp.iter().filter(|c| c.seq > d.s0 && c.seq < d.s1).collect();
                if !comp.iter().any(|c| {
                    c.what == "MCAPTCHA_CACHE.DELETE_CHALLENGE"
                        && c.args.get(1) == Some(&what)
                        && c.effect
                        && !c.reply.starts_with('-')
                }) {
                    cx.v(
                        "not-what-redis-did",
                        format!("call #{}: challenge {what:?} reported deleted, Redis did not delete it", d.id),
                    );
                }
                for e in cx.verifies() {
                    let s = e.sub.as_ref().unwrap();
                    let Some(g) = cx.issued().get(&what).copied() else { continue };
                    let Op::GetPow { site, .. } = &g.op else { continue };
                    let Op::RDelChallenge { key, .. } = &d.op else { continue };
                    if s.string == what
                        && matches!(e.r, R::Pass { .. })
                        && e.s0 > d.s1
                        && key.as_ref().unwrap_or(site) == site
                    {
                        cx.v(
                            "deleted-challenge-passes",
                            format!("call #{}: challenge {what:?} passes after its deletion in call #{}", e.id, d.id),
                        );
                    }
                }
            }
            Op::RDelToken { key, .. } => {
                for e in cx.validates() {
                    let Op::Validate { key: k, .. } = &e.op else { continue };
                    if e.arg.as_ref() == Some(&what) && k == key && e.r == R::Bool(true) && e.s0 > d.s1 {
                        cx.v(
                            "deleted-token-validates",
                            format!("call #{}: token {what:?} validates after its deletion in call #{}", e.id, d.id),
                        );
                    }
                }
            }
            _ => {}
        }
    }
}
