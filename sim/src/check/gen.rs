//! Shared parts of the plan generators.
use crate::core::{Policy, Sched};
use crate::plan::*;
use crate::rng::Rng;

pub fn policy(r: &mut Rng) -> Policy {
    let sched = match r.below(20) {
        0..=3 => Sched::Fifo,
        4..=14 => Sched::Random {
            p: *r.pick(&[50, 300, 1000, 3000, 6000]),
        },
        _ => Sched::Pct {
            d: r.range(1, 5) as u32,
            len: *r.pick(&[500, 2000, 8000]),
        },
    };
    let p_stall = if r.chance(6000) { 0 } else { *r.pick(&[5, 20, 100]) };
    let p_defer = if r.chance(5000) { 0 } else { *r.pick(&[200, 1000, 3000]) };
    let work_us = match r.below(4) {
        0 => 0,
        1 => r.range(1, 50),
        2 => 200,
        _ => 2000,
    };
    Policy {
        sched,
        p_stall,
        max_stall: r.range(2, 6) as u8,
        p_defer,
        work_us,
        work_jitter: r.below(4) as u8,
        preempt: if r.chance(5000) { 0 } else { *r.pick(&[4, 12, 40, 150, 600, 3000]) },
    }
}

/// how long a proof takes where the calls are about something else
pub fn some_work(r: &mut Rng, w: u64) -> u64 {
    match r.below(6) {
        0 => *r.pick(&[5_000, 40_000, 250_000]),
        _ => w.min(500),
    }
}

/// same, but nothing that costs simulated time
pub fn calm(r: &mut Rng) -> Policy {
    let mut p = policy(r);
    p.p_stall = 0;
    p
}

pub const SALTS: &[&str] = &["salt", "", "s", "a longer salt with spaces and \u{fc}nicode", "0123456789abcdef0123456789abcdef"];

pub fn base(r: &mut Rng, prop: &str, flavor: &str) -> Plan {
    Plan {
        prop: prop.into(),
        flavor: flavor.into(),
        seed: r.next(),
        entropy: r.next(),
        pol: policy(r),
        backend: Backend::Embedded,
        instances: 1,
        shared: false,
        gc: 1_000_000,
        runners: r.range(1, 4) as usize,
        queue: *r.pick(&[64, 200, 1000]),
        salt: r.pick(SALTS).to_string(),
        split: r.chance(5000),
        sites: vec![],
        epochs: vec![],
        op_bound_ms: 30_000,
        redis_down_at_start: false,
        cluster: 0,
    }
}

/// `n` levels with distinct thresholds and increasing difficulties
pub fn levels(r: &mut Rng, n: usize, max_gap: u64) -> Vec<(u32, u32)> {
    let mut t = r.below(3) as u64;
    let mut d = if r.chance(1000) { r.range(100, 600) } else { r.range(1, 8) };
    let mut v = vec![];
    for _ in 0..n {
        v.push((t as u32, d as u32));
        t += r.range(1, max_gap.max(1));
        d = if d >= 250 { d + 1 } else { (d + r.range(1, 40)).min(250) };
    }
    v
}

pub const NAMES: &[&str] = &["a", "a:b", "b", "site-c", "d d", "\u{e9}"];

pub fn site(r: &mut Rng, name: &str, dur: (u64, u64)) -> SiteCfg {
    let n = r.range(1, 4) as usize;
    SiteCfg {
        order: r.below(8),
        name: name.into(),
        dur: r.range(dur.0, dur.1),
        levels: levels(r, n, 6),
    }
}
/// names that are easily confused
const FAMILIES: &[&[&str]] = &[
    &["a", "A", "a ", " a", "aa", "\u{e4}"],
    &["site", "site2", "sit", "SITE", "site:", "s"],
    &["", ":", "a:", ":a", "::", "a::a"],
    &["\u{1F600}", "\u{df}", "SS", "ss", "\u{e9}", "e\u{301}"],
    &["site", "site/", "/site", "site.", "www.site", "site/a"],
    &["a-b", "a_b", "a.b", "a b", "a%20b", "ab"],
    &["0", "00", "-0", "1", "01", "+1"],
    &["mcaptcha:token:a", "a", "token:a", "mcaptcha", "a:token", "*"],
];
pub fn names(r: &mut Rng, n: usize) -> Vec<String> {
    if r.chance(6000) {
        return NAMES[..n].iter().map(|s| s.to_string()).collect();
    }
    let k = r.below(FAMILIES.len() + 1);
    if k == FAMILIES.len() {
        let long = "x".repeat(*r.pick(&[31, 64, 255, 256, 300]));
        return (0..n).map(|i| format!("{long}{i}")).collect();
    }
    FAMILIES[k][..n].iter().map(|s| s.to_string()).collect()
}
pub fn sites(r: &mut Rng, n: usize, dur: (u64, u64)) -> Vec<SiteCfg> {
    names(r, n).iter().map(|name| site(r, name, dur)).collect()
}

/// far more sites than usual
pub fn many_sites(r: &mut Rng, n: usize, dur: (u64, u64)) -> Vec<SiteCfg> {
    let pre = *r.pick(&["", "n", "site-", "\u{e9}", "a:"]);
    (0..n).map(|k| site(r, &format!("{pre}{k}"), dur)).collect()
}

pub const ALTER: &[&str] = &["up", "low", "flip", "cut", "head", "last", "swap", "rev", "sp", "front", "nl", "nul", "twice", "ext"];
/// a site key that is not quite right
pub fn near(r: &mut Rng) -> String {
    format!("~{}", r.pick(ALTER))
}
/// a key for somebody else's challenge or token
pub fn wrong_key(r: &mut Rng, sites: &[String]) -> String {
    if r.chance(3000) {
        near(r)
    } else {
        r.pick(sites).clone()
    }
}

pub fn ip(i: usize) -> String {
    match i % 3 {
        0 => format!("10.0.0.{i}"),
        1 => format!("2001:db8::{i}"),
        _ => format!("192.168.7.{i}"),
    }
}

pub fn cancel(r: &mut Rng, per10k: u32) -> Option<Cancel> {
    if !r.chance(per10k) {
        return None;
    }
    Some(if r.chance(6000) {
        Cancel::Polls(r.range(1, 5) as u32)
    } else {
        Cancel::AfterUs(*r.pick(&[1, 10, 100, 1000, 20_000]))
    })
}

pub fn bad_work(r: &mut Rng, slots: usize) -> Work {
    match r.below(9) {
        0 | 1 => Work::Weak(r.range(1, 10) as u32),
        2 => Work::Forged,
        3 => Work::OffByOne,
        4 => Work::Text(
            r.pick(&[
                "",
                "0",
                "-1",
                "abc",
                "340282366920938463463374607431768211455",
                "340282366920938463463374607431768211456",
                "+5",
                " 7",
                "1e40",
                "\u{0}",
            ])
            .to_string(),
        ),
        5 => Work::WrongSalt,
        6 => Work::OtherSlot(r.below(slots.max(1))),
        _ => Work::WrongNonce,
    }
}

pub struct Traffic {
    pub sites: Vec<String>,
    pub clients: usize,
    pub threads: usize,
    pub ips: usize,
    pub ops: (u64, u64),
    /// per 10k
    pub p_bad: u32,
    pub p_cancel: u32,
    pub p_share: u32,
    pub p_sync: u32,
    pub p_junk: u32,
    pub slot0: usize,
    /// longest pause between steps of a round trip
    pub pause_us: u64,
}

impl Traffic {
    pub fn new(r: &mut Rng, sites: &[SiteCfg]) -> Traffic {
        Traffic {
            sites: sites.iter().map(|s| s.name.clone()).collect(),
            clients: r.range(2, 5) as usize,
            threads: r.range(1, 4) as usize,
            ips: r.range(1, 4) as usize,
            ops: (2, 6),
            p_bad: *r.pick(&[500, 2500, 5000]),
            p_cancel: *r.pick(&[0, 500, 2000]),
            p_share: *r.pick(&[1000, 4000, 7000]),
            p_sync: *r.pick(&[0, 3000, 8000]),
            p_junk: 800,
            slot0: 0,
            pause_us: *r.pick(&[0, 1000, 50_000]),
        }
    }
    pub fn slots(&self) -> usize {
        self.clients * 4
    }
}

pub fn traffic(r: &mut Rng, t: &Traffic) -> Vec<Client> {
    let all = t.slots();
    (0..t.clients)
        .map(|c| {
            let own = t.slot0 + c * 4;
            let mut k = 0;
            let mut tick = 0u64;
            let mut ops = vec![];
            let n = r.range(t.ops.0, t.ops.1);
            for _ in 0..n {
                if r.chance(t.p_sync) {
                    tick += r.range(1, 3);
                    ops.push(Op::At { us: tick * 40_000 });
                } else if t.pause_us > 0 && r.chance(3000) {
                    ops.push(Op::Sleep {
                        us: r.range(1, t.pause_us),
                    });
                }
                let site = r.pick(&t.sites).clone();
                let any = t.slot0 + r.below(all);
                match r.below(20) {
                    0..=8 => {
                        let s = own + k % 4;
                        k += 1;
                        ops.push(Op::GetPow {
                            site: site.clone(),
                            out: s,
                            cancel: cancel(r, t.p_cancel / 4),
                        });
                        if t.pause_us > 0 && r.chance(3000) {
                            ops.push(Op::Sleep {
                                us: r.range(1, t.pause_us),
                            });
                        }
                        let bad = r.chance(t.p_bad);
                        let cn = cancel(r, t.p_cancel);
                        ops.push(Op::Verify {
                            ch: s,
                            raw: None,
                            work: if bad { bad_work(r, all) } else { Work::Honest },
                            key: if bad && r.chance(3000) { Some(wrong_key(r, &t.sites)) } else { None },
                            ip: ip(r.below(t.ips)),
                            out: s,
                            cancel: cn,
                        });
                        if r.chance(7000) {
                            ops.push(Op::Validate {
                                tok: Tok::Slot(s),
                                key: if r.chance(2000) { wrong_key(r, &t.sites) } else { site.clone() },
                                cancel: cancel(r, t.p_cancel / 2),
                            });
                        }
                    }
                    9 | 10 => {
                        let s = own + k % 4;
                        k += 1;
                        ops.push(Op::GetPow {
                            site,
                            out: s,
                            cancel: cancel(r, t.p_cancel),
                        });
                    }
                    11..=14 => {
                        let s = if r.chance(t.p_share) { any } else { own + r.below(4) };
                        let w = if r.chance(t.p_bad) { bad_work(r, all) } else { Work::Honest };
                        let copies = if r.chance(3000) { r.range(2, 4) } else { 1 };
                        let mut v = vec![];
                        for _ in 0..copies {
                            v.push(Op::Verify {
                                ch: s,
                                raw: if r.chance(800) { Some(near(r)) } else { None },
                                work: w.clone(),
                                key: if r.chance(1500) { Some(wrong_key(r, &t.sites)) } else { None },
                                ip: ip(r.below(t.ips)),
                                out: s,
                                cancel: cancel(r, t.p_cancel),
                            });
                        }
                        if copies > 1 {
                            ops.push(Op::Par { ops: v });
                        } else {
                            ops.extend(v);
                        }
                    }
                    15..=17 => {
                        let s = if r.chance(t.p_share) { any } else { own + r.below(4) };
                        let copies = if r.chance(3000) { r.range(2, 3) } else { 1 };
                        let mut v = vec![];
                        for _ in 0..copies {
                            v.push(Op::Validate {
                                tok: tok(r, s),
                                key: site.clone(),
                                cancel: cancel(r, t.p_cancel),
                            });
                        }
                        if copies > 1 {
                            ops.push(Op::Par { ops: v });
                        } else {
                            ops.extend(v);
                        }
                    }
                    18 => ops.push(junk(r, t, any)),
                    _ => {
                        if r.chance(t.p_junk * 5) {
                            ops.push(junk(r, t, any))
                        } else {
                            ops.push(Op::Visit {
                                site,
                                cancel: cancel(r, t.p_cancel),
                            })
                        }
                    }
                }
            }
            Client {
                thread: if c == 0 { 0 } else { r.below(t.threads) },
                sys: 0,
                start_us: if r.chance(3000) { r.range(0, 3000) } else { 0 },
                ops,
            }
        })
        .collect()
}

/// mostly the token in the slot
pub fn tok(r: &mut Rng, s: usize) -> Tok {
    match r.below(20) {
        0 => Tok::Chal(s),
        2 => Tok::Alter(r.pick(ALTER).to_string(), s),
        1 => Tok::Pre(r.pick(&["b:", "a:", ":", " ", "b::", "\u{0}"]).to_string(), s),
        _ => Tok::Slot(s),
    }
}

pub const TEXTS: &[&str] = &["", "x", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\u{0}", "../../etc", "mcaptcha:token:a:b"];

pub fn junk(r: &mut Rng, t: &Traffic, any: usize) -> Op {
    match r.below(4) {
        0 => Op::Verify {
            ch: any,
            raw: Some(r.pick(TEXTS).to_string()),
            work: Work::Honest,
            key: Some(r.pick(&t.sites).clone()),
            ip: r.pick(&["", "10.0.0.1", "not an ip"]).to_string(),
            out: any,
            cancel: None,
        },
        1 => Op::Validate {
            tok: Tok::Text(r.pick(TEXTS).to_string()),
            key: r.pick(&t.sites).clone(),
            cancel: None,
        },
        2 => Op::GetPow {
            site: r.pick(&["nosite", "", "A"]).to_string(),
            out: 900,
            cancel: None,
        },
        _ => Op::Validate {
            tok: Tok::Slot(any),
            key: r.pick(&["nosite", "", "A"]).to_string(),
            cancel: None,
        },
    }
}

pub fn trip(site: &str, slot: usize, ip: &str) -> Vec<Op> {
    vec![
        Op::GetPow {
            site: site.into(),
            out: slot,
            cancel: None,
        },
        Op::Verify {
            ch: slot,
            raw: None,
            work: Work::Honest,
            key: None,
            ip: ip.into(),
            out: slot,
            cancel: None,
        },
        Op::Validate {
            tok: Tok::Slot(slot),
            key: site.into(),
            cancel: None,
        },
    ]
}

pub fn epoch(init: Vec<usize>, clients: Vec<Client>, post: Vec<Op>) -> Epoch {
    Epoch {
        init,
        clients,
        crash_at_us: None,
        post,
    }
}

/// the same plan with all its times, durations and periods longer
pub fn stretch(p: &mut Plan, k: u64) {
    fn ops(v: &mut [Op], k: u64) {
        for o in v.iter_mut() {
            match o {
                Op::Sleep { us } | Op::At { us } => *us *= k,
                Op::Par { ops: v } => ops(v, k),
                _ => {}
            }
        }
    }
    for s in p.sites.iter_mut() {
        s.dur *= k;
    }
    // tokio mishandles timers that are more than 2.1 years (2^36 ms) away
    p.gc = (p.gc * k).min(68_000_000);
    for e in p.epochs.iter_mut() {
        e.crash_at_us = e.crash_at_us.map(|t| t * k);
        for c in e.clients.iter_mut() {
            ops(&mut c.ops, k);
        }
        ops(&mut e.post, k);
    }
}
/// some plans run for minutes, hours or days instead of seconds
pub fn maybe_long(r: &mut Rng, i: u64, g: fn(&mut Rng, u64) -> Plan) -> Plan {
    let mut p = g(r, i);
    if r.chance(800) {
        stretch(&mut p, *r.pick(&[7, 61, 900, 20_000, 86_400, 700_000]));
    }
    p
}

/// some plans have several systems around the same master and cache
pub fn maybe_shared(r: &mut Rng, i: u64, g: fn(&mut Rng, u64) -> Plan) -> Plan {
    let mut p = g(r, i);
    if p.instances == 1 && p.epochs.len() == 1 && p.cluster == 0 && r.chance(1000) {
        p.instances = r.range(2, 3) as usize;
        p.shared = true;
        for c in p.epochs[0].clients.iter_mut() {
            c.sys = r.below(p.instances);
        }
    }
    p
}
