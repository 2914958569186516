//! C06-C08, C17: the worker pool.
use super::gen::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "every uncancelled verify_pow returns within the time all outstanding work can take; the pool goes on serving",
            gen: gen06,
            check: check06,
            pair: false,
        },
        Prop {
            id: "C07",
            rule: "QueueFull only with queue_length other addresses outstanding; unanswered admitted work from at most queue_length + workers addresses",
            gen: gen07,
            check: check07,
            pair: false,
        },
        Prop {
            id: "C08",
            rule: "waiting time proportional to the number of addresses, not to another address's backlog",
            gen: gen08,
            check: check08,
            pair: false,
        },
        Prop {
            id: "C17",
            rule: "drop(System) returns in bounded time and leaves none of its threads",
            gen: gen17,
            check: check17,
            pair: false,
        },
    ]
}

fn one_site(r: &mut Rng, dur: u64) -> SiteCfg {
    SiteCfg {
        order: 0,
        name: "a".into(),
        dur,
        levels: levels(r, 1, 1),
    }
}

fn verify(ch: usize, work: Work, ip_: String, cancel: Option<Cancel>) -> Op {
    Op::Verify {
        ch,
        raw: None,
        work,
        key: None,
        ip: ip_,
        out: ch,
        cancel,
    }
}
fn pow(out: usize) -> Op {
    Op::GetPow {
        site: "a".into(),
        out,
        cancel: None,
    }
}

/// little scheduling noise, for plans with very many submissions
fn quiet(p: &mut Plan) {
    p.pol.sched = crate::core::Sched::Fifo;
    p.pol.p_stall = 0;
    p.pol.p_defer = 0;
    p.pol.work_us = p.pol.work_us.min(20_000);
    p.sites[0].dur = 86_400;
    p.sites[0].levels = vec![(100_000, 2), (200_000, 3)];
}

/// `n` submissions one after the other from `nip` addresses, some of them abandoned in the pool
fn many(r: &mut Rng, n: usize, slot: usize, thread: usize, nip: usize, p_cancel: u32) -> Client {
    let mut ops = vec![];
    for k in 0..n {
        ops.push(pow(slot + k));
        let w = if r.chance(1500) { Work::Forged } else { Work::Honest };
        let c = if r.chance(p_cancel) { Some(Cancel::Polls(r.range(1, 3) as u32)) } else { None };
        ops.push(verify(slot + k, w, ip(slot + k % nip), c));
        if r.chance(100) {
            ops.push(Op::Sleep { us: *r.pick(&[100, 100_000, 5_000_000]) });
        }
    }
    Client {
        thread,
        sys: 0,
        start_us: 0,
        ops,
    }
}

// ------------------------------------------------------------------ C06

fn gen06(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 320 {
        77 => "bulk",
        k if k % 20 == 11 => "crowd",
        _ => ["mix", "many", "bad", "cancel", "waves"][(i % 5) as usize],
    };
    let mut p = base(r, "C06", fl);
    p.runners = r.range(1, 4) as usize;
    p.queue = 1000;
    p.op_bound_ms = 8000;
    p.pol.work_us = *r.pick(&[0, 0, 10, 300, 3000]);
    if r.chance(700) {
        p.pol.work_us = *r.pick(&[100_000, 900_000, 6_000_000, 40_000_000]);
    }
    if r.chance(500) {
        p.runners = r.range(5, 20) as usize;
    }
    let dur = *r.pick(&[600, 86_400]);
    p.sites = vec![one_site(r, dur)];
    if fl == "bulk" {
        quiet(&mut p);
        let k = r.range(100, 1200) as usize;
        p.queue = *r.pick(&[1, 10, 1000]);
        let (nip, p_cancel) = (*r.pick(&[1, 3, 500]), *r.pick(&[0, 2000, 9000]));
        let c = many(r, k, 0, 1, nip, p_cancel);
        let mut post = vec![Op::Sleep { us: 40_000_000 }];
        for k in 0..3 {
            post.extend(trip("a", 5000 + k, &ip(if k == 0 { 0 } else { 4000 + k })));
        }
        p.epochs = vec![epoch(vec![0], vec![c], post)];
        return p;
    }
    if fl == "crowd" {
        // submissions from very many addresses at once
        quiet(&mut p);
        p.pol.work_us = *r.pick(&[0, 300, 3000]);
        let n = *r.pick(&[12, 20, 40, 70, 130, 260]) + r.below(12);
        let nip = if r.chance(7000) { n } else { (n / 2).max(1) };
        let p_bad = *r.pick(&[0, 2000]);
        let p_cancel = *r.pick(&[0, 500, 3000]);
        let mut ops: Vec<Op> = (0..n).map(pow).collect();
        ops.push(Op::At { us: 60_000 });
        let vs: Vec<Op> = (0..n)
            .map(|k| {
                let w = if r.chance(p_bad) { bad_work(r, n) } else { Work::Honest };
                let c = cancel(r, p_cancel);
                verify(k, w, ip(k % nip), c)
            })
            .collect();
        ops.push(Op::Par { ops: vs });
        let c = Client {
            thread: 1,
            sys: 0,
            start_us: 0,
            ops,
        };
        let mut post = vec![Op::Sleep { us: 5_000_000 }];
        for k in 0..3 {
            post.extend(trip("a", 5000 + k, &ip(if k == 0 { 0 } else { 4000 + k })));
        }
        p.epochs = vec![epoch(vec![0], vec![c], post)];
        return p;
    }
    let nip = match fl {
        "many" => r.range(3, 10) as usize,
        _ => r.range(1, 6) as usize,
    };
    let ncl = r.range(1, 6) as usize;
    let threads = r.range(1, 4) as usize;
    let p_bad = if fl == "bad" { 7000 } else { 2000 };
    let p_cancel = if fl == "cancel" { 5000 } else { *r.pick(&[0, 500]) };
    let mut cl = vec![];
    for c in 0..ncl {
        let n = r.range(1, 6) as usize;
        let mut ops = vec![];
        for k in 0..n {
            ops.push(pow(c * 10 + k));
        }
        if r.chance(7000) {
            ops.push(Op::At { us: 20_000 });
        }
        let mut vs: Vec<Op> = (0..n)
            .map(|k| {
                let w = if r.chance(p_bad) { bad_work(r, 10) } else { Work::Honest };
                let c2 = cancel(r, p_cancel);
                verify(c * 10 + k, w, ip(r.below(nip)), c2)
            })
            .collect();
        if fl == "waves" {
            // separated by idle periods, in which the pool drains
            let mut out = vec![];
            while !vs.is_empty() {
                let k = r.range(1, vs.len() as u64) as usize;
                let w: Vec<Op> = vs.drain(..k).collect();
                out.push(Op::Par { ops: w });
                out.push(Op::Sleep {
                    us: *r.pick(&[100, 5_000, 100_000, 70_000_000, 7_200_000_000]),
                });
            }
            ops.extend(out);
        } else if r.chance(6000) {
            ops.push(Op::Par { ops: vs });
        } else {
            ops.extend(vs);
        }
        cl.push(Client {
            thread: r.below(threads),
            sys: 0,
            start_us: if r.chance(3000) { r.range(0, 2000) } else { 0 },
            ops,
        });
    }
    let mut post = vec![];
    for k in 0..3 {
        post.extend(trip("a", 300 + k, &if k == 0 { ip(0) } else { ip(40 + k) }));
    }
    p.epochs = vec![epoch(vec![0], cl, post)];
    p
}

fn check06(cx: &mut Cx) {
    cx.no_stuck(&["verify"], "verdict-never");
    let vs = cx.verifies();
    let issued = cx.issued();
    let mut n = 0;
    for e in vs.iter() {
        if e.t1 == u64::MAX || matches!(e.r, R::Skipped | R::Lost) {
            continue;
        }
        n += 1;
        let d = e.t1 - e.t0;
        let bound = cx.slack(e.t0, e.t1);
        if d > bound {
            cx.v(
                "verdict-late",
                format!("call #{} took {} ms, all outstanding work and stalls amount to {} ms", e.id, d / MS, bound / MS),
            );
        }
        // what happens to the pool after the burst
        if e.client == 2000 {
            let Some(g) = issued.get(&e.sub.as_ref().unwrap().string) else { continue };
            if correct(cx.p, e, g) && !matches!(e.r, R::Pass { .. } | R::Cancelled) {
                cx.v("pool-broken", format!("call #{} after the burst gave {:?}", e.id, e.r));
            }
        }
    }
    cx.nontrivial = n > 1;
}

// ------------------------------------------------------------------ C07

fn gen07(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 320 {
        77 => "bulk",
        k if k % 20 == 11 => "crowd",
        _ => ["burst", "mix", "burst", "waves"][(i % 4) as usize],
    };
    let mut p = base(r, "C07", fl);
    p.runners = r.range(1, 3) as usize;
    p.queue = r.range(1, 6) as usize;
    if fl != "bulk" && r.chance(400) {
        p.queue = r.range(7, 24) as usize;
    }
    p.op_bound_ms = 30_000;
    p.sites = vec![one_site(r, 600)];
    if fl == "bulk" {
        quiet(&mut p);
        let n = r.range(100, 700) as usize;
        let mut cl = vec![];
        for c in 0..r.range(1, 3) as usize {
            let (nip, p_cancel) = (*r.pick(&[1, 7, 900]), *r.pick(&[0, 0, 500]));
            cl.push(many(r, n / (c + 1), c * 1000, c + 1, nip, p_cancel));
        }
        let mut post = vec![Op::Sleep { us: 60_000_000 }];
        for k in 0..p.queue + 2 {
            post.extend(trip("a", 5000 + k, &ip(4000 + k)));
        }
        p.epochs = vec![epoch(vec![0], cl, post)];
        return p;
    }
    if fl == "crowd" {
        // a long queue that fills up
        quiet(&mut p);
        p.pol.work_us = *r.pick(&[3000, 20_000]);
        p.queue = *r.pick(&[12, 20, 31, 50, 64, 100, 128, 200, 256]) + r.below(3);
    }
    let q = p.queue;
    let mut cl = vec![];
    match fl {
        "crowd" => {
            let mut at = 60_000;
            let mut ops = vec![];
            for w in 0..r.range(1, 2) as usize {
                let n = (q + p.runners + r.below(12)).saturating_sub(5);
                let twice = r.below(3);
                let mut vs = vec![];
                for k in 0..n + twice {
                    ops.push(pow(w * 1000 + k));
                    // a second submission of an address does not count
                    let a = if k < n { k } else { r.below(n) };
                    let c = if r.chance(300) { Some(Cancel::Polls(2)) } else { None };
                    vs.push(verify(w * 1000 + k, Work::Honest, ip(a), c));
                }
                ops.push(Op::At { us: at });
                if r.chance(3000) {
                    r.shuffle(&mut vs);
                }
                ops.push(Op::Par { ops: vs });
                at += 30_000_000;
            }
            cl.push(Client {
                thread: 1,
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "burst" => {
            p.pol.p_stall = 0;
            p.pol.work_us = 400_000;
            p.pol.work_jitter = 0;
            p.split = true;
            let n = (q + p.runners + r.range(1, 5) as usize).min(13.max(q + p.runners + 2));
            let same = r.chance(3000);
            for k in 0..n {
                let mut ops = vec![pow(k), Op::At { us: 20_000 }];
                let a = if same && k > 0 && r.chance(3000) { r.below(k) } else { k };
                ops.push(verify(k, Work::Honest, ip(a), None));
                cl.push(Client {
                    thread: k + 1,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
        "waves" => {
            p.pol.work_us = *r.pick(&[100, 2000, 20_000]);
            let waves = r.range(2, 4);
            let n = r.range(1, q as u64 + 4) as usize;
            for c in 0..n {
                let mut ops = vec![];
                for w in 0..waves as usize {
                    let k = c * 10 + w;
                    ops.push(pow(k));
                    ops.push(Op::At {
                        us: 50_000 + 700_000 * w as u64,
                    });
                    ops.push(verify(k, if r.chance(1500) { Work::Forged } else { Work::Honest }, ip(w * 20 + c), cancel(r, 500)));
                }
                cl.push(Client {
                    thread: c % 5,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
        _ => {
            p.pol.work_us = *r.pick(&[0, 100, 3000, 30_000]);
            let nip = r.range(1, q as u64 + 4) as usize;
            for c in 0..r.range(2, 7) as usize {
                let mut ops = vec![];
                let n = r.range(1, 5) as usize;
                for k in 0..n {
                    ops.push(pow(c * 10 + k));
                }
                ops.push(Op::At { us: 30_000 });
                let vs: Vec<Op> = (0..n)
                    .map(|k| {
                        let w = if r.chance(1500) { bad_work(r, 10) } else { Work::Honest };
                        let cc = cancel(r, 1500);
                        verify(c * 10 + k, w, ip(r.below(nip)), cc)
                    })
                    .collect();
                if r.chance(5000) {
                    ops.push(Op::Par { ops: vs });
                } else {
                    ops.extend(vs);
                }
                cl.push(Client {
                    thread: c % 5,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
    }
    let mut post = vec![Op::Sleep { us: 3_000_000 }];
    for k in 0..q + 2 {
        post.extend(trip("a", 300 + k, &ip(50 + k)));
    }
    p.epochs = vec![epoch(vec![0], cl, post)];
    p
}

fn never_admitted(e: &Ev) -> bool {
    ["QueueFull", "StringNotFound", "MCaptchaKeyValidationFail", "MailboxError", "RecvError", "RedisError"]
        .iter()
        .any(|k| err_is(&e.r, k))
}

fn check07(cx: &mut Cx) {
    let vs = cx.verifies();
    let q = cx.p.queue;
    let mut fulls = 0;
    for e in vs.iter() {
        if !err_is(&e.r, "QueueFull") {
            continue;
        }
        fulls += 1;
        let mut ips = BTreeSet::new();
        for o in vs.iter() {
            if o.id == e.id || o.s0 > e.s1 || never_admitted(o) || o.r == R::Skipped {
                continue;
            }
            // an abandoned submission still occupies the pool for a while
            let end = match o.r {
                R::Pending | R::Lost => u64::MAX,
                R::Cancelled => o.t1 + cx.slack(o.t1, e.t1),
                _ => o.t1,
            };
            if end >= e.t0 {
                ips.insert(o.sub.as_ref().unwrap().ip.clone());
            }
        }
        if ips.len() < q {
            cx.v(
                "full-without-backlog",
                format!(
                    "call #{} was refused with QueueFull while submissions from only {} other addresses were outstanding (queue_length {q})",
                    e.id,
                    ips.len()
                ),
            );
        }
    }
    if cx.p.flavor == "burst" {
        // nothing stalls in these runs, so whatever was not refused soon after it came has been admitted
        let starts: Vec<Ns> = vs.iter().map(|e| e.t0).collect();
        for t in starts.iter().map(|t| t + 60 * MS) {
            let mut ips = BTreeSet::new();
            for o in vs.iter() {
                if o.t0 + 60 * MS <= t && o.t1 > t + 60 * MS && !never_admitted(o) {
                    ips.insert(o.sub.as_ref().unwrap().ip.clone());
                }
            }
            if ips.len() > q + cx.p.runners {
                cx.v(
                    "backlog-unbounded",
                    format!(
                        "{} addresses have admitted, unanswered submissions at {} ms; queue_length {q}, {} workers",
                        ips.len(),
                        t / MS,
                        cx.p.runners
                    ),
                );
                break;
            }
        }
    }
    cx.nontrivial = fulls > 0;
}

// ------------------------------------------------------------------ C08

fn gen08(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 160 == 77 { "crowd" } else { ["flood", "threads", "trickle", "two", "own", "many"][(i % 6) as usize] };
    let mut p = base(r, "C08", fl);
    p.runners = r.range(1, 3) as usize;
    p.queue = 1000;
    p.op_bound_ms = 60_000;
    p.pol.p_stall = 0;
    p.pol.work_us = *r.pick(&[10_000, 20_000, 30_000]);
    p.pol.work_jitter = 0;
    p.split = true;
    p.sites = vec![one_site(r, 600)];
    let mut cl = vec![];
    let nfl = if fl == "two" { 2 } else { 1 };
    match fl {
        "flood" | "two" => {
            // abandoned submissions: the client goes away, the job stays
            for f in 0..nfl {
                let n = r.range(40, 80) as usize;
                let mut ops = vec![];
                for k in 0..n {
                    ops.push(pow(1000 + f * 200 + k));
                }
                ops.push(Op::At { us: 60_000 });
                for k in 0..n {
                    let mut o = verify(1000 + f * 200 + k, Work::Honest, ip(f), None);
                    if let Op::Verify { cancel, .. } = &mut o {
                        *cancel = Some(Cancel::Polls(if r.chance(8000) { 2 } else { 3 }));
                    }
                    ops.push(o);
                }
                cl.push(Client {
                    thread: 1 + f,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
        "crowd" => {
            // one address with a huge backlog, and many with a little
            quiet(&mut p);
            let n = r.range(250, 700) as usize;
            let m = r.range(5, 60) as usize;
            let mut todo: Vec<String> = vec![ip(0); n];
            for k in 0..m {
                todo.push(ip(100 + k));
            }
            match r.below(3) {
                0 => r.shuffle(&mut todo),
                1 => todo.reverse(),
                _ => {}
            }
            let mut ops: Vec<Op> = (0..todo.len()).map(|k| pow(1000 + k)).collect();
            ops.push(Op::At { us: 60_000 });
            for (k, a) in todo.into_iter().enumerate() {
                ops.push(verify(1000 + k, Work::Honest, a, Some(Cancel::Polls(2))));
            }
            cl.push(Client {
                thread: 1,
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "own" => {
            // the first submissions of an address are not overtaken by its own later ones
            let m = r.range(1, 6) as usize;
            let n = r.range(40, 80) as usize;
            let mut ops: Vec<Op> = (0..m + n).map(|k| pow(1000 + k)).collect();
            for k in 0..m + n {
                let at = if k < m { 60_000 } else { 60_000 + *r.pick(&[2_000, 5_000, 30_000]) };
                ops.push(Op::At { us: at });
                ops.push(verify(1000 + k, Work::Honest, ip(20), Some(Cancel::Polls(2))));
            }
            cl.push(Client {
                thread: 1,
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "many" => {
            // a backlog behind each of many addresses
            quiet(&mut p);
            let d = r.range(8, 32) as usize;
            let b = r.range(4, 10) as usize;
            let mut todo: Vec<usize> = (0..d * b).map(|k| k % d).collect();
            match r.below(3) {
                0 => r.shuffle(&mut todo),
                1 => todo.sort(),
                _ => {}
            }
            let mut ops: Vec<Op> = (0..todo.len()).map(|k| pow(1000 + k)).collect();
            ops.push(Op::At { us: 60_000 });
            for (k, a) in todo.into_iter().enumerate() {
                ops.push(verify(1000 + k, Work::Honest, ip(100 + a), Some(Cancel::Polls(2))));
            }
            cl.push(Client {
                thread: 1,
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "threads" => {
            // concurrent submissions of one executor are admitted together
            for f in 0..2 {
                let n = r.range(20, 35) as usize;
                let mut ops = vec![];
                for k in 0..n {
                    ops.push(pow(1000 + f * 200 + k));
                }
                ops.push(Op::At { us: 60_000 });
                ops.push(Op::Par {
                    ops: (0..n)
                        .map(|k| verify(1000 + f * 200 + k, Work::Honest, ip(0), None))
                        .collect(),
                });
                cl.push(Client {
                    thread: 1 + f,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
        _ => {
            // a few addresses that always have exactly one job in the pool
            for f in 0..r.range(2, 4) as usize {
                let n = 25;
                let mut ops = vec![];
                for k in 0..n {
                    ops.push(pow(1000 + f * 200 + k));
                }
                ops.push(Op::At { us: 60_000 });
                for k in 0..n {
                    ops.push(verify(1000 + f * 200 + k, Work::Honest, ip(f), None));
                }
                cl.push(Client {
                    thread: 1 + f,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
        }
    }
    let used = cl.len();
    if ["flood", "two", "many", "crowd"].contains(&fl) && r.chance(4000) {
        // all of them wait, on one executor
        for c in cl.iter_mut() {
            let k = c.ops.iter().position(|o| matches!(o, Op::Verify { .. })).unwrap();
            let mut vs = c.ops.split_off(k);
            for o in vs.iter_mut() {
                if let Op::Verify { cancel, .. } = o {
                    *cancel = None;
                }
            }
            c.ops.push(Op::Par { ops: vs });
        }
    }
    let same = r.chance(4000);
    let nv = r.range(1, 3) as usize;
    for v in 0..nv {
        let m = r.range(1, 3) as usize;
        let mut ops = vec![];
        for k in 0..m {
            ops.push(pow(v * 10 + k));
        }
        ops.push(Op::At {
            us: *r.pick(&[60_000, 70_000, 100_000, 250_000]),
        });
        for k in 0..m {
            ops.push(verify(v * 10 + k, Work::Honest, ip(20 + v), None));
            if r.chance(3000) {
                ops.push(Op::Sleep { us: r.range(1, 50_000) });
            }
        }
        cl.push(Client {
            thread: if same { 1 } else { 1 + used + v },
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    p.epochs = vec![epoch(vec![0], cl, vec![])];
    p
}

fn check08(cx: &mut Cx) {
    cx.no_stuck(&["verify"], "verdict-never");
    let vs = cx.verifies();
    let c = cx.p.pol.work_us * US;
    let w = cx.p.runners as u64;
    let mut big = 0;
    for e in vs.iter() {
        let ip = &e.sub.as_ref().unwrap().ip;
        if !matches!(e.r, R::Pass { .. }) || e.t1 == u64::MAX {
            continue;
        }
        // outstanding work of others and of the same address, earlier and later
        let mut other: BTreeMap<&str, u64> = BTreeMap::new();
        let mut own = 0u64;
        let mut later = 0u64;
        for o in vs.iter() {
            if o.id == e.id || o.s0 > e.s1 || never_admitted(o) || o.r == R::Skipped {
                continue;
            }
            let end = match o.r {
                R::Pending | R::Lost => u64::MAX,
                R::Cancelled => o.t1.saturating_add(cx.work),
                _ => o.t1,
            };
            if end < e.t0 {
                continue;
            }
            let oip = &o.sub.as_ref().unwrap().ip;
            if oip == ip {
                if o.s0 < e.s0 || o.t0 <= e.t0 + MS {
                    own += 1;
                } else {
                    later += 1;
                }
            } else {
                *other.entry(oip).or_default() += 1;
            }
        }
        let d = other.len() as u64;
        let bound = (2 * (own + 1) * (d + 1) + 2 * w + 2) * c + BASE + core::stall_overlap(e.t0, e.t1);
        let backlog: u64 = other.values().sum::<u64>() + later;
        if backlog * c / w > bound {
            big += 1;
        }
        if e.t1 - e.t0 > bound {
            cx.v(
                "starved",
                format!(
                    "call #{} from {ip} took {} ms; {d} other addresses, {own} own jobs and {} ms per job allow {} ms (backlog of others and later ones {backlog})",
                    e.id,
                    (e.t1 - e.t0) / MS,
                    c / MS,
                    bound / MS
                ),
            );
        }
    }
    cx.nontrivial = big > 0;
}

// ------------------------------------------------------------------ C17

fn gen17(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 320 == 77 { "bulk" } else { ["idle", "abandoned", "cycle", "mix"][(i % 4) as usize] };
    let mut p = base(r, "C17", fl);
    p.runners = r.range(1, 4) as usize;
    if r.chance(500) {
        p.runners = r.range(5, 24) as usize;
    }
    p.op_bound_ms = 10_000;
    p.pol.work_us = *r.pick(&[0, 50, 2000, 40_000, 300_000, 1_500_000]);
    p.sites = vec![one_site(r, 600)];
    let mut clients = vec![];
    let mut post = vec![];
    match fl {
        "idle" => {}
        "bulk" => {
            quiet(&mut p);
            let (n, nip) = (r.range(100, 900) as usize, *r.pick(&[1, 5, 1000]));
            clients.push(many(r, n, 1000, 1, nip, 9500));
        }
        "mix" => {
            let mut t = Traffic::new(r, &p.sites);
            t.p_cancel = 3000;
            clients = traffic(r, &t);
        }
        _ => {
            let n = if r.chance(2000) { r.range(13, 40) } else { r.range(1, 12) } as usize;
            let mut ops = vec![];
            for k in 0..n {
                ops.push(pow(k));
            }
            let nip = *r.pick(&[3, 3, n]);
            let mut vs = vec![];
            for k in 0..n {
                let mut o = verify(k, if r.chance(3000) { bad_work(r, 4) } else { Work::Honest }, ip(r.below(nip)), None);
                if let Op::Verify { cancel, .. } = &mut o {
                    *cancel = Some(if r.chance(8000) {
                        Cancel::Polls(*r.pick(&[1, 2, 3, 3, 4, 4, 4]))
                    } else {
                        Cancel::AfterUs(*r.pick(&[10, 1000, 100_000]))
                    });
                }
                vs.push(o);
            }
            if r.chance(4000) {
                ops.push(Op::Par { ops: vs });
            } else {
                ops.extend(vs);
            }
            clients.push(Client {
                thread: r.below(2),
                sys: 0,
                start_us: 0,
                ops,
            });
        }
    }
    if r.chance(4000) {
        post.push(Op::Sleep { us: r.range(0, 3000) });
    }
    post.push(Op::DropSystem);
    let cycles = match fl {
        "cycle" => r.range(2, 5),
        "bulk" => r.range(0, 40),
        _ => r.range(0, 2),
    };
    for c in 0..cycles as usize {
        post.push(Op::RebuildSystem {
            runners: r.range(1, 4) as usize,
            queue: 50,
        });
        if r.chance(6000) {
            post.push(pow(700 + c));
            let mut o = verify(700 + c, Work::Honest, ip(1), None);
            if let Op::Verify { cancel: cc, .. } = &mut o {
                *cc = cancel(r, 5000);
            }
            post.push(o);
        }
        post.push(Op::DropSystem);
    }
    p.epochs = vec![epoch(vec![0], clients, post)];
    p
}

fn check17(cx: &mut Cx) {
    cx.no_stuck(&["drop_system"], "drop-hangs");
    let mut n = 0;
    for e in cx.h.evs.iter() {
        if let (Op::DropSystem, R::Dropped { live, ever }) = (&e.op, &e.r) {
            n += *ever;
            if *live > 0 {
                cx.v(
                    "thread-leak",
                    format!("call #{}: {live} of the {ever} threads the system had started outlive it", e.id),
                );
            }
            let d = e.t1 - e.t0;
            // what is queued is not worked off first: only jobs already running are waited for
            let job = cx.p.pol.work_us * US * (1 + cx.p.pol.work_jitter as u64);
            let bound = BASE + 3 * job + core::stall_overlap(e.t0, e.t1);
            if d > bound {
                cx.v("drop-slow", format!("call #{}: drop took {} ms, allowed {} ms", e.id, d / MS, bound / MS));
            }
        }
    }
    cx.nontrivial = n > 0;
}
