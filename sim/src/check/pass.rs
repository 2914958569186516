//! C01-C05: challenges, proofs and tokens.
use super::gen::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a pass only for a genuine, sufficient proof of a challenge issued for that key, at the issued difficulty",
            gen: |r, i| maybe_shared(r, i, gen01),
            check: check01,
            pair: false,
        },
        Prop {
            id: "C02",
            rule: "at most one pass per challenge; none after a submission under its key was judged",
            gen: |r, i| maybe_shared(r, i, |r, i| maybe_long(r, i, gen02)),
            check: check02,
            pair: false,
        },
        Prop {
            id: "C03",
            rule: "a token validates true at most once, only for the site of its proof, and only if minted",
            gen: |r, i| maybe_shared(r, i, gen03),
            check: check03,
            pair: false,
        },
        Prop {
            id: "C04",
            rule: "usable within the duration, refused after it",
            gen: |r, i| maybe_shared(r, i, gen04),
            check: check04,
            pair: false,
        },
        Prop {
            id: "C05",
            rule: "an honest first submission passes and its token validates; get_pow serves registered sites",
            gen: |r, i| maybe_shared(r, i, gen05),
            check: check05,
            pair: false,
        },
    ]
}

fn backend(r: &mut Rng) -> Backend {
    match r.below(10) {
        0 => Backend::Redis,
        1 | 2 => Backend::Mixed,
        _ => Backend::Embedded,
    }
}

fn all(p: &Plan) -> Vec<usize> {
    (0..p.sites.len()).collect()
}

// ------------------------------------------------------------------ C01

fn gen01(r: &mut Rng, i: u64) -> Plan {
    let fl = ["mix", "swap", "levels", "steep"][(i % 4) as usize];
    let mut p = base(r, "C01", fl);
    p.backend = backend(r);
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (20, 60));
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[3000, 5000, 8000]);
    match fl {
        "mix" => {
            let c = traffic(r, &t);
            p.epochs = vec![epoch(all(&p), c, vec![])];
        }
        "steep" => {
            // demanding sites, and proofs that do not quite reach their difficulty
            let mut c = vec![];
            let mut slot = 0;
            for s in p.sites.iter_mut() {
                let d: u32 = match r.below(7) {
                    0 => r.range(100, 400) as u32,
                    1 => r.range(1000, 3000) as u32,
                    2 => *r.pick(&[10_001, 15_000, 30_000, 50_000]),
                    3 => (1 << *r.pick(&[8, 16, 16, 17, 24, 31])) + r.range(0, 9) as u32,
                    4 => *r.pick(&[100_000, 1_000_000, 5_000_000, 1_000_000_000]),
                    5 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31]),
                    _ => 1 << r.range(8, 32).min(31) as u32,
                };
                s.levels = match r.below(3) {
                    0 => vec![(100, d)],
                    1 => vec![(1, 2), (100, d)],
                    _ => vec![(1, d), (100, d.saturating_add(r.below(2) as u32))],
                };
                let n = r.range(2, 6) as usize;
                let mut ops = vec![];
                for k in 0..n {
                    let out = 100 + slot + k;
                    ops.push(Op::GetPow {
                        site: s.name.clone(),
                        out,
                        cancel: None,
                    });
                }
                for k in 0..n {
                    let out = 100 + slot + k;
                    let low = match r.below(6) {
                        0 => d - (d / 100).max(1),
                        1 => d / 2,
                        2 => d % (1 << *r.pick(&[8, 16, 16])),
                        3 => d / 1000,
                        4 => *r.pick(&[1, 2, 100, 1000, 10_000]),
                        _ => d - 1,
                    };
                    // what a client can still afford
                    let low = low.clamp(1, *r.pick(&[20, 1000, 12_000]));
                    let work = match r.below(10) {
                        0 => bad_work(r, 4),
                        1 | 2 if d <= 3000 => Work::Honest,
                        _ if low < d => Work::Weak(low),
                        _ => Work::Honest,
                    };
                    ops.push(Op::Verify {
                        ch: out,
                        raw: None,
                        work,
                        key: None,
                        ip: ip(3),
                        out,
                        cancel: None,
                    });
                }
                slot += n;
                c.push(Client {
                    thread: r.below(2),
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
            let mut t2 = Traffic::new(r, &[]);
            t2.sites = vec!["easy".into()];
            t2.p_bad = t.p_bad;
            c.extend(traffic(r, &t2));
            p.sites.push(SiteCfg {
                name: "easy".into(),
                dur: 60,
                levels: vec![(10, 2), (50, 20)],
                order: 0,
            });
            p.epochs = vec![epoch(all(&p), c, vec![])];
        }
        "levels" => {
            // the site's difficulty moves between issue and submission
            for s in p.sites.iter_mut() {
                s.levels = vec![(1, 2), (3, 30), (5, 90)];
            }
            let name = p.sites[0].name.clone();
            let mut c = traffic(r, &t);
            let n = r.range(2, 6) as usize;
            let mut ops = vec![];
            for k in 0..n {
                ops.push(Op::GetPow {
                    site: name.clone(),
                    out: 100 + k,
                    cancel: None,
                });
            }
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            for k in order {
                ops.push(Op::Verify {
                    ch: 100 + k,
                    raw: None,
                    work: if r.chance(5000) { Work::Honest } else { bad_work(r, 4) },
                    key: None,
                    ip: ip(7),
                    out: 100 + k,
                    cancel: None,
                });
            }
            c.push(Client {
                thread: r.below(2),
                sys: 0,
                start_us: 0,
                ops,
            });
            p.epochs = vec![epoch(all(&p), c, vec![])];
        }
        _ => {
            // good and bad work in flight together
            let n = r.range(3, 8) as usize;
            let mut cl = vec![];
            for k in 0..n {
                let bad = r.chance(5000);
                cl.push(Client {
                    thread: k % 4,
                    sys: 0,
                    start_us: 0,
                    ops: vec![
                        Op::GetPow {
                            site: r.pick(&t.sites).clone(),
                            out: k,
                            cancel: None,
                        },
                        Op::At { us: 30_000 },
                        Op::Verify {
                            ch: k,
                            raw: None,
                            work: if bad { bad_work(r, n) } else { Work::Honest },
                            key: if r.chance(1500) { Some(wrong_key(r, &t.sites)) } else { None },
                            ip: ip(r.below(t.ips)),
                            out: k,
                            cancel: cancel(r, t.p_cancel),
                        },
                        Op::Validate {
                            tok: Tok::Slot(k),
                            key: r.pick(&t.sites).clone(),
                            cancel: None,
                        },
                    ],
                });
            }
            p.epochs = vec![epoch(all(&p), cl, vec![])];
        }
    }
    p
}

fn check01(cx: &mut Cx) {
    let (ok, no) = genuine(cx);
    cx.nontrivial = ok > 0 && no > 0;
}

/// every pass is for a correct proof of an issued challenge; counts passes and refusals
pub fn genuine(cx: &mut Cx) -> (u64, u64) {
    let issued = cx.issued();
    let (mut ok, mut no) = (0, 0);
    for e in cx.verifies() {
        let s = e.sub.as_ref().unwrap();
        let R::Pass { diff, .. } = &e.r else {
            if matches!(e.r, R::Err(_)) {
                no += 1;
            }
            continue;
        };
        ok += 1;
        let Some(g) = issued.get(&s.string) else {
            cx.v("pass-unissued", format!("call #{}: pass for {:?}, which was never issued", e.id, s.string));
            continue;
        };
        let (Op::GetPow { site, .. }, R::Pow { diff: gd, .. }) = (&g.op, &g.r) else {
            continue;
        };
        if *site != s.key {
            cx.v(
                "pass-wrong-key",
                format!("call #{}: challenge of {:?} (call #{}) passed under key {:?}", e.id, site, g.id, s.key),
            );
        }
        if !crate::pow::check(&cx.p.salt, &s.string, s.nonce, &s.result, *gd) {
            cx.v(
                "pass-bad-proof",
                format!(
                    "call #{}: pass for an incorrect or insufficient proof (nonce {}, result {:?}, difficulty {gd})",
                    e.id, s.nonce, s.result
                ),
            );
        }
        if diff != gd {
            cx.v(
                "pass-wrong-difficulty",
                format!("call #{}: pass reports difficulty {diff}, the challenge was issued at {gd}", e.id),
            );
        }
    }
    (ok, no)
}

// ------------------------------------------------------------------ C02

/// racing submissions of one challenge
fn race(r: &mut Rng, p: &mut Plan, t: &Traffic, slot: usize, n: usize) -> Vec<Client> {
    let site = r.pick(&t.sites).clone();
    let mut cl = vec![Client {
        thread: 0,
        sys: 0,
        start_us: 0,
        ops: vec![Op::GetPow {
            site: site.clone(),
            out: slot,
            cancel: None,
        }],
    }];
    for k in 0..n {
        let mut ops = vec![Op::At {
            us: 40_000 + if r.chance(3000) { r.range(0, 300) } else { 0 },
        }];
        for _ in 0..r.range(1, 2) {
            ops.push(Op::Verify {
                ch: slot,
                raw: None,
                work: if r.chance(t.p_bad) { bad_work(r, 4) } else { Work::Honest },
                key: if r.chance(1500) { Some(wrong_key(r, &t.sites)) } else { None },
                ip: ip(r.below(t.ips)),
                out: slot,
                cancel: cancel(r, t.p_cancel),
            });
        }
        cl.push(Client {
            thread: if r.chance(7000) { k % 4 } else { 0 },
            sys: r.below(p.instances),
            start_us: 0,
            ops,
        });
    }
    cl
}

fn gen02(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 320 == 77 { "bulk" } else { ["race", "mix", "expiry"][(i % 3) as usize] };
    let mut p = base(r, "C02", fl);
    p.backend = backend(r);
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (20, 60));
    if fl == "bulk" {
        return bulk02(r, p);
    }
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[0, 2000, 5000]);
    t.p_share = 8000;
    match fl {
        "race" => {
            let n = r.range(2, 6) as usize;
            let mut c = race(r, &mut p, &t, 50, n);
            if r.chance(3000) {
                c.extend(race(r, &mut p, &t, 51, n));
            }
            if r.chance(4000) {
                t.clients = 2;
                c.extend(traffic(r, &t));
            }
            p.epochs = vec![epoch(all(&p), c, vec![])];
        }
        "mix" => {
            let c = traffic(r, &t);
            p.epochs = vec![epoch(all(&p), c, vec![])];
        }
        _ => {
            // resubmissions around the expiry of the challenge
            p.sites.truncate(1);
            p.sites[0].dur = r.range(1, 2);
            t.sites.truncate(1);
            let d = p.sites[0].dur * 1_000_000;
            let site = p.sites[0].name.clone();
            let mut cl = vec![];
            for k in 0..r.range(2, 4) as usize {
                let mut ops = vec![Op::GetPow {
                    site: site.clone(),
                    out: k,
                    cancel: None,
                }];
                for at in [r.range(0, d / 2), d - r.range(0, 3000), d + r.range(0, 3000), 2 * d] {
                    ops.push(Op::At { us: at });
                    ops.push(Op::Verify {
                        ch: if r.chance(3000) { 0 } else { k },
                        raw: None,
                        work: if r.chance(t.p_bad) { bad_work(r, 4) } else { Work::Honest },
                        key: None,
                        ip: ip(k),
                        out: k,
                        cancel: cancel(r, t.p_cancel),
                    });
                }
                cl.push(Client {
                    thread: k,
                    sys: 0,
                    start_us: 0,
                    ops,
                });
            }
            p.epochs = vec![epoch(all(&p), cl, vec![])];
        }
    }
    p
}

pub fn judged(e: &Ev) -> bool {
    matches!(e.r, R::Pass { .. }) || err_is(&e.r, "InsuffiencientDifficulty") || err_is(&e.r, "InvalidPoW")
}

pub fn single_use(cx: &mut Cx) {
    let issued = cx.issued();
    let vs = cx.verifies();
    let mut by: BTreeMap<String, Vec<&Ev>> = BTreeMap::new();
    for e in vs {
        by.entry(e.sub.as_ref().unwrap().string.clone()).or_default().push(e);
    }
    for (s, v) in by.iter() {
        if v.len() > 1 {
            cx.nontrivial = true;
        }
        let pass: Vec<&&Ev> = v.iter().filter(|e| matches!(e.r, R::Pass { .. })).collect();
        if pass.len() > 1 {
            cx.v(
                "double-pass",
                format!("challenge {s:?} passed in calls #{} and #{}", pass[0].id, pass[1].id),
            );
            continue;
        }
        let Some(g) = issued.get(s) else { continue };
        let Op::GetPow { site, .. } = &g.op else { continue };
        let first = v
            .iter()
            .filter(|e| judged(e) && e.sub.as_ref().unwrap().key == *site)
            .min_by_key(|e| e.s1);
        if let Some(f) = first {
            for e in pass {
                if e.s0 > f.s1 {
                    cx.v(
                        "pass-after-judged",
                        format!("challenge {s:?} was judged in call #{} ({:?}) and passed in the later call #{}", f.id, f.r, e.id),
                    );
                }
            }
        }
    }
}

fn check02(cx: &mut Cx) {
    single_use(cx);
}

// ------------------------------------------------------------------ C03

fn gen03(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 320 == 77 { "bulk" } else { ["race", "mix"][(i % 2) as usize] };
    let mut p = base(r, "C03", fl);
    p.backend = backend(r);
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (20, 60));
    if fl == "bulk" {
        return bulk03(r, p);
    }
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[0, 2000]);
    t.p_share = 8000;
    if fl == "mix" {
        let c = traffic(r, &t);
        p.epochs = vec![epoch(all(&p), c, vec![])];
        return p;
    }
    let mut cl = vec![];
    let m = r.range(1, 3) as usize;
    for k in 0..m {
        let site = r.pick(&t.sites).clone();
        let mut ops = trip(&site, 60 + k, &ip(k));
        if r.chance(8000) {
            ops.pop();
        }
        cl.push(Client {
            thread: k,
            sys: 0,
            start_us: 0,
            ops,
        });
        let at = if r.chance(7000) { 40_000 } else { r.range(0, 5_000) };
        for j in 0..r.range(1, 4) as usize {
            let mut ops = vec![Op::At { us: at }];
            for _ in 0..r.range(1, 3) {
                let s = if r.chance(800) { 60 + k } else { 60 + r.below(m) };
                let (tok, key) = if r.chance(1500) {
                    (Tok::Pre("b:".into(), s), "a".into())
                } else {
                    (tok(r, s), if r.chance(7000) { site.clone() } else { wrong_key(r, &t.sites) })
                };
                ops.push(Op::Validate {
                    tok,
                    key,
                    cancel: cancel(r, t.p_cancel),
                });
            }
            cl.push(Client {
                thread: if r.chance(7000) { (k + j) % 4 } else { 0 },
                sys: 0,
                start_us: 0,
                ops,
            });
        }
    }
    p.epochs = vec![epoch(all(&p), cl, vec![])];
    p
}

pub fn token_use(cx: &mut Cx) {
    let passes = cx.passes();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut tries: BTreeMap<String, usize> = BTreeMap::new();
    for e in cx.validates() {
        let tok = e.arg.clone().unwrap();
        *tries.entry(tok.clone()).or_default() += 1;
        if e.r != R::Bool(true) {
            continue;
        }
        let Op::Validate { key, .. } = &e.op else { continue };
        let Some(p) = passes.get(&tok) else {
            cx.v("valid-unminted", format!("call #{}: {tok:?} validated but no verify_pow returned it", e.id));
            continue;
        };
        if p.s0 > e.s1 {
            cx.v("valid-unminted", format!("call #{}: {tok:?} validated before it was minted", e.id));
        }
        let pk = &p.sub.as_ref().unwrap().key;
        if pk != key {
            cx.v(
                "valid-wrong-site",
                format!("call #{}: token minted for {pk:?} (call #{}) validated for {key:?}", e.id, p.id),
            );
        }
        if let Some(o) = seen.insert(tok.clone(), e.id) {
            cx.v("valid-twice", format!("token {tok:?} validated in calls #{o} and #{}", e.id));
        }
    }
    cx.nontrivial = !seen.is_empty() && tries.values().any(|n| *n > 1);
}

fn check03(cx: &mut Cx) {
    token_use(cx);
}

// ------------------------------------------------------------------ C04

fn gen04(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 320 == 77 { "bulk" } else { ["expiry", "tokens", "admin", "wall", "busy"][(i % 5) as usize] };
    let mut p = base(r, "C04", fl);
    if fl == "bulk" {
        p.sites = sites(r, 3, (20, 60));
        return bulk04(r, p);
    }
    if r.chance(6500) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = *r.pick(&[0, 0, 20, 500]);
    p.backend = match r.below(10) {
        0 => Backend::Redis,
        1 => Backend::Mixed,
        _ => Backend::Embedded,
    };
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (1, 4));
    if r.chance(3000) {
        // one long-lived site among short-lived ones
        let k = r.below(ns);
        p.sites[k].dur = *r.pick(&[8, 20, 61, 300, 601, 3601, 86_401, 2_000_000]);
    }
    let extra = p.sites[0].clone();
    p.sites.push(SiteCfg {
        order: 0,
        name: "z".into(),
        dur: r.range(1, 6),
        levels: extra.levels.clone(),
    });
    let mut cl = vec![];
    let n = r.range(2, 6) as usize;
    let delta: &[i64] = &[-900_000, -400_000, -220_000, -30_000, -2_000, 2_000, 200_000, 260_000, 400_000, 900_000, 1_500_000];
    for k in 0..n {
        let s = p.sites[r.below(ns)].clone();
        let d = (s.dur * 1_000_000) as i64;
        let mut ops = vec![];
        let start = r.range(0, 2_500_000) as i64;
        ops.push(Op::At { us: start as u64 });
        ops.push(Op::GetPow {
            site: s.name.clone(),
            out: k,
            cancel: None,
        });
        let mut tb = start;
        if fl != "tokens" || r.chance(3000) {
            tb = (start + d + *r.pick(delta)).max(start);
            ops.push(Op::At { us: tb as u64 });
        } else if r.chance(5000) {
            // the token outlives its challenge
            tb = start + d - r.range(100_000, 900_000) as i64;
            ops.push(Op::At { us: tb as u64 });
        }
        ops.push(Op::Verify {
            ch: k,
            raw: None,
            work: Work::Honest,
            key: None,
            ip: ip(k),
            out: k,
            cancel: None,
        });
        if r.chance(8000) {
            let tv = (tb + d + *r.pick(delta)).max(tb);
            ops.push(Op::At { us: tv as u64 });
            ops.push(Op::Validate {
                tok: Tok::Slot(k),
                key: s.name.clone(),
                cancel: None,
            });
        }
        if r.chance(3000) {
            // a second attempt with what should be gone
            ops.push(Op::At {
                us: (start + d + *r.pick(&[2_000, 260_000, 900_000, d])) as u64,
            });
            ops.push(Op::Verify {
                ch: k,
                raw: None,
                work: Work::Honest,
                key: None,
                ip: ip(k),
                out: 300 + k,
                cancel: None,
            });
        }
        cl.push(Client {
            thread: if r.chance(5000) { k % 4 } else { 0 },
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if fl == "expiry" && r.chance(2000) {
        // more than the pool takes: what it refused comes back later
        p.backend = Backend::Embedded;
        p.queue = r.range(1, 2) as usize;
        p.runners = 1;
        p.pol.work_us = *r.pick(&[50_000, 150_000]);
        let s = p.sites[r.below(ns)].clone();
        let d = s.dur * 1_000_000;
        let m = r.range(3, 6) as usize;
        let t0 = r.range(0, 1_000_000);
        let at = |us| Op::At { us };
        let mut ops = vec![at(t0)];
        ops.extend((0..m).map(|k| Op::GetPow {
            site: s.name.clone(),
            out: 400 + k,
            cancel: None,
        }));
        let sub = |k: usize, out: usize| Op::Verify {
            ch: 400 + k,
            raw: None,
            work: Work::Honest,
            key: None,
            ip: ip(20 + k),
            out: out + k,
            cancel: None,
        };
        ops.push(at(t0 + r.range(0, d - 400_000)));
        ops.push(Op::Par {
            ops: (0..m).map(|k| sub(k, 400)).collect(),
        });
        ops.push(at(t0 + d + *r.pick(&[2_000, 260_000, 900_000])));
        ops.extend((0..m).map(|k| sub(k, 420)));
        cl.push(Client {
            thread: r.below(2),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    match fl {
        "admin" => {
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                ops.push(Op::Sleep {
                    us: r.range(1000, 2_000_000),
                });
                let name = p.sites[r.below(ns)].name.clone();
                match r.below(4) {
                    0 => ops.push(Op::Remove {
                        site: name,
                        cancel: None,
                    }),
                    1 => ops.push(Op::Rename {
                        from: name,
                        to: "renamed".into(),
                        cancel: None,
                    }),
                    _ => ops.push(Op::AddSite {
                        cfg: r.below(p.sites.len()),
                        name: Some(name),
                        cancel: None,
                    }),
                }
            }
            cl.push(Client {
                thread: r.below(2),
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "wall" => {
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                ops.push(Op::Sleep {
                    us: r.range(1000, 2_000_000),
                });
                ops.push(Op::WallJump {
                    ms: *r.pick(&[-86_400_000, -3_600_000, -5000, -700, 700, 5000, 3_600_000, 86_400_000]),
                });
            }
            cl.push(Client {
                thread: 0,
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        "busy" => {
            // many entries with their own expiries
            let mut ops = vec![];
            for k in 0..r.range(5, 25) as usize {
                let s = &p.sites[r.below(ns)];
                ops.push(Op::Sleep {
                    us: r.range(10, 300_000),
                });
                ops.push(Op::GetPow {
                    site: s.name.clone(),
                    out: 100 + k,
                    cancel: None,
                });
                if r.chance(6000) {
                    ops.push(Op::Verify {
                        ch: 100 + if r.chance(5000) { k } else { r.below(k + 1) },
                        raw: None,
                        work: if r.chance(2000) { Work::Forged } else { Work::Honest },
                        key: None,
                        ip: ip(3),
                        out: 100 + k,
                        cancel: cancel(r, 1000),
                    });
                }
                if r.chance(5000) {
                    ops.push(Op::Validate {
                        tok: Tok::Slot(100 + r.below(k + 1)),
                        key: s.name.clone(),
                        cancel: None,
                    });
                }
            }
            cl.push(Client {
                thread: r.below(2),
                sys: 0,
                start_us: 0,
                ops,
            });
        }
        _ => {}
    }
    let init = (0..ns).collect();
    p.epochs = vec![epoch(init, cl, vec![])];
    p
}

/// duration range the site had when the challenge was issued
pub fn dur_at(cx: &Cx, g: &Ev) -> Option<(Ns, Ns)> {
    let Op::GetPow { site, .. } = &g.op else { return None };
    let renamed_here = cx
        .h
        .evs
        .iter()
        .any(|e| matches!(&e.op, Op::Rename { to, .. } if to == site));
    if renamed_here {
        return cx.durs_of(site);
    }
    let adds: Vec<&Ev> = cx
        .h
        .evs
        .iter()
        .filter(|e| matches!(e.op, Op::AddSite { .. }) && e.arg.as_deref() == Some(site.as_str()) && (e.sys == g.sys || cx.p.shared))
        .collect();
    let cand: Vec<u64> = adds
        .iter()
        .filter(|a| a.s0 < g.s1)
        .filter(|a| !adds.iter().any(|b| b.s0 > a.s1 && b.s1 < g.s0 && b.r == R::Unit))
        .map(|a| match &a.op {
            Op::AddSite { cfg, .. } => cx.p.sites[*cfg].dur,
            _ => 0,
        })
        .collect();
    Some((cand.iter().min()? * SEC, cand.iter().max()? * SEC))
}

pub fn lifetimes(cx: &mut Cx, must_pass: bool) {
    let issued = cx.issued();
    let vs = cx.verifies();
    let (mut inside, mut outside) = (0, 0);
    // the embedded cache does not outlive its process
    let durable = matches!(cx.p.backend, Backend::Redis | Backend::Mixed);
    for e in vs.iter() {
        let s = e.sub.as_ref().unwrap();
        let Some(g) = issued.get(&s.string) else { continue };
        let Some((lo, hi)) = dur_at(cx, g) else { continue };
        if e.t1 == u64::MAX {
            continue;
        }
        let first = !vs.iter().any(|o| {
            o.id != e.id && o.sub.as_ref().unwrap().string == s.string && o.s0 < e.s1
        });
        // answered within the lifetime, or at least looked up
        let looked = e.t0 + cx.slack(e.t0, g.t0 + lo) < g.t0 + lo;
        if (e.t1 <= g.t0 + lo || looked) && first && correct(cx.p, e, g) && must_pass && (durable || e.epoch == g.epoch) {
            inside += 1;
            if !matches!(e.r, R::Pass { .. } | R::Cancelled | R::Lost) && !err_is(&e.r, "QueueFull") {
                cx.v(
                    "expired-early",
                    format!(
                        "call #{}: challenge of call #{} refused ({:?}) {} ms after it was issued, its lifetime is {} ms",
                        e.id,
                        g.id,
                        e.r,
                        (e.t1 - g.t0) / MS,
                        lo / MS
                    ),
                );
            }
        }
        if e.t0 > g.t1 + hi + cx.slack(g.t0, e.t0) {
            outside += 1;
            if matches!(e.r, R::Pass { .. }) {
                cx.v(
                    "alive-after-expiry",
                    format!(
                        "call #{}: challenge of call #{} accepted {} ms after it was issued, its lifetime is {} ms",
                        e.id,
                        g.id,
                        (e.t0 - g.t1) / MS,
                        hi / MS
                    ),
                );
            }
        }
    }
    let passes = cx.passes();
    let va = cx.validates();
    for e in va.iter() {
        let tok = e.arg.as_ref().unwrap();
        let Some(p) = passes.get(tok) else { continue };
        let Some(g) = issued.get(&p.sub.as_ref().unwrap().string) else { continue };
        let Some((lo, hi)) = dur_at(cx, g) else { continue };
        let Op::Validate { key, .. } = &e.op else { continue };
        if e.t1 == u64::MAX {
            continue;
        }
        let first = !va
            .iter()
            .any(|o| o.id != e.id && o.arg.as_ref() == Some(tok) && o.s0 < e.s1);
        if (e.t1 <= p.t0 + lo || e.t0 + cx.slack(e.t0, p.t0 + lo) < p.t0 + lo)
            && first
            && *key == p.sub.as_ref().unwrap().key
            && must_pass
            && (durable || e.epoch == p.epoch)
        {
            inside += 1;
            if !matches!(e.r, R::Bool(true) | R::Cancelled | R::Lost) {
                cx.v(
                    "token-expired-early",
                    format!(
                        "call #{}: token of call #{} refused ({:?}) {} ms after it was minted, its lifetime is {} ms",
                        e.id,
                        p.id,
                        e.r,
                        (e.t1 - p.t0) / MS,
                        lo / MS
                    ),
                );
            }
        }
        if e.t0 > p.t1 + hi + cx.slack(p.t0, e.t0) {
            outside += 1;
            if e.r == R::Bool(true) {
                cx.v(
                    "token-alive-after-expiry",
                    format!(
                        "call #{}: token of call #{} accepted {} ms after it was minted, its lifetime is {} ms",
                        e.id,
                        p.id,
                        (e.t0 - p.t1) / MS,
                        hi / MS
                    ),
                );
            }
        }
    }
    cx.nontrivial = inside + outside > 0;
}

fn check04(cx: &mut Cx) {
    lifetimes(cx, true);
}

// ------------------------------------------------------------------ C05

fn gen05(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 200 {
        77 => "bulk",
        27 | 127 => "crowd",
        k => ["mix", "mix", "many-ips", "short", "crash", "slow"][(k % 6) as usize],
    };
    let mut p = base(r, "C05", fl);
    p.backend = backend(r);
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (20, 60));
    if fl == "bulk" {
        return bulk05(r, p);
    }
    if fl == "crowd" {
        return flood05(r, p);
    }
    let mut t = Traffic::new(r, &p.sites);
    t.p_bad = *r.pick(&[500, 2000, 4000]);
    t.clients = r.range(2, 7) as usize;
    t.ips = *r.pick(&[1, 2, 5, 9]);
    match fl {
        "many-ips" => {
            t.ips = 12;
            p.runners = r.range(1, 3) as usize;
        }
        "short" => {
            for s in p.sites.iter_mut() {
                s.dur = r.range(1, 3);
            }
            t.pause_us = 400_000;
        }
        "slow" => {
            // overloaded workers (a waiting verify_pow occupies its executor, on which the
            // Redis client's own time-outs would run meanwhile)
            p.backend = Backend::Embedded;
            p.pol.work_us = *r.pick(&[300_000, 1_000_000, 3_000_000, 7_000_000, 20_000_000]);
            p.runners = r.range(1, 3) as usize;
            t.ips = *r.pick(&[1, 3]);
        }
        _ => {}
    }
    let c = traffic(r, &t);
    let mut post = vec![];
    for (k, s) in p.sites.iter().enumerate() {
        post.extend(trip(&s.name, 200 + k, &ip(20 + k)));
    }
    p.epochs = vec![epoch(all(&p), c, post.clone())];
    if fl == "crash" {
        // a new process over the same stores (or none)
        p.epochs[0].crash_at_us = Some(r.range(1000, 150_000));
        let c = traffic(r, &t);
        p.epochs.push(epoch(all(&p), c, post));
    }
    p
}

/// a plan with far more challenges and tokens than the others have
fn bulk(r: &mut Rng, p: &mut Plan) {
    p.pol.sched = crate::core::Sched::Fifo;
    p.pol.p_stall = 0;
    p.pol.p_defer = 0;
    p.pol.work_us = 0;
    p.backend = if r.chance(1500) { Backend::Mixed } else { Backend::Embedded };
    for s in p.sites.iter_mut() {
        s.dur = r.range(600, 4000);
        s.levels = vec![(100_000, 2), (200_000, 3)];
    }
}

fn one(ops: Vec<Op>) -> Vec<Client> {
    vec![Client { thread: 0, sys: 0, start_us: 0, ops }]
}

fn pow_op(p: &Plan, k: usize) -> Op {
    Op::GetPow {
        site: p.sites[k % p.sites.len()].name.clone(),
        out: k,
        cancel: None,
    }
}

fn sub_op(ch: usize, work: Work, key: Option<String>) -> Op {
    Op::Verify {
        ch,
        raw: None,
        work,
        key,
        ip: ip(ch),
        out: ch,
        cancel: None,
    }
}

/// challenges judged long ago, among many others
fn bulk02(r: &mut Rng, mut p: Plan) -> Plan {
    bulk(r, &mut p);
    let n = r.range(200, 1500) as usize;
    let m = r.range(20, 300.min(n as u64)) as usize;
    let early = r.chance(5000);
    let mut ops = vec![];
    let mut pick: Vec<usize> = (0..n).collect();
    r.shuffle(&mut pick);
    pick.truncate(m);
    if r.chance(3000) {
        pick.sort();
    }
    // the judged ones are issued before, or among, all others
    let first: Vec<usize> = if early { pick.clone() } else { (0..n).collect() };
    let rest: Vec<usize> = if early { (0..n).filter(|k| !pick.contains(k)).collect() } else { vec![] };
    ops.extend(first.iter().map(|k| pow_op(&p, *k)));
    for &k in pick.iter() {
        ops.push(sub_op(k, if r.chance(2000) { bad_work(r, 4) } else { Work::Honest }, None));
    }
    ops.extend(rest.iter().map(|k| pow_op(&p, *k)));
    if r.chance(3000) {
        ops.push(Op::Sleep { us: r.range(1, 900) * 1_000_000 });
    }
    r.shuffle(&mut pick);
    for &k in pick.iter() {
        ops.push(sub_op(k, Work::Honest, None));
    }
    p.epochs = vec![epoch(all(&p), one(ops), vec![])];
    p
}

/// many tokens, each tried again and again
fn bulk03(r: &mut Rng, mut p: Plan) -> Plan {
    bulk(r, &mut p);
    let n = r.range(50, 600) as usize;
    let keys: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let val = |k: usize, key: &str| Op::Validate {
        tok: Tok::Slot(k),
        key: key.into(),
        cancel: None,
    };
    let mut ops = vec![];
    let early = r.chance(5000);
    for k in 0..n {
        ops.push(pow_op(&p, k));
        ops.push(sub_op(k, Work::Honest, None));
        if early && r.chance(5000) {
            ops.push(val(k, &keys[k % keys.len()]));
        }
    }
    for _ in 0..r.range(2, 4) {
        let mut order: Vec<usize> = (0..n).collect();
        if r.chance(7000) {
            r.shuffle(&mut order);
        }
        for k in order {
            let key = if r.chance(1500) { wrong_key(r, &keys) } else { keys[k % keys.len()].clone() };
            ops.push(val(k, &key));
        }
        if r.chance(2000) {
            ops.push(Op::Sleep { us: r.range(1, 900) * 1_000_000 });
        }
    }
    p.epochs = vec![epoch(all(&p), one(ops), vec![])];
    p
}

/// many lifetimes running at once
fn bulk04(r: &mut Rng, mut p: Plan) -> Plan {
    bulk(r, &mut p);
    for s in p.sites.iter_mut() {
        s.dur = *r.pick(&[1, 2, 3, 5, 10, 30, 60, 600]);
    }
    let n = r.range(100, 1200) as usize;
    let step = *r.pick(&[0, 0, 100, 2000, 20_000]);
    // (when, what)
    let mut at: Vec<(u64, u64, Op)> = vec![];
    let tokens = r.below(n.min(250));
    for k in 0..n {
        let d = p.sites[k % p.sites.len()].dur * 1_000_000;
        let t = k as u64 * step;
        at.push((t, 0, pow_op(&p, k)));
        let early = r.chance(6000);
        if early && k < tokens {
            let tv = if r.chance(5000) { t + d - r.range(1, 500_000) } else { t + d + r.range(2000, 2_000_000) };
            at.push((t, 1, sub_op(k, Work::Honest, None)));
            at.push((
                tv,
                2,
                Op::Validate {
                    tok: Tok::Slot(k),
                    key: p.sites[k % p.sites.len()].name.clone(),
                    cancel: None,
                },
            ));
        } else if k % 5 == 0 {
            let tv = if r.chance(5000) { t + d - r.range(1, 500_000) } else { t + d + r.range(2000, 2_000_000) };
            at.push((tv, 1, sub_op(k, Work::Honest, None)));
        }
    }
    at.sort_by_key(|x| (x.0, x.1));
    let mut ops = vec![];
    for (t, _, o) in at {
        ops.push(Op::At { us: t });
        ops.push(o);
    }
    p.epochs = vec![epoch(all(&p), one(ops), vec![])];
    p
}

/// far more challenges and tokens alive than any other plan has
fn bulk05(r: &mut Rng, mut p: Plan) -> Plan {
    bulk(r, &mut p);
    let tokens = r.chance(4000);
    let n = if tokens { r.range(100, 700) } else { r.range(300, 3000) } as usize;
    let mut ops = vec![];
    for k in 0..n {
        ops.push(Op::GetPow {
            site: p.sites[k % p.sites.len()].name.clone(),
            out: k,
            cancel: None,
        });
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    if !tokens {
        order.truncate(60);
    }
    for &k in order.iter() {
        ops.push(Op::Verify {
            ch: k,
            raw: None,
            work: Work::Honest,
            key: None,
            ip: ip(k),
            out: k,
            cancel: None,
        });
    }
    r.shuffle(&mut order);
    for &k in order.iter() {
        ops.push(Op::Validate {
            tok: Tok::Slot(k),
            key: p.sites[k % p.sites.len()].name.clone(),
            cancel: None,
        });
    }
    p.epochs = vec![epoch(all(&p), vec![Client { thread: 0, sys: 0, start_us: 0, ops }], vec![])];
    p
}

/// clients that wait for their verdict while others, from the same address and from new ones,
/// submit far more than the workers get through, and give up waiting
fn flood05(r: &mut Rng, mut p: Plan) -> Plan {
    bulk(r, &mut p);
    p.backend = Backend::Embedded;
    p.runners = r.range(1, 3) as usize;
    p.queue = *r.pick(&[500, 1000, 100_000]);
    p.pol.work_us = *r.pick(&[500, 5_000, 20_000]);
    for s in p.sites.iter_mut() {
        s.dur = 86_400;
    }
    let n = r.range(20, 400) as usize;
    let nip = *r.pick(&[1, 1, 2, 10, 1000]);
    let slow = *r.pick(&[0, 0, 200, 2000]);
    let mut cls = vec![];
    for f in 0..r.range(1, 2) as usize {
        let mut ops: Vec<Op> = (0..n).map(|k| pow_op(&p, f * 1000 + k)).collect();
        ops.push(Op::At { us: 200_000 });
        for k in 0..n {
            ops.push(Op::Verify {
                ch: f * 1000 + k,
                raw: None,
                work: if r.chance(2000) { Work::Forged } else { Work::Honest },
                key: None,
                ip: ip(k % nip),
                out: f * 1000 + k,
                // at the second poll it is with the queue; the third waits for the verdict
                cancel: Some(Cancel::Polls(if r.chance(slow) { 3 } else { 2 })),
            });
        }
        cls.push(Client { thread: f + 1, sys: 0, start_us: 0, ops });
    }
    for c in 0..r.range(1, 3) as usize {
        let site = r.pick(&p.sites).name.clone();
        let mut ops = vec![];
        for k in 0..r.range(1, 4) as usize {
            let at = 200_000 + r.range(0, 3000) * if r.chance(5000) { 1 } else { 300 };
            let mut tr = trip(&site, 5000 + c * 10 + k, &ip(if r.chance(7000) { r.below(nip) } else { 2000 + c }));
            tr.insert(1, Op::At { us: at });
            ops.extend(tr);
        }
        cls.push(Client { thread: 3 + c, sys: 0, start_us: 0, ops });
    }
    p.op_bound_ms = 120_000;
    p.epochs = vec![epoch(all(&p), cls, vec![])];
    p
}

fn check05(cx: &mut Cx) {
    cx.no_stuck(&["get_pow", "verify", "validate"], "stuck");
    let names: BTreeSet<&str> = cx.p.sites.iter().map(|s| s.name.as_str()).collect();
    let mut n = 0;
    for e in cx.h.evs.iter() {
        let Op::GetPow { site, .. } = &e.op else { continue };
        if !names.contains(site.as_str()) {
            if let R::Pow { .. } = e.r {
                cx.v("challenge-for-unknown-site", format!("call #{}: challenge for {site:?}", e.id));
            }
            continue;
        }
        // the site list is fixed in these plans; it is complete once setup is through
        match &e.r {
            R::Pow { diff, salt, .. } => {
                n += 1;
                if *salt != cx.p.salt {
                    cx.v("wrong-salt", format!("call #{}: salt {salt:?} instead of {:?}", e.id, cx.p.salt));
                }
                let ok = cx
                    .p
                    .sites
                    .iter()
                    .any(|s| s.name == *site && s.levels.iter().any(|l| l.1 == *diff));
                if !ok {
                    cx.v("wrong-difficulty", format!("call #{}: difficulty {diff} is not one of {site:?}'s", e.id));
                }
            }
            R::Pending | R::Skipped | R::Cancelled | R::Lost => {}
            _ if !cx.h.evs.iter().any(|a| {
                a.r == R::Unit
                    && matches!(a.op, Op::AddSite { .. })
                    && a.arg.as_deref() == Some(site.as_str())
                    && a.s1 < e.s0
                    && a.epoch == e.epoch
            }) => {}
            o => cx.v("no-challenge", format!("call #{}: get_pow({site:?}) gave {o:?}", e.id)),
        }
    }
    let keep = cx.nontrivial;
    lifetimes(cx, true);
    cx.nontrivial = keep || n > 0;
}
