//! C23: what is over is forgotten.
use super::gen::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "once everything of a round of use has expired, the system holds as much as after the round before",
        gen: gen23,
        check: check23,
        pair: false,
    }]
}

/// rounds; the first ones fill caches and pools
const ROUNDS: usize = 8;
const WARM: usize = 3;

/// the template's operations, as they are in this round
fn shifted(v: &[Op], known: &[String], round: usize, t0: u64, n: &mut usize) -> Vec<Op> {
    v.iter()
        .cloned()
        .map(|mut o| {
            *n += 1;
            // strings nobody has heard of before
            let new = |s: &mut String| {
                if !s.contains('#') && !s.starts_with('~') && !known.contains(s) {
                    *s = format!("{s}-{round}-{n}");
                }
            };
            match &mut o {
                Op::At { us } => *us += t0,
                Op::Verify { ip, key, raw, .. } => {
                    // nobody comes back
                    *ip = format!("{ip}-{round}-{n}");
                    key.as_mut().map(new);
                    raw.as_mut().map(new);
                }
                Op::Validate { tok, key, .. } => {
                    new(key);
                    if let Tok::Text(t) = tok {
                        new(t);
                    }
                }
                Op::AddSite { name: Some(s), .. } => *s = s.replace('#', &round.to_string()),
                Op::Remove { site, .. } | Op::Visit { site, .. } | Op::GetPow { site, .. } | Op::Count { site } => {
                    new(site);
                    *site = site.replace('#', &round.to_string())
                }
                Op::Rename { from, to, .. } => {
                    new(from);
                    new(to);
                    *from = from.replace('#', &round.to_string());
                    *to = to.replace('#', &round.to_string());
                }
                Op::Par { ops } => *ops = shifted(ops, known, round, t0, n),
                _ => {}
            }
            o
        })
        .collect()
}

/// sites that come and go
fn guests(r: &mut Rng, n: usize, cfgs: usize, slot0: usize, gc: bool, p_cancel: u32) -> Vec<Op> {
    let mut v = vec![];
    for k in 0..n {
        let a = format!("guest-{k}-#");
        let b = format!("guest-{k}-#-b");
        let add = |r: &mut Rng, s: &str| Op::AddSite {
            cfg: r.below(cfgs),
            name: Some(s.to_string()),
            cancel: None,
        };
        let visit = |s: &str| Op::Visit {
            site: s.to_string(),
            cancel: None,
        };
        v.push(add(r, &a));
        for j in 0..r.below(4) {
            if r.chance(6000) {
                v.push(Op::Visit {
                    site: a.clone(),
                    cancel: cancel(r, p_cancel),
                });
            } else {
                v.push(Op::GetPow {
                    site: a.clone(),
                    out: slot0 + j,
                    cancel: cancel(r, p_cancel),
                });
            }
        }
        let mut last = a.clone();
        if r.chance(4000) {
            // replaced
            v.push(add(r, &a));
        }
        if r.chance(4000) {
            v.push(Op::Rename {
                from: a.clone(),
                to: b.clone(),
                cancel: None,
            });
            last = b.clone();
            if r.chance(3000) {
                v.push(add(r, &a));
                v.push(visit(&a));
                v.push(Op::Remove {
                    site: a.clone(),
                    cancel: None,
                });
            }
        }
        if r.chance(3000) {
            v.push(Op::Sleep {
                us: r.range(1, 200_000),
            });
        }
        if gc && r.chance(5000) {
            // left to the clean up
            v.push(visit(&last));
        } else {
            v.push(Op::Remove {
                site: last.clone(),
                cancel: None,
            });
            if r.chance(2000) {
                v.push(Op::Remove {
                    site: last,
                    cancel: None,
                });
            }
        }
    }
    v
}

fn gen23(r: &mut Rng, i: u64) -> Plan {
    let fl = ["mixed-use", "abandon", "guests", "backlog", "redis", "restart-system"][(i % 6) as usize];
    let mut p = base(r, "C23", fl);
    p.pol.p_stall = 0;
    p.pol.work_us = if fl == "backlog" { r.range(500, 3000) } else { p.pol.work_us.min(200) };
    if fl == "backlog" {
        p.queue = r.range(1, 4) as usize;
        p.runners = r.range(1, 2) as usize;
    }
    let gc = fl != "redis" && r.chance(6000);
    if gc {
        p.gc = r.range(1, 2);
    }
    if fl == "redis" {
        p.backend = if r.chance(6000) { Backend::Redis } else { Backend::Mixed };
    }
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (1, 3));
    let dur = p.sites.iter().map(|s| s.dur).max().unwrap();
    let mut t = Traffic::new(r, &p.sites);
    t.ops = (5, 12);
    t.clients = r.range(2, 4) as usize;
    t.p_bad = *r.pick(&[2500, 5000]);
    t.p_cancel = match fl {
        "abandon" => 5000,
        _ => *r.pick(&[0, 500, 2000]),
    };
    if fl == "backlog" {
        t.p_sync = 8000;
    }
    let mut tpl: Vec<Client> = traffic(r, &t);
    for c in tpl.iter_mut() {
        c.start_us = 0;
    }
    if fl == "backlog" {
        // refused and accepted ones
        let n = r.range(4, 12) as usize;
        let site = p.sites[0].name.clone();
        let mut ops: Vec<Op> = (0..n)
            .map(|k| Op::GetPow {
                site: site.clone(),
                out: 200 + k,
                cancel: None,
            })
            .collect();
        ops.push(Op::Par {
            ops: (0..n)
                .map(|k| Op::Verify {
                    ch: 200 + k,
                    raw: None,
                    work: if r.chance(3000) { bad_work(r, 4) } else { Work::Honest },
                    key: None,
                    ip: ip(k),
                    out: 200 + k,
                    cancel: cancel(r, 2000),
                })
                .collect(),
        });
        tpl.push(Client {
            thread: 0,
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if fl == "guests" || r.chance(4000) {
        let n = r.range(3, 8) as usize;
        let gcs = gc && p.backend == Backend::Embedded;
        tpl.push(Client {
            thread: r.below(2),
            sys: 0,
            start_us: 0,
            ops: guests(r, n, ns, 300, gcs, t.p_cancel),
        });
    } else if p.backend == Backend::Embedded && r.chance(5000) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 3) {
            ops.push(Op::Sleep {
                us: r.range(1, 300_000),
            });
            ops.push(Op::Snapshot { out: 1 });
            ops.push(Op::Sleep {
                us: r.range(1, 300_000),
            });
            ops.push(Op::Restore {
                from: 1,
                cancel: None,
                more: *r.pick(&[0, 0, 5]),
            });
        }
        tpl.push(Client {
            thread: r.below(2),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if r.chance(5000) {
        // keys, tokens, challenges and sites nobody knows
        let mut ops = vec![];
        for k in 0..r.range(2, 8) as usize {
            let site = p.sites[r.below(ns)].name.clone();
            let slot = 400 + k;
            let honest = |r: &mut Rng| {
                vec![
                    Op::GetPow {
                        site: site.clone(),
                        out: slot,
                        cancel: None,
                    },
                    Op::Verify {
                        ch: slot,
                        raw: None,
                        work: if r.chance(1000) { bad_work(r, 4) } else { Work::Honest },
                        key: None,
                        ip: "stranger".into(),
                        out: slot,
                        cancel: None,
                    },
                ]
            };
            match r.below(6) {
                0..=2 => {
                    ops.extend(honest(r));
                    ops.push(Op::Validate {
                        tok: Tok::Slot(slot),
                        key: "no such key".into(),
                        cancel: None,
                    });
                }
                3 => {
                    let mut v = honest(r);
                    if let Op::Verify { key, .. } = &mut v[1] {
                        *key = Some("no such key".into());
                    }
                    ops.extend(v);
                }
                4 => {
                    let mut v = honest(r);
                    if let Op::Verify { raw, .. } = &mut v[1] {
                        *raw = Some("no such challenge".into());
                    }
                    ops.extend(v);
                    ops.push(Op::Validate {
                        tok: Tok::Text("no such token".into()),
                        key: site.clone(),
                        cancel: None,
                    });
                }
                _ => {
                    let nowhere = || "nowhere".to_string();
                    ops.push(Op::GetPow {
                        site: nowhere(),
                        out: slot,
                        cancel: None,
                    });
                    ops.push(Op::Visit { site: nowhere(), cancel: None });
                    ops.push(Op::Rename {
                        from: nowhere(),
                        to: nowhere(),
                        cancel: None,
                    });
                    ops.push(Op::Remove { site: nowhere(), cancel: None });
                }
            }
        }
        tpl.push(Client {
            thread: r.below(2),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if fl == "redis" && r.chance(5000) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::Sleep {
                us: r.range(1, 300_000),
            });
            ops.push(Op::Redis(if r.chance(5000) {
                RedisOp::Reset
            } else {
                RedisOp::Arm {
                    cmd: None,
                    n: r.range(1, 3) as u32,
                    act: match r.below(4) {
                        0 => RAct::CutBefore,
                        1 => RAct::CutAfter,
                        2 => RAct::Torn,
                        _ => RAct::Error { msg: "ERR no".into() },
                    },
                }
            }));
        }
        tpl.push(Client {
            thread: 0,
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    // long enough for a challenge stored late, its token, and the clean up
    let len = (2 * dur + 4 + if gc { 3 * p.gc } else { 0 }) * 1_000_000;
    let known: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let mut cl: Vec<Client> = vec![];
    for (c, t) in tpl.iter().enumerate() {
        let mut ops = vec![];
        let mut n = 100 * c;
        for round in 0..ROUNDS {
            let t0 = round as u64 * len;
            ops.push(Op::At { us: t0 });
            ops.extend(shifted(&t.ops, &known, round, t0, &mut n));
        }
        // everybody keeps its script until the end
        ops.push(Op::At {
            us: ROUNDS as u64 * len,
        });
        cl.push(Client { ops, ..t.clone() });
    }
    let mut ops = vec![];
    for round in 0..ROUNDS {
        let end = (round as u64 + 1) * len;
        if fl == "restart-system" {
            ops.push(Op::At { us: end - 900_000 });
            ops.push(Op::DropSystem);
            ops.push(Op::RebuildSystem {
                runners: p.runners,
                queue: p.queue,
            });
        }
        ops.push(Op::At { us: end - 200_000 });
        ops.push(Op::Mem);
    }
    cl.push(Client {
        thread: 0,
        sys: 0,
        start_us: 0,
        ops,
    });
    let init = (0..ns).collect();
    p.epochs = vec![epoch(init, cl, vec![])];
    p
}

fn check23(cx: &mut Cx) {
    let marks: Vec<(usize, i64, i64, u64)> = cx
        .h
        .evs
        .iter()
        .filter_map(|e| match e.r {
            R::Mem { bytes, blocks, keys } => Some((e.id, bytes, blocks, keys)),
            _ => None,
        })
        .collect();
    if let Some(m) = marks.iter().find(|m| m.3 > 0) {
        cx.v(
            "keys-left",
            format!("call #{}: {} challenges or tokens are still in Redis after all of them have expired", m.0, m.3),
        );
    }
    if marks.len() < ROUNDS {
        return;
    }
    cx.nontrivial = true;
    let grow: Vec<(i64, i64)> = (WARM..ROUNDS).map(|k| (marks[k].2 - marks[k - 1].2, marks[k].1 - marks[k - 1].1)).collect();
    if std::env::var("MCSIM_MEM").is_ok() {
        eprintln!("mem {} {:?}", cx.p.flavor, marks.iter().map(|m| (m.1, m.2)).collect::<Vec<_>>());
    }
    // a pool that grows does so once in a while; a leak with every round
    let up = grow.iter().filter(|g| g.0 > 0).count();
    let sum: i64 = grow.iter().map(|g| g.0).sum();
    if up + 1 >= grow.len() && sum >= 2 * grow.len() as i64 {
        cx.v(
            "grows",
            format!(
                "after every round of use, with all of it expired, the system holds more blocks of memory than before: +{:?} (bytes +{:?})",
                grow.iter().map(|g| g.0).collect::<Vec<_>>(),
                grow.iter().map(|g| g.1).collect::<Vec<_>>()
            ),
        );
    }
}
