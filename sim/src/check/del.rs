//! C24: explicit deletion from the embedded cache.
use super::gen::*;
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "nothing deleted is accepted by a call that starts later; nothing else is affected",
        gen: |r, i| maybe_shared(r, i, |r, i| maybe_long(r, i, gen24)),
        check: check24,
        pair: false,
    }]
}

fn del(r: &mut Rng, slot: usize) -> Op {
    match r.below(12) {
        0 => Op::DelPow {
            ch: slot,
            how: Some(r.pick(ALTER).to_string()),
        },
        1..=5 => Op::DelPow { ch: slot, how: None },
        // the token's string is no challenge's, and the other way round
        6 => Op::DelTok { tok: Tok::Chal(slot) },
        7 => Op::DelTok {
            tok: Tok::Alter(r.pick(ALTER).to_string(), slot),
        },
        8 => Op::DelTok {
            tok: Tok::Text(r.pick(TEXTS).to_string()),
        },
        _ => Op::DelTok { tok: Tok::Slot(slot) },
    }
}

/// delete it, and maybe store it again
fn again(r: &mut Rng, slot: usize, site: &str) -> Vec<Op> {
    let tok = r.chance(5000);
    let d = |tok: bool| {
        if tok {
            Op::DelTok { tok: Tok::Slot(slot) }
        } else {
            Op::DelPow { ch: slot, how: None }
        }
    };
    let mut v = vec![d(tok)];
    if r.chance(2000) {
        v.push(d(tok));
    }
    if r.chance(8000) {
        v.push(if tok {
            Op::StoreTok {
                slot,
                site: site.to_string(),
            }
        } else {
            Op::StorePow { ch: slot }
        });
        if r.chance(1500) {
            v.push(d(tok));
        }
    }
    v
}

fn gen24(r: &mut Rng, i: u64) -> Plan {
    let fl = ["race", "mix", "lives"][(i % 3) as usize];
    let mut p = base(r, "C24", fl);
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, if fl == "lives" { (1, 3) } else { (20, 60) });
    let site = |r: &mut Rng, p: &Plan| r.pick(&p.sites).name.clone();
    let verify = |r: &mut Rng, k: usize| Op::Verify {
        ch: k,
        raw: None,
        work: if r.chance(1000) { bad_work(r, 8) } else { Work::Honest },
        key: None,
        ip: ip(r.below(4)),
        out: k,
        cancel: cancel(r, 300),
    };
    let mut cl = vec![];
    match fl {
        "race" => {
            // submissions, validations and deletions at the same time
            let n = r.range(2, 10) as usize;
            let mut ops = vec![];
            let names: Vec<String> = (0..n).map(|_| site(r, &p)).collect();
            for k in 0..n {
                ops.push(Op::GetPow {
                    site: names[k].clone(),
                    out: k,
                    cancel: None,
                });
            }
            cl.push(Client { thread: 0, sys: 0, start_us: 0, ops });
            for c in 0..r.range(2, 4) as usize {
                let mut ops = vec![Op::At { us: 40_000 }];
                let mut order: Vec<usize> = (0..n).collect();
                for k in (1..n).rev() {
                    order.swap(k, r.below(k + 1));
                }
                for &k in order.iter() {
                    let mut v = vec![];
                    for _ in 0..r.range(1, 3) {
                        match r.below(6) {
                            0 | 1 => v.push(verify(r, k)),
                            2 | 3 => {
                                let key = names[k].clone();
                                v.push(Op::Validate { tok: Tok::Slot(k), key, cancel: None })
                            }
                            _ if r.chance(3000) => v.extend(again(r, k, &names[k])),
                            _ => v.push(del(r, k)),
                        }
                    }
                    if r.chance(4000) {
                        ops.push(Op::Par { ops: v });
                    } else {
                        ops.extend(v);
                    }
                    if r.chance(3000) {
                        ops.push(Op::Sleep { us: r.range(1, 5000) });
                    }
                }
                cl.push(Client { thread: c, sys: 0, start_us: 0, ops });
            }
        }
        "mix" => {
            let mut t = Traffic::new(r, &p.sites);
            t.p_share = 7000;
            let all = t.slots();
            cl = traffic(r, &t);
            for c in cl.iter_mut() {
                for _ in 0..r.range(1, 5) {
                    let at = r.below(c.ops.len() + 1);
                    let s = r.below(all);
                    c.ops.insert(at, del(r, s));
                }
            }
        }
        _ => {
            // deletions at any time in the life of a challenge or token, and around its end
            for c in 0..r.range(2, 4) as usize {
                let mut ops = vec![];
                let mut t = 0;
                for k in 0..r.range(2, 5) as usize {
                    let s = r.pick(&p.sites).clone();
                    let d = s.dur * 1_000_000;
                    let slot = c * 8 + k;
                    ops.push(Op::At { us: t });
                    ops.push(Op::GetPow { site: s.name.clone(), out: slot, cancel: None });
                    let when = |r: &mut Rng| match r.below(4) {
                        0 => 0,
                        1 => r.range(0, d / 2),
                        2 => d.saturating_sub(r.range(1, 400_000)),
                        _ => d + r.range(200_000, 400_000),
                    };
                    let a = when(r);
                    ops.push(Op::At { us: t + a });
                    if r.chance(3000) {
                        ops.push(del(r, slot));
                    }
                    for _ in 0..r.below(3) {
                        let v = again(r, slot, &s.name);
                        ops.extend(v);
                    }
                    ops.push(verify(r, slot));
                    if r.chance(2000) {
                        // used, and stored again
                        ops.push(Op::StorePow { ch: slot });
                        ops.push(verify(r, slot));
                    }
                    let b = a + when(r);
                    ops.push(Op::At { us: t + b });
                    for _ in 0..r.below(3) {
                        let o = if r.chance(7000) { slot } else { c * 8 + r.below(k + 1) };
                        ops.push(del(r, o));
                    }
                    if r.chance(4000) {
                        let v = again(r, slot, &s.name);
                        ops.extend(v);
                    }
                    for _ in 0..r.range(1, 2) {
                        ops.push(Op::Validate { tok: Tok::Slot(slot), key: s.name.clone(), cancel: None });
                    }
                    t += r.range(0, 2 * b + 1000);
                }
                cl.push(Client { thread: c, sys: 0, start_us: 0, ops });
            }
        }
    }
    let init = (0..ns).collect();
    p.epochs = vec![epoch(init, cl, vec![])];
    p
}

/// May the entry that call `e` asks for be there: was it stored (first or again) by something
/// that was not over before a deletion that was acknowledged before `e`?
/// Some(d): d deleted it for good.
fn gone<'a>(e: &Ev, first: &Ev, again: &[&Ev], dels: &[&'a Ev]) -> Option<&'a Ev> {
    dels.iter()
        .find(|d| d.r == R::Unit && d.s1 < e.s0 && first.s1 < d.s0 && again.iter().all(|a| a.s1 < d.s0 || a.s0 > e.s1))
        .copied()
}

fn check24(cx: &mut Cx) {
    cx.no_stuck(&["del_pow", "del_token", "store_pow", "store_token"], "stuck");
    let issued = cx.issued();
    let minted = cx.passes();
    let named = |n: &str| -> Vec<&Ev> {
        cx.h
            .evs
            .iter()
            .filter(|e| e.op.name() == n && e.arg.is_some() && e.r != R::Skipped)
            .collect()
    };
    let (dp, dt) = (named("del_pow"), named("del_token"));
    let (sp, st) = (named("store_pow"), named("store_token"));
    let mut bad: Vec<(&str, String)> = vec![];
    let mut n = 0;
    for e in dp.iter().chain(dt.iter()).chain(sp.iter()).chain(st.iter()) {
        if !matches!(e.r, R::Unit | R::Pending | R::Lost) {
            bad.push(("failed", format!("call #{}: {} failed: {:?}", e.id, e.op.name(), e.r)));
        }
    }
    fn of<'a>(v: &[&'a Ev], s: &str) -> Vec<&'a Ev> {
        v.iter().filter(|d| d.arg.as_deref() == Some(s)).copied().collect()
    }
    let dur = |name: &str| cx.p.sites.iter().find(|s| s.name == name).map(|s| s.dur * SEC);
    let vs = cx.verifies();
    for e in vs.iter() {
        let s = e.sub.as_ref().unwrap();
        let Some(g) = issued.get(&s.string) else { continue };
        let (dels, agains) = (of(&dp, &s.string), of(&sp, &s.string));
        if let (R::Pass { .. }, Some(d)) = (&e.r, gone(e, g, &agains, &dels)) {
            bad.push(("deleted-passes", format!("call #{}: pass for the challenge of call #{}, deleted by call #{}", e.id, g.id, d.id)));
        }
        let Op::GetPow { site, .. } = &g.op else { continue };
        let (Some(d), true) = (dur(site), correct(cx.p, e, g)) else { continue };
        // stored last by this; the timers of earlier ones still run
        let last = agains.iter().filter(|a| a.r == R::Unit && a.s1 < e.s0).max_by_key(|a| a.s0).copied().unwrap_or(g);
        if e.t1 == u64::MAX || e.t1 >= g.t0 + d {
            continue;
        }
        let used = vs.iter().any(|o| o.id != e.id && o.sub.as_ref().unwrap().string == s.string && o.s0 < e.s1 && o.s1 > last.s0);
        let del = dels.iter().any(|o| o.s0 < e.s1 && o.s1 > last.s0);
        n += !dels.is_empty() as u64;
        if !used && !del && matches!(e.r, R::Err(_)) && !err_is(&e.r, "QueueFull") {
            bad.push((
                "other-challenge-lost",
                format!("call #{}: honest first submission of the challenge stored by call #{}, which nobody deleted since, failed: {:?}", e.id, last.id, e.r),
            ));
        }
    }
    let va = cx.validates();
    for e in va.iter() {
        let t = e.arg.as_ref().unwrap();
        let Op::Validate { key, .. } = &e.op else { continue };
        let Some(m) = minted.get(t) else { continue };
        let (dels, agains) = (of(&dt, t), of(&st, t));
        if let (R::Bool(true), Some(d)) = (&e.r, gone(e, m, &agains, &dels)) {
            bad.push(("deleted-token-valid", format!("call #{}: the token of call #{}, deleted by call #{}, is valid", e.id, m.id, d.id)));
        }
        let site = &m.sub.as_ref().unwrap().key;
        let Some(d) = dur(site) else { continue };
        let last = agains.iter().filter(|a| a.r == R::Unit && a.s1 < e.s0).max_by_key(|a| a.s0).copied().unwrap_or(m);
        if key != site || e.t1 == u64::MAX || e.t1 >= m.t0 + d {
            continue;
        }
        if agains.iter().any(|a| matches!(&a.op, Op::StoreTok { site: s, .. } if s != site)) {
            continue;
        }
        let used = va.iter().any(|o| o.id != e.id && o.arg.as_ref() == Some(t) && o.s0 < e.s1 && o.s1 > last.s0);
        let del = dels.iter().any(|o| o.s0 < e.s1 && o.s1 > last.s0);
        n += !dels.is_empty() as u64;
        if !used && !del && matches!(e.r, R::Bool(false) | R::Err(_)) {
            bad.push((
                "other-token-lost",
                format!("call #{}: first validation of the token stored by call #{}, which nobody deleted since, gave {:?}", e.id, last.id, e.r),
            ));
        }
    }
    cx.nontrivial = n > 0;
    for (k, m) in bad {
        cx.v(k, m);
    }
}
