//! C09, C10, C13: visitor counts, difficulty levels, snapshots.
use super::gen::*;
use super::*;
use crate::hist::SiteSnap;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "count between the visits certainly and the visits possibly within the last duration",
            gen: |r, i| maybe_long(r, i, gen09),
            check: check09,
            pair: false,
        },
        Prop {
            id: "C10",
            rule: "the sequence of difficulties is one the level automaton can produce for some order and expiry of the visits",
            gen: |r, i| maybe_long(r, i, gen10),
            check: check10,
            pair: false,
        },
        Prop {
            id: "C13",
            rule: "snapshot = state, restore = snapshot, restored visitors leave after one duration",
            gen: |r, i| maybe_long(r, i, gen13),
            check: check13,
            pair: false,
        },
    ]
}

/// the site a name stands for; renames in these plans only ever go to fresh names
fn root(p: &Plan, name: &str) -> String {
    let mut n = name.to_string();
    let mut all = vec![];
    fn rec<'a>(ops: &'a [Op], all: &mut Vec<(&'a str, &'a str)>) {
        for o in ops {
            match o {
                Op::Rename { from, to, .. } => all.push((from, to)),
                Op::Par { ops } => rec(ops, all),
                _ => {}
            }
        }
    }
    for e in p.epochs.iter() {
        for c in e.clients.iter() {
            rec(&c.ops, &mut all);
        }
        rec(&e.post, &mut all);
    }
    for _ in 0..8 {
        if let Some((f, _)) = all.iter().find(|(_, t)| *t == n) {
            n = f.to_string();
        }
    }
    n
}

#[derive(Clone)]
pub struct Vis {
    pub id: usize,
    pub client: usize,
    pub t0: Ns,
    pub t1: Ns,
    pub s0: u64,
    pub s1: u64,
    pub diff: Option<u32>,
    pub acked: bool,
}

/// visits of an epoch to the site with this root name
fn visits(cx: &Cx, epoch: usize, site: &str) -> Vec<Vis> {
    let mut v = vec![];
    for e in cx.h.evs.iter().filter(|e| e.epoch == epoch) {
        let (n, diff, acked) = match (&e.op, &e.r) {
            (Op::Visit { site, .. }, R::Visit { diff, .. }) => (site, Some(*diff), true),
            (Op::GetPow { site, .. }, R::Pow { diff, .. }) => (site, Some(*diff), true),
            (Op::Visit { site, .. } | Op::GetPow { site, .. }, R::NoVisit | R::NoPow | R::Skipped) => {
                let _ = site;
                continue;
            }
            (Op::Visit { site, .. } | Op::GetPow { site, .. }, _) => (site, None, false),
            _ => continue,
        };
        if root(cx.p, n) != site {
            continue;
        }
        // an abandoned request may take effect any time later
        v.push(Vis {
            id: e.id,
            client: e.client,
            t0: e.t0,
            t1: if acked { e.t1 } else { u64::MAX / 4 },
            s0: e.s0,
            s1: if acked { e.s1 } else { u64::MAX },
            diff,
            acked,
        });
    }
    v
}

// ------------------------------------------------------------------ C09

fn gen09(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 5 {
        _ if i % 40 == 39 => "bulk",
        k => ["steady", "burst", "expiry", "admin", "wall"][k as usize],
    };
    let mut p = base(r, "C09", fl);
    if r.chance(6500) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = 0;
    if r.chance(1500) {
        p.backend = Backend::Mixed;
    }
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (1, 5));
    let ncl = r.range(1, 4) as usize;
    let p_cancel = *r.pick(&[0, 0, 800]);
    let mut cl = vec![];
    for c in 0..ncl {
        let mut ops = vec![];
        let mut t = r.range(0, 900_000);
        for k in 0..r.range(3, 14) as usize {
            let s = &p.sites[r.below(ns)];
            let d = s.dur * 1_000_000;
            t += match r.below(5) {
                0 => 0,
                1 => r.range(0, 2_000),
                2 => r.range(0, 900_000),
                3 => d.saturating_sub(r.range(0, 400_000)),
                _ => d + r.range(0, 400_000),
            };
            ops.push(Op::At { us: t });
            let name = s.name.clone();
            let visit = |r: &mut Rng| {
                if r.chance(3000) {
                    Op::GetPow {
                        site: name.clone(),
                        out: 100 + c * 20 + k,
                        cancel: cancel(r, p_cancel),
                    }
                } else {
                    Op::Visit {
                        site: name.clone(),
                        cancel: cancel(r, p_cancel),
                    }
                }
            };
            if fl == "burst" && r.chance(4000) || fl == "bulk" && r.chance(1500) {
                let n = if fl == "bulk" { r.range(100, 2500) } else { r.range(5, 40) };
                ops.push(Op::Par {
                    ops: (0..n).map(|_| visit(r)).collect(),
                });
            } else {
                ops.push(visit(r));
            }
            if r.chance(5000) {
                ops.push(Op::Count {
                    site: r.pick(&p.sites).name.clone(),
                });
            }
        }
        cl.push(Client {
            thread: if r.chance(5000) { c } else { 0 },
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    // readers
    for _ in 0..r.range(1, 2) {
        let mut ops = vec![];
        let mut t = 0;
        for _ in 0..r.range(4, 14) {
            t += *r.pick(&[1_000, 250_000, 500_000, 700_000, 1_000_000, 1_300_000]);
            ops.push(Op::At {
                us: t + r.range(0, 50_000),
            });
            if r.chance(2500) {
                ops.push(Op::Snapshot { out: 9 });
            } else {
                ops.push(Op::Count {
                    site: r.pick(&p.sites).name.clone(),
                });
            }
        }
        cl.push(Client {
            thread: r.below(3),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if fl == "admin" {
        let mut ops = vec![];
        for k in 0..r.range(1, 2) as usize {
            ops.push(Op::Sleep {
                us: r.range(1000, 3_000_000),
            });
            let from = p.sites[k % ns].name.clone();
            let to = format!("{from}-renamed-{k}");
            ops.push(Op::Rename {
                from: if k > 0 && ns == 1 { format!("{from}-renamed-0") } else { from },
                to: to.clone(),
                cancel: None,
            });
            for _ in 0..r.range(1, 4) {
                ops.push(Op::Visit {
                    site: to.clone(),
                    cancel: None,
                });
                ops.push(Op::Count { site: to.clone() });
                ops.push(Op::Sleep {
                    us: r.range(1000, 900_000),
                });
            }
        }
        cl.push(Client {
            thread: r.below(2),
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    if fl == "wall" {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            ops.push(Op::Sleep {
                us: r.range(1000, 2_000_000),
            });
            ops.push(Op::WallJump {
                ms: *r.pick(&[-86_400_000, -3_600_000, -1500, 1500, 3_600_000, 86_400_000]),
            });
        }
        cl.push(Client {
            thread: 0,
            sys: 0,
            start_us: 0,
            ops,
        });
    }
    let mut post = vec![];
    for s in p.sites.iter() {
        post.push(Op::Count { site: s.name.clone() });
    }
    post.push(Op::Sleep { us: 7_000_000 });
    for s in p.sites.iter() {
        post.push(Op::Count { site: s.name.clone() });
    }
    let init = (0..ns).collect();
    p.epochs = vec![epoch(init, cl, post)];
    p
}

/// bounds on the count of visits at the time of event `e`
fn bounds(cx: &Cx, vs: &[Vis], dur: Ns, t0: Ns, t1: Ns, s0: u64, s1: u64) -> (u64, u64) {
    let (mut lo, mut hi) = (0, 0);
    for v in vs {
        if v.acked && v.s1 < s0 && t1 < v.t0.saturating_add(dur) {
            lo += 1;
        }
        if v.s0 < s1 && v.t1.saturating_add(dur).saturating_add(cx.slack(v.t0, t0)) >= t0 {
            hi += 1;
        }
    }
    (lo, hi)
}

fn check09(cx: &mut Cx) {
    cx.no_stuck(&["visit", "count", "snapshot"], "stuck");
    let mut cache: BTreeMap<(usize, String), Vec<Vis>> = BTreeMap::new();
    let mut n = 0;
    let evs: Vec<&Ev> = cx.h.evs.iter().collect();
    for e in evs {
        let obs: Vec<(String, u64)> = match (&e.op, &e.r) {
            (Op::Count { site }, R::Count(n)) => vec![(site.clone(), *n)],
            (Op::Snapshot { .. }, R::Sites(m)) => m.iter().map(|(k, v)| (k.clone(), v.visitors as u64)).collect(),
            _ => continue,
        };
        for (name, got) in obs {
            let rt = root(cx.p, &name);
            let Some(cfg) = cx.p.sites.iter().find(|s| s.name == rt) else { continue };
            let key = (e.epoch, rt.clone());
            if !cache.contains_key(&key) {
                let v = visits(cx, e.epoch, &rt);
                cache.insert(key.clone(), v);
            }
            let vs = &cache[&key];
            let (lo, hi) = bounds(cx, vs, cfg.dur * SEC, e.t0, e.t1, e.s0, e.s1);
            n += (hi > 0) as u64;
            if got < lo || got > hi {
                cx.v(
                    if got < lo { "count-low" } else { "count-high" },
                    format!(
                        "call #{}: count of {name:?} is {got} at {} ms, but {lo}..={hi} visits fall into the last {} s",
                        e.id,
                        e.t0 / MS,
                        cfg.dur
                    ),
                );
            }
        }
    }
    cx.nontrivial = n > 0;
}

// ------------------------------------------------------------------ C10

fn gen10(r: &mut Rng, i: u64) -> Plan {
    let fl = match i % 5 {
        _ if i % 40 == 39 => "bulk",
        k => ["sequential", "steady", "concurrent", "decay", "many"][k as usize],
    };
    let mut p = base(r, "C10", fl);
    if r.chance(7500) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = 0;
    let ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (1, 6));
    for s in p.sites.iter_mut() {
        let n = if fl == "many" { r.range(5, 16) } else { r.range(1, 4) } as usize;
        let gap = match fl {
            "bulk" => *r.pick(&[60, 300, 1200]),
            "many" => 2,
            _ => *r.pick(&[1, 3, 6]),
        };
        s.levels = levels(r, n, gap);
        if r.chance(4000) {
            // equal difficulties are fine
            for k in 1..n {
                if r.chance(4000) {
                    s.levels[k].1 = s.levels[k - 1].1;
                }
            }
        }
    }
    let mut cl = vec![];
    for k in 0..ns {
        let s = p.sites[k].clone();
        let d = s.dur * 1_000_000;
        let top = s.levels.last().unwrap().0 as u64;
        let visit = |r: &mut Rng, o: usize| {
            if r.chance(2000) {
                Op::GetPow {
                    site: s.name.clone(),
                    out: 100 + k * 100 + o,
                    cancel: None,
                }
            } else {
                Op::Visit {
                    site: s.name.clone(),
                    cancel: None,
                }
            }
        };
        let nc = if fl == "concurrent" { r.range(2, 3) as usize } else { 1 };
        for c in 0..nc {
            let mut ops = vec![];
            let mut t = r.range(0, 500_000);
            let mut left = match fl {
                "concurrent" => 8,
                "many" => 100,
                "bulk" => 4000,
                _ => 40,
            };
            for o in 0..r.range(2, 8) as usize {
                ops.push(Op::At { us: t });
                let n = match fl {
                    "steady" => r.range(1, 3),
                    "concurrent" => r.range(1, 4),
                    _ => r.range(1, top + 4),
                }
                .min(left);
                left -= n;
                if fl == "concurrent" && r.chance(5000) {
                    ops.push(Op::Par {
                        ops: (0..n).map(|j| visit(r, o * 10 + j as usize)).collect(),
                    });
                } else {
                    for j in 0..n {
                        ops.push(visit(r, o * 10 + j as usize));
                    }
                }
                t += match (fl, r.below(3)) {
                    ("steady", _) => d / r.range(2, 5) + r.range(0, 300_000),
                    ("decay", 0) => d + 400_000,
                    ("decay", _) => d / 2 + 100_000,
                    (_, 0) => 1000,
                    (_, 1) => d / 3,
                    _ => d + 400_000,
                };
            }
            cl.push(Client {
                thread: if r.chance(5000) { (k + c) % 4 } else { 0 },
                sys: 0,
                start_us: 0,
                ops,
            });
        }
    }
    let init = (0..ns).collect();
    p.epochs = vec![epoch(init, cl, vec![])];
    p
}

/// levels a visitor can be given at level `lv` when `lo..=hi` visitors are counted with it
fn step(levels: &[(u32, u32)], lv: usize, lo: u64, hi: u64) -> [bool; 64] {
    let mut next = [false; 64];
    let top = levels.len() - 1;
    let down = if lv > 0 { levels[lv - 1].0 as u64 } else { 0 };
    let up = levels[lv].0 as u64;
    if hi > up {
        next[(lv + 1).min(top)] = true;
    }
    if lv > 0 && lo <= down {
        next[lv - 1] = true;
    }
    let from = if lv > 0 { lo.max(down + 1) } else { lo };
    if from <= hi.min(up) {
        next[lv] = true;
    }
    next
}

/// the same for visits that came strictly one after the other
fn levels_in_order(cx: &Cx, vs: &[&Vis], levels: &[(u32, u32)], dur: Ns, start: usize, base: (u64, u64)) -> Option<String> {
    let mut at: BTreeSet<usize> = BTreeSet::from([start]);
    // visits before these have certainly, or possibly, expired
    let (mut sure, mut maybe) = (0, 0);
    for (i, e) in vs.iter().enumerate() {
        while maybe < i && vs[maybe].t1.saturating_add(dur).saturating_add(cx.slack(vs[maybe].t0, e.t0)) < e.t0 {
            maybe += 1;
        }
        while sure < i && e.t1 >= vs[sure].t0.saturating_add(dur) {
            sure += 1;
        }
        let lo = base.0 + (i - sure) as u64 + 1;
        let hi = base.1 + (i - maybe) as u64 + 1;
        let mut to = BTreeSet::new();
        for lv in at.iter() {
            let next = step(levels, *lv, lo, hi);
            to.extend((0..levels.len()).filter(|n| next[*n] && e.diff.map_or(true, |d| d == levels[*n].1)));
        }
        if to.is_empty() {
            return Some(format!(
                "after {i} visits in a row the site is at level {at:?}; call #{} of client {} got difficulty {:?} with {lo}..={hi} visitors counted (levels {levels:?})",
                e.id, e.client, e.diff
            ));
        }
        at = to;
    }
    None
}

/// can the level automaton produce these difficulties?
pub fn levels_ok(cx: &Cx, vs: &[Vis], levels: &[(u32, u32)], dur: Ns, start: usize, base: (u64, u64)) -> Option<String> {
    let n = vs.len();
    let mut vs: Vec<&Vis> = vs.iter().collect();
    vs.sort_by_key(|v| v.s0);
    if vs.windows(2).all(|w| w[0].s1 < w[1].s0) && vs.iter().all(|v| v.acked) {
        return levels_in_order(cx, &vs, levels, dur, start, base);
    }
    if n == 0 || n > 120 {
        return None;
    }
    // expiry relations
    let mut sure = vec![0u128; n];
    let mut maybe = vec![0u128; n];
    let mut before = vec![0u128; n];
    for (i, e) in vs.iter().enumerate() {
        for (j, v) in vs.iter().enumerate() {
            if i == j {
                continue;
            }
            if v.s1 < e.s0 {
                before[i] |= 1 << j;
            }
            if v.acked && e.t1 < v.t0.saturating_add(dur) {
                sure[i] |= 1 << j;
            }
            if v.t1.saturating_add(dur).saturating_add(cx.slack(v.t0, e.t0)) >= e.t0 {
                maybe[i] |= 1 << j;
            }
        }
    }
    let all = vs.iter().enumerate().filter(|(_, v)| v.acked).fold(0u128, |a, (i, _)| a | 1 << i);
    let mut seen: HashSet<(u128, usize)> = HashSet::new();
    let mut stack = vec![(0u128, start)];
    let mut best = (0u32, 0u128, start);
    let mut budget = 150_000;
    while let Some((done, lv)) = stack.pop() {
        if done & all == all {
            return None;
        }
        if !seen.insert((done, lv)) {
            continue;
        }
        budget -= 1;
        if budget == 0 {
            return None;
        }
        if done.count_ones() > best.0 {
            best = (done.count_ones(), done, lv);
        }
        for i in 0..n {
            if done >> i & 1 == 1 || before[i] & !done & all != 0 {
                continue;
            }
            let lo = base.0 + (done & sure[i]).count_ones() as u64 + 1;
            let hi = base.1 + (done & maybe[i]).count_ones() as u64 + 1;
            let next = step(levels, lv, lo, hi);
            for nl in 0..levels.len() {
                if next[nl] && vs[i].diff.map_or(true, |d| d == levels[nl].1) {
                    stack.push((done | 1 << i, nl));
                }
            }
        }
    }
    let mut todo: Vec<&Vis> = vs.iter().enumerate().filter(|(i, _)| best.1 >> i & 1 == 0).map(|(_, v)| *v).collect();
    todo.sort_by_key(|v| v.s0);
    let e = todo[0];
    Some(format!(
        "after {} visits the site is at level {} (difficulty {}); call #{} of client {} got difficulty {:?}, which no order and expiry of the visits allows (levels {levels:?})",
        best.0,
        best.2,
        levels[best.2].1,
        e.id,
        e.client,
        e.diff
    ))
}

fn check10(cx: &mut Cx) {
    let mut n = 0;
    for s in cx.p.sites.iter() {
        for ep in 0..cx.p.epochs.len() {
            let vs = visits(cx, ep, &s.name);
            for v in vs.iter() {
                if let Some(d) = v.diff {
                    if !s.levels.iter().any(|l| l.1 == d) {
                        cx.v("no-such-level", format!("call #{}: difficulty {d} is not configured for {:?}", v.id, s.name));
                        return;
                    }
                }
            }
            let lv: BTreeSet<_> = vs.iter().filter_map(|v| v.diff).collect();
            n += lv.len();
            // level 0 is where it starts; the first visitor may move it up
            if let Some(m) = levels_ok(cx, &vs, &s.levels, s.dur * SEC, 0, (0, 0)) {
                cx.v("level", format!("site {:?}: {m}", s.name));
            }
        }
    }
    cx.nontrivial = n > 1;
}

// ------------------------------------------------------------------ C13

/// a load that would take too long to build up
fn more(r: &mut Rng) -> u32 {
    if r.chance(9000) {
        return 0;
    }
    *r.pick(&[100, 254, 1000, 32_766, 65_530, 100_000, 1_000_000, 16_777_215, 1_000_000_000])
}

fn gen13(r: &mut Rng, i: u64) -> Plan {
    let bulk = i % 40 == 37;
    let fl = ["crash", "live", "again", "busy", "churn"][(i % 5) as usize];
    let mut p = base(r, "C13", if bulk { "bulk" } else { fl });
    if r.chance(7500) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = 0;
    let mut ns = r.range(1, 3) as usize;
    p.sites = sites(r, ns, (2, 5));
    if bulk {
        p.pol.sched = crate::core::Sched::Fifo;
        ns = r.range(20, 120) as usize;
        p.sites = many_sites(r, ns, (2, 5));
        if r.chance(3000) {
            // or large ones
            p.sites.truncate(2);
            ns = 2;
            for s in p.sites.iter_mut() {
                let n = r.range(10, 60) as usize;
                s.levels = levels(r, n, 50);
            }
        }
    }
    let names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let many = if bulk { 10 } else { 1 };
    let visits = |r: &mut Rng, n: u64, gap: u64| {
        let mut ops = vec![];
        for _ in 0..r.range(0, n * many) {
            ops.push(Op::Visit {
                site: r.pick(&names).clone(),
                cancel: None,
            });
            if r.chance(4000 / many as u32) {
                ops.push(Op::Sleep { us: r.range(1, gap) });
            }
        }
        ops
    };
    let look = |r: &mut Rng, n: u64, gap: u64| {
        let mut ops = vec![];
        for _ in 0..r.range(1, n) {
            ops.push(Op::Sleep { us: r.range(1000, gap) });
            match r.below(4) {
                0 => ops.push(Op::Snapshot { out: 90 }),
                1 => ops.push(Op::Visit {
                    site: r.pick(&names).clone(),
                    cancel: None,
                }),
                _ => ops.push(Op::Count {
                    site: r.pick(&names).clone(),
                }),
            }
        }
        ops
    };
    let cl = |ops: Vec<Op>, thread: usize| Client {
        thread,
        sys: 0,
        start_us: 0,
        ops,
    };
    let init: Vec<usize> = (0..ns).collect();
    match fl {
        "crash" => {
            // only the last snapshot survives
            let mut e0 = epoch(init, vec![], vec![]);
            let mut v = visits(r, 14, 900_000);
            v.push(Op::Sleep { us: 1000 });
            v.push(Op::Snapshot { out: 0 });
            let n2 = visits(r, 5, 100_000);
            v.extend(n2);
            e0.clients.push(cl(v, 0));
            if r.chance(4000) {
                let v = visits(r, 6, 900_000);
                e0.clients.push(cl(v, 1));
            }
            if r.chance(5000) {
                e0.crash_at_us = Some(r.range(100_000, 4_000_000));
            }
            let mut e1 = epoch(vec![], vec![], vec![]);
            let mut v = vec![Op::Restore { from: 0, cancel: None, more: more(r) }];
            if r.chance(5000) {
                v.push(Op::Snapshot { out: 1 });
            }
            v.extend(look(r, 9, 1_500_000));
            e1.clients.push(cl(v, r.below(2)));
            if r.chance(5000) {
                let v = visits(r, 6, 400_000);
                e1.clients.push(cl(v, 1));
            }
            e1.post = vec![Op::Sleep { us: 6_500_000 }, Op::Snapshot { out: 3 }];
            p.epochs = vec![e0, e1];
        }
        "churn" => {
            // sites nobody asks about come and go around the snapshots
            let cn = ["!churn", "a-churn", "churn", "s-churn", "zz-churn"];
            let mut v = visits(r, 8, 300_000);
            for k in 0..r.range(2, 6) as usize {
                for c in cn.iter() {
                    if r.chance(7000) {
                        v.push(Op::AddSite {
                            cfg: r.below(ns),
                            name: Some(c.to_string()),
                            cancel: None,
                        });
                    }
                }
                let mut par = vec![Op::Snapshot { out: k % 2 }];
                for _ in 0..r.range(1, 4) {
                    let c = r.pick(&cn).to_string();
                    let o = match r.below(6) {
                        0 => Op::AddSite {
                            cfg: r.below(ns),
                            name: Some(c),
                            cancel: None,
                        },
                        1 => Op::Rename {
                            from: c,
                            to: r.pick(&cn).to_string(),
                            cancel: None,
                        },
                        2 => Op::Visit {
                            site: r.pick(&names).clone(),
                            cancel: None,
                        },
                        _ => Op::Remove { site: c, cancel: None },
                    };
                    par.insert(r.below(par.len() + 1), o);
                }
                v.push(Op::Par { ops: par });
                let n = visits(r, 4, 300_000);
                v.extend(n);
                if r.chance(3000) {
                    v.push(Op::Restore { from: k % 2, cancel: None, more: more(r) });
                }
            }
            let l = look(r, 5, 900_000);
            v.extend(l);
            let mut e = epoch(init, vec![cl(v, r.below(2))], vec![]);
            e.post = vec![Op::Sleep { us: 6_500_000 }, Op::Snapshot { out: 3 }];
            p.epochs = vec![e];
        }
        _ => {
            let mut v = visits(r, 10, 900_000);
            v.push(Op::Sleep { us: 1000 });
            v.push(Op::Snapshot { out: 0 });
            let rest = if fl == "again" { r.range(2, 3) } else { 1 };
            for _ in 0..rest {
                let n = visits(r, 5, 700_000);
                v.extend(n);
                v.push(Op::Sleep {
                    us: r.range(1000, 2_500_000),
                });
                v.push(Op::Restore { from: 0, cancel: None, more: more(r) });
                if r.chance(5000) {
                    v.push(Op::Snapshot { out: 1 });
                }
                if r.chance(3000) {
                    v.push(Op::Snapshot { out: 0 });
                }
                let l = look(r, 5, 900_000);
                v.extend(l);
            }
            let l = look(r, 6, 1_500_000);
            v.extend(l);
            let mut cls = vec![cl(v, r.below(2))];
            if fl == "busy" {
                let a = visits(r, 10, 600_000);
                let b = look(r, 8, 900_000);
                cls.push(cl(a, 1));
                cls.push(cl(b, 2));
            }
            let mut e = epoch(init, cls, vec![]);
            e.post = vec![Op::Sleep { us: 6_500_000 }, Op::Snapshot { out: 3 }];
            p.epochs = vec![e];
        }
    }
    p
}

fn check13(cx: &mut Cx) {
    cx.no_stuck(&["snapshot", "restore"], "stuck");
    let evs: Vec<&Ev> = cx.h.evs.iter().collect();
    let parse = |e: &Ev| -> BTreeMap<String, SiteSnap> {
        e.arg.as_deref().and_then(|a| serde_json::from_str(a).ok()).unwrap_or_default()
    };
    let restores: Vec<(&Ev, BTreeMap<String, SiteSnap>)> = evs
        .iter()
        .filter(|e| matches!(e.op, Op::Restore { .. }) && e.r != R::Skipped)
        .map(|e| (*e, parse(e)))
        .collect();
    for (e, _) in restores.iter() {
        if matches!(e.r, R::Err(_)) {
            cx.v("restore-failed", format!("call #{}: restore gave {:?}", e.id, e.r));
        }
    }
    let mut n = 0;
    for e in evs.iter() {
        let (obs, whole): (Vec<(String, Option<u64>, Option<SiteSnap>)>, bool) = match (&e.op, &e.r) {
            (Op::Count { site }, R::Count(n)) => (vec![(site.clone(), Some(*n), None)], false),
            (Op::Count { site }, R::Absent) | (Op::Visit { site, .. }, R::NoVisit) => (vec![(site.clone(), None, None)], false),
            (Op::Visit { site, .. }, R::Err(_)) => (vec![(site.clone(), None, None)], false),
            (Op::Snapshot { .. }, R::Sites(m)) => {
                let mut v: Vec<_> = m
                    .iter()
                    .map(|(k, s)| (k.clone(), Some(s.visitors as u64), Some(s.clone())))
                    .collect();
                for s in cx.p.sites.iter() {
                    if !m.contains_key(&s.name) {
                        v.push((s.name.clone(), None, None));
                    }
                }
                (v, true)
            }
            (Op::Snapshot { .. }, R::Err(x)) => {
                cx.v("snapshot-failed", format!("call #{}: {x}", e.id));
                continue;
            }
            _ => continue,
        };
        for (name, got, snap) in obs {
            if name.contains("churn") {
                continue;
            }
            let Some(cfg) = cx.p.sites.iter().find(|s| s.name == name) else {
                cx.v("ghost-site", format!("call #{}: snapshot has a site {name:?} that nobody registered", e.id));
                continue;
            };
            // is the site there for certain?
            let there = evs.iter().any(|a| {
                a.epoch == e.epoch
                    && a.s1 < e.s0
                    && a.r == R::Unit
                    && (matches!(a.op, Op::AddSite { .. }) && a.arg.as_deref() == Some(&name)
                        || matches!(a.op, Op::Restore { .. }) && parse(a).contains_key(&name))
            });
            let Some(got) = got else {
                if there {
                    cx.v("site-missing", format!("call #{}: {name:?} is registered or restored, yet not there", e.id));
                }
                continue;
            };
            if let Some(s) = &snap {
                if s.dur != cfg.dur || s.levels != cfg.levels {
                    cx.v(
                        "config-changed",
                        format!("call #{}: {name:?} has duration {} levels {:?}", e.id, s.dur, s.levels),
                    );
                }
            }
            let _ = whole;
            // restores that certainly, or possibly, are the latest
            let dur = cfg.dur * SEC;
            let rs: Vec<&(&Ev, BTreeMap<String, SiteSnap>)> = restores
                .iter()
                .filter(|(x, m)| x.epoch == e.epoch && m.contains_key(&name) && x.s0 < e.s1)
                .collect();
            let last_sure = rs.iter().filter(|x| x.0.s1 < e.s0 && x.0.r == R::Unit).max_by_key(|x| x.0.s0);
            let cands: Vec<Option<&(&Ev, BTreeMap<String, SiteSnap>)>> = {
                let mut c: Vec<Option<_>> = rs
                    .iter()
                    .filter(|x| last_sure.map_or(true, |l| x.0.s1 >= l.0.s0))
                    .map(|x| Some(*x))
                    .collect();
                if last_sure.is_none() {
                    c.push(None);
                }
                c
            };
            let vs = visits(cx, e.epoch, &name);
            let (mut lo, mut hi) = (u64::MAX, 0);
            for c in cands {
                let (l, h) = match c {
                    None => bounds(cx, &vs, dur, e.t0, e.t1, e.s0, e.s1),
                    Some((x, m)) => {
                        // visits before the restore are forgotten with the state it replaces
                        let sure: Vec<Vis> = vs.iter().filter(|v| v.s0 > x.s1).cloned().collect();
                        let poss: Vec<Vis> = vs.iter().filter(|v| v.s1 > x.s0).cloned().collect();
                        let l = bounds(cx, &sure, dur, e.t0, e.t1, e.s0, e.s1).0;
                        let h = bounds(cx, &poss, dur, e.t0, e.t1, e.s0, e.s1).1;
                        let k = m[&name].visitors as u64;
                        (
                            l + if e.t1 < x.t0 + dur && x.s1 < e.s0 { k } else { 0 },
                            h + if e.t0 <= x.t1.saturating_add(dur).saturating_add(cx.slack(x.t0, e.t0)) { k } else { 0 },
                        )
                    }
                };
                lo = lo.min(l);
                hi = hi.max(h);
            }
            n += (last_sure.is_some() && hi > 0) as u64;
            if got < lo || got > hi {
                cx.v(
                    if got < lo { "count-low" } else { "count-high" },
                    format!(
                        "call #{}: count of {name:?} is {got} at {} ms, restored and recent visits allow {lo}..={hi}",
                        e.id,
                        e.t0 / MS
                    ),
                );
            }
        }
    }
    // what comes out of the JSON is what went in
    for (x, m) in restores.iter() {
        let Op::Restore { from, more: 0, .. } = &x.op else { continue };
        let src = evs
            .iter()
            .filter(|e| matches!(&e.op, Op::Snapshot { out } if out == from) && e.s1 < x.s0)
            .filter_map(|e| if let R::Sites(m) = &e.r { Some((e, m)) } else { None })
            .max_by_key(|e| e.0.s1);
        let Some((e, src)) = src else { continue };
        if m != src {
            cx.v(
                "snapshot-json",
                format!("snapshot of call #{} is {src:?}, after a round trip through JSON it is {m:?}", e.id),
            );
        }
    }
    // a snapshot shows the level of the last visit served
    for e in evs.iter() {
        let (Op::Snapshot { .. }, R::Sites(m)) = (&e.op, &e.r) else { continue };
        for s in cx.p.sites.iter() {
            let Some(sn) = m.get(&s.name) else { continue };
            let vs = visits(cx, e.epoch, &s.name);
            // the latest restore or visit, if nothing runs into it
            let mut last: Option<(u64, u64, u32)> = None;
            let mut end = 0;
            for v in vs.iter().filter(|v| v.s0 < e.s1) {
                end = end.max(v.s1);
                if last.map_or(true, |l| l.0 < v.s0) {
                    last = v.diff.map(|d| (v.s0, v.s1, d));
                    if last.is_none() {
                        end = u64::MAX;
                    }
                }
            }
            for (x, rm) in restores.iter().filter(|x| x.0.epoch == e.epoch && x.0.s0 < e.s1) {
                let Some(r) = rm.get(&s.name) else { continue };
                end = end.max(x.s1);
                if last.map_or(true, |l| l.0 < x.s0) {
                    last = Some((x.s0, x.s1, r.diff));
                }
            }
            let want = match last {
                Some((_, s1, d)) if s1 == end && end < e.s0 => d,
                // nobody else was still on the way when the last one started?
                None if end == 0 => s.levels[0].1,
                _ => continue,
            };
            if let Some((s0, ..)) = last {
                let open = vs.iter().any(|v| v.s0 < s0 && v.s1 > s0)
                    || restores.iter().any(|x| x.0.epoch == e.epoch && x.0.s0 < s0 && x.0.s1 > s0);
                if open {
                    continue;
                }
            }
            if sn.diff != want {
                cx.v(
                    "level-lost",
                    format!(
                        "call #{}: snapshot has {:?} at difficulty {}, its last visit or restore left it at {want}",
                        e.id, s.name, sn.diff
                    ),
                );
            }
        }
    }
    // levels: from a restore on, the automaton continues where the snapshot was taken
    for s in cx.p.sites.iter() {
        let dur = s.dur * SEC;
        for (x, m) in restores.iter() {
            let Some(sn) = m.get(&s.name) else { continue };
            if x.r != R::Unit || restores.iter().any(|(o, _)| o.id != x.id && o.epoch == x.epoch && o.s0 > x.s0) {
                continue;
            }
            // (several levels may have the same difficulty)
            let starts: Vec<usize> = (0..s.levels.len()).filter(|k| s.levels[*k].1 == sn.diff).collect();
            if starts.is_empty() {
                cx.v("level-lost", format!("call #{}: snapshot of {:?} has difficulty {}", x.id, s.name, sn.diff));
                continue;
            }
            let all = visits(cx, x.epoch, &s.name);
            // only when nothing of it ran into the restore; and while the restored visitors are all there
            if all.iter().any(|v| v.s0 < x.s1 && v.s1 > x.s0) {
                continue;
            }
            let vs: Vec<Vis> = all
                .into_iter()
                .filter(|v| v.s0 > x.s1 && v.t1 < x.t0 + dur)
                .collect();
            let k = sn.visitors as u64;
            let mut bad = None;
            for start in starts {
                bad = levels_ok(cx, &vs, &s.levels, dur, start, (k, k));
                if bad.is_none() {
                    break;
                }
            }
            if let Some(msg) = bad {
                cx.v("level-lost", format!("site {:?} after the restore in call #{}: {msg}", s.name, x.id));
            }
            // a snapshot right after the restore shows the restored level
            for e in evs.iter() {
                let (Op::Snapshot { .. }, R::Sites(now)) = (&e.op, &e.r) else { continue };
                if e.epoch != x.epoch || e.s0 < x.s1 {
                    continue;
                }
                if cx.h.evs.iter().any(|v| {
                    matches!(&v.op, Op::Visit { site, .. } | Op::GetPow { site, .. } if *site == s.name)
                        && v.epoch == x.epoch
                        && v.s1 > x.s0
                        && v.s0 < e.s1
                }) {
                    continue;
                }
                if let Some(a) = now.get(&s.name) {
                    if a.diff != sn.diff {
                        cx.v(
                            "level-lost",
                            format!("call #{}: {:?} is at difficulty {}, restored at {}", e.id, s.name, a.diff, sn.diff),
                        );
                    }
                }
            }
        }
    }
    cx.nontrivial = n > 0;
}
