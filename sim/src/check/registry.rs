//! C11, C12: the embedded registry of sites and its clean-up.
use super::gen::*;
use super::load::{levels_ok, Vis};
use super::*;
use crate::hist::SiteSnap;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "some order of the registry operations that respects real time explains every answer; loads follow the configuration",
            gen: gen11,
            check: check11,
            pair: false,
        },
        Prop {
            id: "C12",
            rule: "what has visitors or was not looked up since registration stays; what is idle goes",
            gen: |r, i| maybe_long(r, i, gen12),
            check: check12,
            pair: false,
        },
    ]
}

fn cl(ops: Vec<Op>, thread: usize) -> Client {
    Client {
        thread,
        sys: 0,
        start_us: 0,
        ops,
    }
}

// ------------------------------------------------------------------ C11

/// every configuration is told apart by its duration and by its difficulties
fn tagged(r: &mut Rng, i: usize, name: &str) -> SiteCfg {
    let n = r.range(1, 3) as u32;
    let t0 = r.below(3) as u32;
    let gap = r.range(1, 3) as u32;
    SiteCfg {
        order: r.below(8),
        name: name.into(),
        dur: 5000 + i as u64,
        levels: (0..n).map(|k| (t0 + k * gap, i as u32 * 4 + k + 1)).collect(),
    }
}

fn gen11(r: &mut Rng, i: u64) -> Plan {
    let fl = if i % 40 == 37 { "bulk" } else { ["collide", "storm", "chain", "alone"][(i % 4) as usize] };
    let mut p = base(r, "C11", fl);
    p.pol.work_us = 0;
    if fl == "bulk" {
        return bulk11(r, p);
    }
    let nn = r.range(2, 4) as usize;
    let mut names = super::gen::names(r, nn);
    if r.chance(2000) {
        names.push(String::new());
    }
    let init_n = r.below(nn + 1);
    for k in 0..init_n {
        let c = tagged(r, k, &names[k]);
        p.sites.push(c);
    }
    let nc = match fl {
        "alone" => 1,
        _ => r.range(2, 4) as usize,
    };
    let admin_p = *r.pick(&[2500, 4500, 6500]);
    let p_cancel = *r.pick(&[0, 0, 600]);
    let total = if fl == "alone" { 26 } else { 22 / nc as u64 + 1 };
    let mut cls = vec![];
    let mut slot = 100;
    let mut cancels = 0;
    for c in 0..nc {
        let mut ops = vec![];
        for _ in 0..r.range(2, total) {
            match r.below(8) {
                0 => ops.push(Op::Sleep {
                    us: *r.pick(&[1, 1000, 5000, 300_000]),
                }),
                1 | 2 if fl == "storm" => ops.push(Op::At {
                    us: r.range(1, 4) * 10_000,
                }),
                _ => {}
            }
            let n = r.pick(&names).clone();
            let mut cn = cancel(r, p_cancel);
            if cn.is_some() {
                cancels += 1;
                if cancels > 2 {
                    cn = None;
                }
            }
            if r.chance(admin_p) {
                let k = if fl == "chain" { 2 } else { r.below(4) };
                ops.push(match k {
                    0 | 3 if p.sites.len() < 12 => {
                        let s = tagged(r, p.sites.len(), &n);
                        p.sites.push(s);
                        Op::AddSite {
                            cfg: p.sites.len() - 1,
                            name: Some(n),
                            cancel: cn,
                        }
                    }
                    1 => Op::Remove { site: n, cancel: cn },
                    _ => Op::Rename {
                        from: n,
                        to: r.pick(&names).clone(),
                        cancel: cn,
                    },
                });
                continue;
            }
            let look = |r: &mut Rng, n: String, slot: &mut usize| {
                *slot += 1;
                match r.below(10) {
                    0..=4 => Op::Visit { site: n, cancel: None },
                    5 | 6 => Op::GetPow {
                        site: n,
                        out: *slot,
                        cancel: None,
                    },
                    7 => Op::Hold { site: n, out: *slot },
                    8 => Op::Count { site: n },
                    _ => Op::Snapshot { out: 0 },
                }
            };
            if fl == "storm" && r.chance(4000) {
                let k = r.range(2, 8);
                ops.push(Op::Par {
                    ops: (0..k)
                        .map(|_| {
                            let n = r.pick(&names).clone();
                            look(r, n, &mut slot)
                        })
                        .collect(),
                });
            } else {
                let o = look(r, n, &mut slot);
                ops.push(o);
            }
        }
        cls.push(cl(ops, if r.chance(6000) { c } else { 0 }));
    }
    let mut post = vec![Op::Sleep { us: 200_000 }, Op::Snapshot { out: 1 }];
    for n in names.iter() {
        post.push(Op::Count { site: n.clone() });
        post.push(Op::Visit {
            site: n.clone(),
            cancel: None,
        });
    }
    post.push(Op::Snapshot { out: 2 });
    p.epochs = vec![epoch((0..init_n).collect(), cls, post)];
    p
}

/// a large registry under one administrator
fn bulk11(r: &mut Rng, mut p: Plan) -> Plan {
    p.pol.sched = crate::core::Sched::Fifo;
    p.pol.p_stall = 0;
    let nn = r.range(20, 150) as usize;
    let pre = *r.pick(&["", "n", "site-", "\u{e9}", "a:"]);
    let names: Vec<String> = (0..nn).map(|k| format!("{pre}{k}")).collect();
    let admin = *r.pick(&[1500, 4000, 8000]);
    let mut ops = vec![];
    let mut slot = 100;
    for k in 0..r.range(150, 600) as usize {
        let n = r.pick(&names).clone();
        if k < nn / 2 || r.chance(admin) {
            let kind = if k < nn / 2 { 0 } else { r.below(4) };
            ops.push(match kind {
                0 | 1 => {
                    let s = tagged(r, p.sites.len(), &n);
                    p.sites.push(s);
                    Op::AddSite {
                        cfg: p.sites.len() - 1,
                        name: Some(n),
                        cancel: None,
                    }
                }
                2 => Op::Remove { site: n, cancel: None },
                _ => Op::Rename {
                    from: n,
                    to: r.pick(&names).clone(),
                    cancel: None,
                },
            });
            continue;
        }
        slot += 1;
        ops.push(match r.below(12) {
            0..=5 => Op::Visit { site: n, cancel: None },
            6 | 7 => Op::GetPow {
                site: n,
                out: slot,
                cancel: None,
            },
            8 => Op::Hold { site: n, out: slot },
            9 | 10 => Op::Count { site: n },
            _ if r.chance(2000) => Op::Snapshot { out: 0 },
            _ => Op::Sleep { us: 1000 },
        });
    }
    ops.push(Op::Snapshot { out: 0 });
    p.epochs = vec![epoch(vec![], vec![cl(ops, 0)], vec![])];
    p
}

/// the registry as a map, for plans in which everything happens one after the other
fn model11(cx: &mut Cx) {
    let mut map: BTreeMap<String, (usize, u64)> = BTreeMap::new();
    let by_dur: BTreeMap<u64, usize> = cx.p.sites.iter().enumerate().map(|(i, s)| (s.dur, i)).collect();
    for e in cx.h.evs.iter() {
        if e.r == R::Skipped {
            continue;
        }
        let p = cx.p;
        let has = |t: usize, d: u32| p.sites[t].levels.iter().any(|l| l.1 == d);
        let bad = match (&e.op, &e.r) {
            (Op::AddSite { cfg, .. }, R::Unit) => {
                map.insert(e.arg.clone().unwrap_or_default(), (*cfg, 0));
                None
            }
            (Op::Remove { site, .. }, R::Unit) => {
                map.remove(site);
                None
            }
            (Op::Rename { from, to, .. }, R::Unit) => {
                if let Some(x) = map.remove(from) {
                    map.insert(to.clone(), x);
                }
                None
            }
            (Op::Visit { site, .. } | Op::GetPow { site, .. }, r) => match (map.get_mut(site), r) {
                (Some((t, n)), R::Visit { dur, diff }) if by_dur.get(dur) == Some(t) && has(*t, *diff) => {
                    *n += 1;
                    None
                }
                (Some((t, n)), R::Pow { diff, .. }) if has(*t, *diff) => {
                    *n += 1;
                    None
                }
                (None, R::NoVisit | R::NoPow) => None,
                (x, _) => Some(format!("the registry has {x:?}")),
            },
            (Op::Hold { site, .. }, r) => match (map.get(site), r) {
                (Some(_), R::Unit) | (None, R::Absent) => None,
                (x, _) => Some(format!("the registry has {x:?}")),
            },
            (Op::Count { site }, r) => match (map.get(site), r) {
                (Some((_, n)), R::Count(m)) if n == m => None,
                (None, R::Absent) => None,
                (x, _) => Some(format!("the registry has {x:?}")),
            },
            (Op::Snapshot { .. }, R::Sites(m)) => {
                let got: BTreeMap<String, (Option<usize>, u64)> = m
                    .iter()
                    .map(|(k, s)| {
                        let t = by_dur.get(&s.dur).copied();
                        let t = t.filter(|t| p.sites[*t].levels == s.levels && has(*t, s.diff));
                        (k.clone(), (t, s.visitors as u64))
                    })
                    .collect();
                let want: BTreeMap<String, (Option<usize>, u64)> =
                    map.iter().map(|(k, (t, n))| (k.clone(), (Some(*t), *n))).collect();
                match want.iter().find(|(k, v)| got.get(*k) != Some(v)) {
                    Some((k, v)) => Some(format!("{k:?} should be {v:?} and is {:?}", got.get(k))),
                    None => got.keys().find(|k| !want.contains_key(*k)).map(|k| format!("{k:?} should not be there")),
                }
            }
            (Op::Sleep { .. }, _) => None,
            (_, R::Pending | R::Lost) => None,
            (_, r) => Some(format!("{r:?}")),
        };
        if let Some(m) = bad {
            let kind = if matches!(e.op, Op::AddSite { .. } | Op::Remove { .. } | Op::Rename { .. }) {
                "admin-failed"
            } else {
                "not-linearizable"
            };
            let r = if matches!(e.op, Op::Snapshot { .. }) { String::new() } else { format!(" gave {:?}", e.r) };
            cx.v(kind, format!("call #{} {:?}{r}: {m}", e.id, e.op));
            return;
        }
    }
    cx.nontrivial = true;
}

#[derive(Debug)]
enum Act {
    Add(usize, usize),
    Del(usize),
    Mv(usize, usize),
    /// looked the name up and found this configuration
    Is(usize, usize),
    /// found something
    Some_(usize),
    Absent(usize),
    /// found one of these
    OneOf(usize, Vec<usize>),
    Snap(Vec<Option<usize>>, bool),
}

struct LOp {
    ev: usize,
    s0: u64,
    s1: u64,
    must: bool,
    act: Act,
}

fn check11(cx: &mut Cx) {
    cx.no_stuck(
        &["visit", "get_pow", "count", "hold", "snapshot", "add_site", "remove", "rename"],
        "stuck",
    );
    if cx.p.flavor == "bulk" {
        return model11(cx);
    }
    let mut names: Vec<String> = vec![];
    fn ix(names: &mut Vec<String>, n: &str) -> usize {
        match names.iter().position(|x| x == n) {
            Some(i) => i,
            None => {
                names.push(n.into());
                names.len() - 1
            }
        }
    }
    let by_dur: BTreeMap<u64, usize> = cx.p.sites.iter().enumerate().map(|(i, s)| (s.dur, i)).collect();
    let mut by_diff: BTreeMap<u32, usize> = BTreeMap::new();
    for (i, s) in cx.p.sites.iter().enumerate() {
        for l in s.levels.iter() {
            by_diff.insert(l.1, i);
        }
    }
    let evs: Vec<&Ev> = cx.h.evs.iter().filter(|e| e.r != R::Skipped).collect();
    // visits with the configuration that served them
    let mut vis: Vec<(Option<usize>, Vis)> = vec![];
    for e in evs.iter() {
        if !matches!(e.op, Op::Visit { .. } | Op::GetPow { .. }) {
            continue;
        }
        let (tag, diff) = match &e.r {
            R::Visit { dur, diff } => {
                let t = by_dur.get(dur).copied();
                if t.is_none() || by_diff.get(diff) != t.as_ref() {
                    cx.v(
                        "mixed-config",
                        format!("call #{}: served with duration {dur} and difficulty {diff}, which no configuration has", e.id),
                    );
                    return;
                }
                (t, Some(*diff))
            }
            R::Pow { diff, .. } => {
                let t = by_diff.get(diff).copied();
                if t.is_none() {
                    cx.v(
                        "mixed-config",
                        format!("call #{}: served with difficulty {diff}, which no configuration has", e.id),
                    );
                    return;
                }
                (t, Some(*diff))
            }
            R::NoVisit => continue,
            _ => (None, None),
        };
        let acked = tag.is_some();
        vis.push((
            tag,
            Vis {
                id: e.id,
                client: e.client,
                t0: e.t0,
                t1: if acked { e.t1 } else { u64::MAX / 4 },
                s0: e.s0,
                s1: if acked { e.s1 } else { u64::MAX },
                diff,
                acked,
            },
        ));
    }
    // served by a configuration that was not even asked for yet
    let load = |tag: usize, s0: u64, s1: u64| -> (u64, u64) {
        let (mut lo, mut hi) = (0, 0);
        for (t, v) in vis.iter() {
            if *t == Some(tag) && v.s1 < s0 {
                lo += 1;
            }
            if (t.is_none() || *t == Some(tag)) && v.s0 < s1 {
                hi += 1;
            }
        }
        (lo, hi)
    };
    let removals: Vec<(u64, u64)> = evs
        .iter()
        .filter(|e| matches!(e.op, Op::Remove { .. }))
        .map(|e| (e.s0, if e.r == R::Unit { e.s1 } else { u64::MAX }))
        .collect();
    let removing = |e: &Ev| removals.iter().any(|(a, b)| *a < e.s1 && *b > e.s0);
    let mut ops: Vec<LOp> = vec![];
    for e in evs.iter() {
        let done = !matches!(e.r, R::Cancelled | R::Lost | R::Pending);
        let act = match (&e.op, &e.r) {
            (Op::AddSite { .. } | Op::Remove { .. } | Op::Rename { .. }, R::Err(x)) => {
                cx.v("admin-failed", format!("call #{} {}: {x}", e.id, e.op.name()));
                return;
            }
            (Op::AddSite { cfg, .. }, _) => Act::Add(ix(&mut names, e.arg.as_deref().unwrap_or("")), *cfg),
            (Op::Remove { site, .. }, _) => Act::Del(ix(&mut names, site)),
            (Op::Rename { from, to, .. }, _) => {
                let a = ix(&mut names, from);
                Act::Mv(a, ix(&mut names, to))
            }
            (Op::Visit { site, .. }, R::Visit { dur, .. }) => Act::Is(ix(&mut names, site), by_dur[dur]),
            (Op::GetPow { site, .. }, R::Pow { diff, .. }) => Act::Is(ix(&mut names, site), by_diff[diff]),
            (Op::Visit { site, .. } | Op::Hold { site, .. } | Op::Count { site }, R::NoVisit | R::Absent) => {
                Act::Absent(ix(&mut names, site))
            }
            (Op::GetPow { site, .. }, R::NoPow) => {
                if removing(e) {
                    continue;
                }
                Act::Absent(ix(&mut names, site))
            }
            (Op::Visit { site, .. } | Op::Count { site }, R::Err(x)) => {
                if !removing(e) {
                    cx.v("unserved", format!("call #{} on {site:?}, which nobody is removing, failed: {x}", e.id));
                    return;
                }
                Act::Some_(ix(&mut names, site))
            }
            (Op::Hold { site, .. }, R::Unit) => Act::Some_(ix(&mut names, site)),
            (Op::Count { site }, R::Count(n)) => {
                let ok = (0..cx.p.sites.len())
                    .filter(|t| {
                        let (lo, hi) = load(*t, e.s0, e.s1);
                        lo <= *n && *n <= hi
                    })
                    .collect();
                Act::OneOf(ix(&mut names, site), ok)
            }
            (Op::Snapshot { .. }, R::Sites(m)) => {
                let mut v = vec![];
                for (n, s) in m.iter() {
                    let Some(&t) = by_dur.get(&s.dur) else {
                        cx.v("mixed-config", format!("call #{}: {n:?} has duration {}", e.id, s.dur));
                        return;
                    };
                    let c = &cx.p.sites[t];
                    if s.levels != c.levels || !c.levels.iter().any(|l| l.1 == s.diff) {
                        cx.v("mixed-config", format!("call #{}: {n:?} has levels {:?} at {}", e.id, s.levels, s.diff));
                        return;
                    }
                    let (lo, hi) = load(t, e.s0, e.s1);
                    let n_v = s.visitors as u64;
                    if n_v < lo || n_v > hi {
                        cx.v(
                            if n_v < lo { "load-lost" } else { "load-foreign" },
                            format!("call #{}: {n:?} (configuration {t}) has {n_v} visitors, its visits are {lo}..={hi}", e.id),
                        );
                        return;
                    }
                    let i = ix(&mut names, n);
                    if v.len() <= i {
                        v.resize(i + 1, None);
                    }
                    v[i] = Some(t);
                }
                Act::Snap(v, removing(e))
            }
            _ => continue,
        };
        let write = matches!(act, Act::Add(..) | Act::Del(_) | Act::Mv(..));
        if !done && !write {
            continue;
        }
        ops.push(LOp {
            ev: e.id,
            s0: e.s0,
            s1: if done { e.s1 } else { u64::MAX },
            must: done,
            act,
        });
    }
    cx.nontrivial = ops.len() > 3;
    if ops.len() <= 128 {
        if let Some(m) = explain(cx, &names, &ops) {
            cx.v("not-linearizable", m);
        }
    }
    // difficulties: one automaton per registration
    for (t, c) in cx.p.sites.iter().enumerate() {
        let vs: Vec<Vis> = vis
            .iter()
            .filter(|(x, _)| *x == Some(t))
            .map(|(_, v)| v.clone())
            .chain(vis.iter().filter(|(x, _)| x.is_none()).map(|(_, v)| v.clone()))
            .collect();
        if vs.iter().filter(|v| v.acked).count() == 0 {
            continue;
        }
        if let Some(m) = levels_ok(cx, &vs, &c.levels, c.dur * SEC, 0, (0, 0)) {
            cx.v("load-not-fresh", format!("configuration {t}: {m}"));
        }
    }
}

fn explain(cx: &Cx, names: &[String], ops: &[LOp]) -> Option<String> {
    let n = ops.len();
    let mut before = vec![0u128; n];
    for i in 0..n {
        for j in 0..n {
            if i != j && ops[j].s1 < ops[i].s0 {
                before[i] |= 1 << j;
            }
        }
    }
    let must = (0..n).filter(|i| ops[*i].must).fold(0u128, |a, i| a | 1 << i);
    let fits = |st: &[Option<u8>], a: &Act| -> Option<bool> {
        // None: not a read
        Some(match a {
            Act::Is(k, t) => st[*k] == Some(*t as u8),
            Act::Some_(k) => st[*k].is_some(),
            Act::Absent(k) => st[*k].is_none(),
            Act::OneOf(k, v) => st[*k].map_or(false, |t| v.contains(&(t as usize))),
            Act::Snap(m, lenient) => (0..st.len()).all(|k| match (m.get(k).copied().flatten(), st[k]) {
                (Some(a), Some(b)) => a == b as usize,
                (None, None) => true,
                (None, Some(_)) => *lenient,
                (Some(_), None) => false,
            }),
            _ => return None,
        })
    };
    let mut seen: HashSet<(u128, Vec<Option<u8>>)> = HashSet::new();
    let mut stack = vec![(0u128, vec![None; names.len()])];
    let mut best = (0, 0u128, vec![]);
    let mut budget = 60_000;
    while let Some((mut done, st)) = stack.pop() {
        // a read that fits now may as well happen now
        loop {
            let mut grew = false;
            for i in 0..n {
                if done >> i & 1 == 0 && before[i] & !done == 0 && fits(&st, &ops[i].act) == Some(true) {
                    done |= 1 << i;
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        if done & must == must {
            return None;
        }
        if !seen.insert((done, st.clone())) {
            continue;
        }
        budget -= 1;
        if budget == 0 {
            crate::hist::probe("linearizability check gave up");
            return None;
        }
        if (done & must).count_ones() >= best.0 {
            best = ((done & must).count_ones(), done, st.clone());
        }
        for i in 0..n {
            if done >> i & 1 == 1 || before[i] & !done != 0 {
                continue;
            }
            let mut s = st.clone();
            match &ops[i].act {
                Act::Add(k, t) => s[*k] = Some(*t as u8),
                Act::Del(k) => s[*k] = None,
                Act::Mv(a, b) => {
                    if let Some(t) = s[*a].take() {
                        s[*b] = Some(t);
                    }
                }
                _ => continue,
            }
            stack.push((done | 1 << i, s));
        }
    }
    let (_, done, st) = best;
    let left: Vec<String> = (0..n)
        .filter(|i| done >> i & 1 == 0 && ops[*i].must && before[*i] & !done == 0)
        .map(|i| {
            let e = &cx.h.evs[ops[i].ev];
            format!("#{} {} = {}", e.id, e.op.name(), serde_json::to_string(&e.r).unwrap_or_default())
        })
        .collect();
    let st: Vec<String> = st
        .iter()
        .enumerate()
        .filter_map(|(k, t)| t.map(|t| format!("{:?}: configuration {t}", names[k])))
        .collect();
    Some(format!(
        "no order of the operations explains the answers; stuck at registry {{{}}} with [{}] to come",
        st.join(", "),
        left.join("; ")
    ))
}

// ------------------------------------------------------------------ C12

/// sites whose state was restored while the clean-up runs
fn restored12(r: &mut Rng) -> Plan {
    let mut p = base(r, "C12", "restored");
    if r.chance(6000) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = 0;
    p.gc = r.range(1, 4);
    let ns = r.range(1, 4) as usize;
    p.sites = sites(r, ns, (1, 5));
    let names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let look = |r: &mut Rng| {
        let site = r.pick(&names).clone();
        match r.below(4) {
            0 => Op::Count { site },
            _ => Op::Visit { site, cancel: None },
        }
    };
    let gap = |r: &mut Rng| Op::Sleep {
        us: *r.pick(&[1, 1000, 300_000, 999_000, 1_000_000, 2_000_000, 3_500_000]),
    };
    let mut ops = vec![];
    for _ in 0..r.range(1, 6) {
        ops.push(look(r));
    }
    let n = r.range(1, 3);
    for k in 0..n {
        if k == 0 || r.chance(3000) {
            ops.push(Op::Snapshot { out: 0 });
        }
        if r.chance(7000) {
            ops.push(gap(r));
        }
        if r.chance(4000) {
            ops.push(look(r));
        }
        ops.push(Op::Restore {
            from: 0,
            cancel: None,
            more: 0,
        });
        for _ in 0..r.range(0, 3) {
            if r.chance(7000) {
                ops.push(gap(r));
            }
            ops.push(look(r));
        }
    }
    let mut cls = vec![cl(ops, 0)];
    if r.chance(5000) {
        let mut ops = vec![];
        for _ in 0..r.range(1, 8) {
            ops.push(gap(r));
            ops.push(look(r));
        }
        cls.push(cl(ops, r.below(2)));
    }
    let mut post = vec![];
    for n in names.iter() {
        post.push(Op::Visit {
            site: n.clone(),
            cancel: None,
        });
    }
    post.push(Op::Sleep {
        us: 5_300_000 + 2 * p.gc * 1_000_000 + r.range(0, p.gc * 1_000_000),
    });
    post.push(Op::Snapshot { out: 9 });
    for n in names.iter() {
        post.push(Op::AddSite {
            cfg: r.below(ns),
            name: Some(n.clone()),
            cancel: None,
        });
        post.push(Op::Visit {
            site: n.clone(),
            cancel: None,
        });
    }
    p.epochs = vec![epoch((0..ns).collect(), cls, post)];
    p
}

fn restored12_check(cx: &mut Cx) {
    cx.no_stuck(&["visit", "count", "snapshot", "restore", "add_site"], "stuck");
    let evs: Vec<&Ev> = cx.h.evs.iter().filter(|e| e.r != R::Skipped).collect();
    let rs: Vec<(&Ev, BTreeMap<String, SiteSnap>)> = evs
        .iter()
        .filter(|e| matches!(e.op, Op::Restore { .. }))
        .map(|e| (*e, e.arg.as_deref().and_then(|a| serde_json::from_str(a).ok()).unwrap_or_default()))
        .collect();
    let dur = |n: &str| cx.p.sites.iter().find(|s| s.name == n).map_or(0, |s| s.dur) * SEC;
    let mut bad = vec![];
    let mut seen = 0;
    for e in evs.iter() {
        match (&e.op, &e.r) {
            (Op::Restore { .. } | Op::Visit { .. }, R::Err(x)) => {
                bad.push(("failed", format!("call #{} ({}) at {} ms: {x}", e.id, e.op.name(), e.t0 / MS)))
            }
            (Op::Visit { site, .. } | Op::Count { site }, R::NoVisit | R::Absent) => {
                // restored with visitors, or visited, and that not long ago
                let x = rs.iter().filter(|x| x.0.s1 < e.s0 && x.0.r == R::Unit && e.t1 < x.0.t0 + dur(site));
                let live = x.filter(|x| {
                    // none but the latest counts
                    !rs.iter().any(|y| y.0.s0 > x.0.s0 && y.0.s0 < e.s1)
                        && x.1.get(site).map_or(0, |s| s.visitors) > 0
                });
                for x in live {
                    bad.push((
                        "collected-live",
                        format!(
                            "call #{} at {} ms does not find {site:?}, restored with visitors by call #{} at {} ms",
                            e.id,
                            e.t0 / MS,
                            x.0.id,
                            x.0.t0 / MS
                        ),
                    ));
                }
            }
            (Op::Snapshot { out: 9 }, R::Sites(m)) => {
                for n in m.keys() {
                    let end = evs
                        .iter()
                        .filter(|v| v.s0 < e.s0)
                        .filter(|v| match &v.op {
                            Op::Visit { site, .. } | Op::Count { site } => site == n,
                            Op::Restore { .. } => true,
                            _ => false,
                        })
                        .map(|v| v.t1)
                        .max()
                        .unwrap_or(0)
                        + dur(n);
                    let due = end + 2 * cx.p.gc * SEC;
                    if e.t0 > due + 2 * cx.slack(end, e.t0) {
                        bad.push((
                            "not-collected",
                            format!(
                                "call #{} at {} ms still has {n:?}, idle since {} ms with a clean-up every {} s",
                                e.id,
                                e.t0 / MS,
                                end / MS,
                                cx.p.gc
                            ),
                        ));
                    }
                }
                seen += 1;
            }
            _ => {}
        }
    }
    for (k, m) in bad {
        cx.v(k, m);
    }
    cx.nontrivial = seen > 0 && rs.iter().any(|x| x.0.r == R::Unit && !x.1.is_empty());
}

fn gen12(r: &mut Rng, i: u64) -> Plan {
    if i % 11 == 5 {
        return restored12(r);
    }
    let bulk = i % 160 == 77;
    let fl = ["ticks", "admin", "idle", "fresh", "held"][(i % 5) as usize];
    let mut p = base(r, "C12", if bulk { "bulk" } else { fl });
    if r.chance(6000) {
        p.pol.p_stall = 0;
    }
    p.pol.work_us = 0;
    p.gc = r.range(1, 4);
    let mut ns = r.range(1, 4) as usize;
    p.sites = sites(r, ns, (1, 4));
    if bulk {
        p.pol.sched = crate::core::Sched::Fifo;
        p.pol.p_stall = 0;
        ns = r.range(20, 120) as usize;
        p.sites = many_sites(r, ns, (1, 4));
    }
    let names: Vec<String> = p.sites.iter().map(|s| s.name.clone()).collect();
    let gc = p.gc * 1_000_000;
    let near = |r: &mut Rng, n: u64, dur: u64| -> u64 {
        let t = match r.below(3) {
            // a clean-up round
            0 | 1 => r.range(0, n) * gc,
            // an expiry that may coincide with one
            _ => (r.range(0, n) * gc).saturating_sub(dur * 1_000_000),
        };
        let j = *r.pick(&[0i64, 0, 1, 1000, 2000, 5000, -1000, -50_000, 50_000, 300_000]);
        (t as i64 + j).max(0) as u64
    };
    let mut slot = 10;
    let mut cls = vec![];
    let rounds = r.range(2, 5);
    for c in 0..r.range(1, 3) as usize {
        let mut times: Vec<u64> = (0..if bulk { r.range(20, 100) } else { r.range(2, 8) })
            .map(|_| {
                let d = r.pick(&p.sites).dur;
                near(r, rounds, d)
            })
            .collect();
        times.sort();
        let mut ops = vec![];
        for t in times {
            let n = r.pick(&names).clone();
            ops.push(Op::At { us: t });
            slot += 1;
            match r.below(if fl == "fresh" { 5 } else { 8 }) {
                0 => {
                    ops.push(Op::Snapshot { out: 0 });
                }
                1 => {
                    ops.push(Op::Hold {
                        site: n.clone(),
                        out: slot,
                    });
                    if fl == "held" || r.chance(2000) {
                        ops.push(Op::Held {
                            slot,
                            visit: r.chance(6000),
                        });
                    }
                }
                2 => ops.push(Op::GetPow {
                    site: n,
                    out: slot,
                    cancel: None,
                }),
                3 => ops.push(Op::Count { site: n }),
                _ => {
                    let k = if r.chance(2000) { r.range(2, 6) } else { 1 };
                    for _ in 0..k {
                        ops.push(Op::Visit {
                            site: n.clone(),
                            cancel: None,
                        });
                    }
                    if r.chance(4000) {
                        ops.push(Op::Count { site: n });
                    }
                }
            }
        }
        cls.push(cl(ops, if r.chance(6000) { c } else { 0 }));
    }
    if matches!(fl, "admin" | "fresh") || r.chance(2000) {
        for _ in 0..r.range(1, 2) {
            let mut times: Vec<u64> = (0..r.range(1, 5)).map(|_| near(r, rounds, 0)).collect();
            times.sort();
            let mut ops = vec![];
            for t in times {
                ops.push(Op::At { us: t });
                let n = r.pick(&names).clone();
                match r.below(7) {
                    0 | 1 | 2 => ops.push(Op::AddSite {
                        cfg: r.below(ns),
                        name: Some(n.clone()),
                        cancel: None,
                    }),
                    3 | 4 | 5 => ops.push(Op::Rename {
                        from: n.clone(),
                        to: if r.chance(5000) {
                            r.pick(&names).clone()
                        } else {
                            "new".into()
                        },
                        cancel: None,
                    }),
                    _ => ops.push(Op::Remove {
                        site: n.clone(),
                        cancel: None,
                    }),
                }
                if r.chance(6000) {
                    let us = near(r, 1, 0).min(400_000);
                    ops.push(Op::Sleep { us });
                    ops.push(if r.chance(5000) {
                        Op::Snapshot { out: 0 }
                    } else {
                        Op::Visit { site: n, cancel: None }
                    });
                }
            }
            cls.push(cl(ops, r.below(3)));
        }
    }
    let mut post = vec![];
    if r.chance(7000) {
        post.push(Op::Snapshot { out: 0 });
    }
    post.push(Op::Sleep {
        us: 4_300_000 + 2 * gc + r.range(0, gc),
    });
    post.push(Op::Snapshot { out: 0 });
    for s in 11..=slot {
        if fl == "held" || r.chance(2000) {
            post.push(Op::Held { slot: s, visit: false });
        }
    }
    for n in names.iter() {
        post.push(Op::AddSite {
            cfg: r.below(ns),
            name: Some(n.clone()),
            cancel: None,
        });
        if r.chance(5000) {
            post.push(Op::Sleep {
                us: r.range(0, 2) * gc + r.range(0, 1000),
            });
        }
        post.push(Op::Visit {
            site: n.clone(),
            cancel: None,
        });
    }
    post.push(Op::Snapshot { out: 0 });
    p.epochs = vec![epoch((0..ns).collect(), cls, post)];
    p
}

/// an administrative operation on the registry
struct Adm {
    s0: u64,
    s1: u64,
    t1: Ns,
    ok: bool,
    kind: AdmKind,
}
enum AdmKind {
    Add(String, u64),
    Del(String),
    Mv(String, String),
}
impl Adm {
    fn touches(&self, n: &str) -> bool {
        match &self.kind {
            AdmKind::Add(x, _) | AdmKind::Del(x) => x == n,
            AdmKind::Mv(a, b) => a == n || b == n,
        }
    }
}

/// an operation that looks a name up
struct Lk {
    ev: usize,
    name: String,
    s0: u64,
    s1: u64,
    t0: Ns,
    t1: Ns,
    /// a recorded visit
    visit: bool,
    found: bool,
    over: bool,
    /// lookup of the counter this visit went to (later than s0 only for held counters)
    since: u64,
}

fn check12(cx: &mut Cx) {
    if cx.p.flavor == "restored" {
        return restored12_check(cx);
    }
    cx.no_stuck(
        &["visit", "get_pow", "count", "hold", "snapshot", "add_site", "remove", "rename"],
        "stuck",
    );
    let evs: Vec<&Ev> = cx.h.evs.iter().filter(|e| e.r != R::Skipped).collect();
    let mut adm: Vec<Adm> = vec![];
    let mut lks: Vec<Lk> = vec![];
    for e in evs.iter() {
        let ok = e.r == R::Unit;
        let s1 = if ok { e.s1 } else { u64::MAX };
        let t1 = if ok { e.t1 } else { u64::MAX };
        let a = |kind| Adm {
            s0: e.s0,
            s1,
            t1,
            ok,
            kind,
        };
        match &e.op {
            Op::AddSite { cfg, .. } => adm.push(a(AdmKind::Add(
                e.arg.clone().unwrap_or_default(),
                cx.p.sites[*cfg].dur * SEC,
            ))),
            Op::Remove { site, .. } => adm.push(a(AdmKind::Del(site.clone()))),
            Op::Rename { from, to, .. } => adm.push(a(AdmKind::Mv(from.clone(), to.clone()))),
            Op::Visit { site, .. } | Op::GetPow { site, .. } | Op::Count { site } | Op::Hold { site, .. } => {
                let over = !matches!(e.r, R::Cancelled | R::Lost | R::Pending);
                let found = matches!(e.r, R::Visit { .. } | R::Pow { .. } | R::Count(_)) || e.r == R::Unit;
                lks.push(Lk {
                    ev: e.id,
                    name: site.clone(),
                    s0: e.s0,
                    s1: if over { e.s1 } else { u64::MAX },
                    t0: e.t0,
                    t1: if over { e.t1 } else { u64::MAX / 4 },
                    visit: found && matches!(e.op, Op::Visit { .. } | Op::GetPow { .. }),
                    found,
                    over,
                    since: e.s0,
                });
            }
            Op::Held { slot, visit: true } => {
                let hold = evs.iter().find(|h| matches!(&h.op, Op::Hold { out, .. } if out == slot) && h.r == R::Unit);
                let Some(h) = hold else { continue };
                let Op::Hold { site, .. } = &h.op else { continue };
                let over = !matches!(e.r, R::Cancelled | R::Lost | R::Pending);
                lks.push(Lk {
                    ev: e.id,
                    name: site.clone(),
                    s0: e.s0,
                    s1: if over { e.s1 } else { u64::MAX },
                    t0: e.t0,
                    t1: if over { e.t1 } else { u64::MAX / 4 },
                    visit: matches!(e.r, R::Visit { .. }),
                    found: matches!(e.r, R::Visit { .. }),
                    over,
                    since: h.s0,
                });
            }
            _ => {}
        }
    }
    adm.sort_by_key(|a| a.s0);

    // who looks at what, and what they saw: None = not there
    let mut obs: Vec<(&Ev, String, Option<Option<u64>>)> = vec![];
    let mut all: BTreeSet<String> = lks.iter().map(|l| l.name.clone()).collect();
    for a in adm.iter() {
        match &a.kind {
            AdmKind::Add(x, _) | AdmKind::Del(x) => {
                all.insert(x.clone());
            }
            AdmKind::Mv(x, y) => {
                all.insert(x.clone());
                all.insert(y.clone());
            }
        }
    }
    for e in evs.iter() {
        match (&e.op, &e.r) {
            (Op::Visit { site, .. } | Op::Count { site } | Op::Hold { site, .. }, R::NoVisit | R::Absent | R::Err(_)) => {
                obs.push((e, site.clone(), None))
            }
            (Op::GetPow { site, .. }, R::NoPow) => obs.push((e, site.clone(), None)),
            (Op::Count { site }, R::Count(n)) => obs.push((e, site.clone(), Some(Some(*n)))),
            (Op::Visit { site, .. }, R::Visit { .. }) | (Op::Hold { site, .. }, R::Unit) | (Op::GetPow { site, .. }, R::Pow { .. }) => {
                obs.push((e, site.clone(), Some(None)))
            }
            (Op::Snapshot { .. }, R::Sites(m)) => {
                for n in all.iter() {
                    obs.push((e, n.clone(), m.get(n).map(|s| Some(s.visitors as u64))));
                }
            }
            _ => {}
        }
    }

    for e in evs.iter() {
        if let (Op::Visit { site, .. }, R::Err(x)) = (&e.op, &e.r) {
            if adm.iter().any(|a| a.touches(site) && a.s0 < e.s1 && a.s1 > e.s0) {
                continue;
            }
            cx.v(
                "visit-failed",
                format!("call #{} at {} ms: a visit to {site:?} is neither counted nor told that there is no such site: {x}", e.id, e.t0 / MS),
            );
        }
    }
    let mut checked = 0;
    let mut gone = 0;
    for (e, name, saw) in obs.iter() {
        // (a), (b): follow every registration up to here
        for a in adm.iter() {
            let AdmKind::Add(n0, dur) = &a.kind else { continue };
            if !a.ok || a.s1 >= e.s0 {
                continue;
            }
            let Some((cur, why, live)) = follow(&adm, &lks, a, n0, *dur, e) else { continue };
            if cur != *name {
                continue;
            }
            // found by the lookup, then collected: only its visitors would have kept it
            let why = if why == "fresh" && matches!(e.r, R::Err(_)) { "" } else { why };
            checked += (why != "") as usize;
            if saw.is_none() && why != "" {
                let held = matches!(e.op, Op::Snapshot { .. });
                cx.v(
                    if why == "fresh" { "collected-fresh" } else { "collected-live" },
                    format!(
                        "call #{} at {} ms does not find {name:?} ({}{}), which {}",
                        e.id,
                        e.t0 / MS,
                        e.op.name(),
                        if held { "" } else { " lookup" },
                        if why == "fresh" {
                            "nobody looked up since it was registered or renamed"
                        } else {
                            "has a visitor"
                        }
                    ),
                );
            }
            if let Some(Some(n)) = saw {
                if *n < live {
                    cx.v(
                        "visit-lost",
                        format!("call #{}: {name:?} has {n} visitors, {live} acknowledged ones are within its duration", e.id),
                    );
                }
            }
        }
        // (e): idle sites go
        if !matches!(e.op, Op::Snapshot { .. }) {
            continue;
        }
        let Some(end) = idle_since(cx, &adm, &lks, name, e, 0) else { continue };
        let due = end + 2 * cx.p.gc * SEC;
        if e.t0 > due + 2 * cx.slack(end, e.t0) {
            gone += 1;
            if saw.is_some() {
                cx.v(
                    "not-collected",
                    format!(
                        "call #{} at {} ms still has {name:?}, idle since {} ms with a clean-up every {} s",
                        e.id,
                        e.t0 / MS,
                        end / MS,
                        cx.p.gc
                    ),
                );
            }
        }
    }
    // the counter of a collected site is stopped
    for e in evs.iter() {
        let (Op::Held { slot, visit: false }, R::Bool(up)) = (&e.op, &e.r) else { continue };
        let hold = evs.iter().find(|h| matches!(&h.op, Op::Hold { out, .. } if out == slot) && h.r == R::Unit);
        let Some(h) = hold else { continue };
        let Op::Hold { site, .. } = &h.op else { continue };
        let Some(end) = idle_since(cx, &adm, &lks, site, e, h.s0) else { continue };
        if *up && e.t0 > end + 2 * cx.p.gc * SEC + 2 * cx.slack(end, e.t0) {
            cx.v(
                "counter-leak",
                format!("call #{}: the counter of {site:?}, idle since {} ms, is still running", e.id, end / MS),
            );
        }
    }
    cx.nontrivial = checked > 0 && gone > 0;
}

/// Where is the site of registration `a` at the time of `e`, and must it still be there?
/// ("fresh", "live" or ""), and how many of its visitors certainly count.
fn follow(adm: &[Adm], lks: &[Lk], a: &Adm, n0: &str, dur: Ns, e: &Ev) -> Option<(String, &'static str, u64)> {
    let mut cur = n0.to_string();
    let mut from = a.s0;
    let mut from_done = a.s1;
    // names this site had, with the part of the history it had them for sure
    let mut live: Vec<Ns> = vec![];
    let mut i = 0;
    let later: Vec<&Adm> = adm.iter().filter(|x| !std::ptr::eq(*x, a) && x.s1 > a.s0 && x.s0 < e.s1).collect();
    loop {
        // next operation on the current name
        let next = later.iter().skip(i).position(|x| x.touches(&cur)).map(|k| k + i);
        let (until, nx) = match next {
            Some(k) => (later[k].s0, Some(k)),
            None => (e.s0, None),
        };
        // lookups while it had this name
        let looked = |before: u64, but: Option<usize>| {
            lks.iter()
                .any(|l| l.name == cur && l.s1 > from && l.s0 < before && Some(l.ev) != but)
        };
        for l in lks.iter() {
            if l.name == cur && l.visit && l.since > from_done && l.s1 < until {
                live.push(l.t0 + dur);
            }
        }
        match nx {
            None => {
                let n = live.iter().filter(|x| **x > e.t1).count() as u64;
                // earlier operations on other names may have ended up here
                let why = if n > 0 {
                    "live"
                } else if !looked(e.s1, Some(e.id)) {
                    "fresh"
                } else {
                    ""
                };
                return Some((cur.clone(), why, n));
            }
            Some(k) => {
                let x = later[k];
                // must be separate from everything else that touches the name
                if !x.ok || x.s0 < from_done || x.s1 >= e.s0 {
                    return None;
                }
                let AdmKind::Mv(f, t) = &x.kind else { return None };
                if *f != cur {
                    return None;
                }
                if later
                    .iter()
                    .any(|y| !std::ptr::eq(*y, x) && (y.touches(f) || y.touches(t)) && y.s1 > x.s0 && y.s0 < x.s1)
                {
                    return None;
                }
                let here = live.iter().any(|l| *l > x.t1) || !looked(x.s1, None);
                if !here {
                    return None;
                }
                cur = t.clone();
                from = x.s0;
                from_done = x.s1;
                i = k + 1;
            }
        }
    }
}

/// When did the site with this name, looked up before, become idle?
fn idle_since(cx: &Cx, adm: &[Adm], lks: &[Lk], name: &str, e: &Ev, from: u64) -> Option<Ns> {
    let dmax = cx.p.sites.iter().map(|s| s.dur).max().unwrap_or(0) * SEC;
    let mine: Vec<&Lk> = lks.iter().filter(|l| l.name == name && l.s0 < e.s1).collect();
    if mine.iter().any(|l| !l.over) {
        return None;
    }
    let last = mine.iter().filter(|l| l.found).max_by_key(|l| l.s0)?;
    // no registration or rename since before that lookup
    let bar = if from > 0 { from } else { last.s0 };
    if adm.iter().any(|x| x.touches(name) && x.s1 > bar && x.s0 < e.s1) {
        return None;
    }
    // visitors may have come along with a rename
    let any = lks
        .iter()
        .filter(|l| l.s0 < e.s1)
        .map(|l| if l.over { l.t1 + if l.visit { dmax } else { 0 } } else { u64::MAX / 4 })
        .max()?;
    let own = mine.iter().map(|l| l.t1 + if l.visit { dmax } else { 0 }).max()?;
    let renamed = adm.iter().any(|x| matches!(&x.kind, AdmKind::Mv(_, t) if t == name));
    Some(if renamed { any } else { own })
}
