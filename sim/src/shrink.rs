//! Minimises a failing plan and its schedule.
use crate::core::Sched;
use crate::plan::*;
use crate::rng::mix;
use crate::run::{self, Opts, RunOut, Viol};
use std::time::{Duration, Instant};

pub struct Case {
    pub plan: Plan,
    pub trace: Vec<(u32, u32)>,
    pub viol: Viol,
}

pub struct Shrinker<'a> {
    pub dir: &'a str,
    pub deadline: Instant,
    pub runs: u64,
    /// judges one execution (the plan may have to be run in pairs)
    pub judge: &'a dyn Fn(&Plan, Option<&[(u32, u32)]>, &str) -> (RunOut, Vec<Viol>),
}

pub fn size(p: &Plan) -> usize {
    fn ops(o: &[Op]) -> usize {
        o.iter()
            .map(|o| match o {
                Op::Par { ops: x } => 1 + ops(x),
                _ => 1,
            })
            .sum()
    }
    p.epochs
        .iter()
        .map(|e| e.init.len() + ops(&e.post) + e.clients.iter().map(|c| 1 + ops(&c.ops)).sum::<usize>())
        .sum()
}

/// what to leave out of a list of n: halves, quarters, ... single elements unless it is long
fn chunks(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut k = if n == 1 { 1 } else { n / 2 };
    while k >= 1 && k * 128 >= n {
        let mut i = 0;
        while i + k <= n {
            v.push((i, k));
            i += k;
        }
        k /= 2;
    }
    v
}

fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    // whole epochs, clients
    for e in (0..p.epochs.len()).rev() {
        if p.epochs.len() > 1 {
            let mut q = p.clone();
            q.epochs.remove(e);
            v.push(q);
        }
        for c in (0..p.epochs[e].clients.len()).rev() {
            let mut q = p.clone();
            q.epochs[e].clients.remove(c);
            v.push(q);
        }
    }
    // chunks of operations, then single ones
    for e in 0..p.epochs.len() {
        for c in 0..p.epochs[e].clients.len() {
            let n = p.epochs[e].clients[c].ops.len();
            for (i, k) in chunks(n) {
                let mut q = p.clone();
                q.epochs[e].clients[c].ops.drain(i..i + k);
                v.push(q);
            }
            for i in 0..n.min(400) {
                if let Op::Par { ops } = &p.epochs[e].clients[c].ops[i] {
                    for (j, k) in chunks(ops.len()) {
                        let mut q = p.clone();
                        if let Op::Par { ops } = &mut q.epochs[e].clients[c].ops[i] {
                            ops.drain(j..j + k);
                        }
                        v.push(q);
                    }
                }
            }
        }
        // the healthy period at the end is part of the property
        let fixed = p.epochs[e].post.first() == Some(&Op::Quiet { on: true });
        for (i, k) in if fixed { vec![] } else { chunks(p.epochs[e].post.len()) } {
            let mut q = p.clone();
            q.epochs[e].post.drain(i..i + k);
            v.push(q);
        }
        for (i, k) in chunks(p.epochs[e].init.len()) {
            let mut q = p.clone();
            q.epochs[e].init.drain(i..i + k);
            v.push(q);
        }
    }
    // simpler settings
    let mut q = p.clone();
    q.pol.p_stall = 0;
    v.push(q);
    let mut q = p.clone();
    q.pol.p_defer = 0;
    v.push(q);
    let mut q = p.clone();
    q.pol.work_jitter = 0;
    v.push(q);
    let mut q = p.clone();
    q.pol.sched = Sched::Fifo;
    v.push(q);
    if p.split {
        let mut q = p.clone();
        q.split = false;
        v.push(q);
    }
    if p.runners > 1 {
        let mut q = p.clone();
        q.runners = 1;
        v.push(q);
    }
    for e in 0..p.epochs.len() {
        for c in 0..p.epochs[e].clients.len() {
            if p.epochs[e].clients[c].thread != 0 {
                let mut q = p.clone();
                q.epochs[e].clients[c].thread = 0;
                v.push(q);
            }
            for i in 0..p.epochs[e].clients[c].ops.len().min(400) {
                if p.epochs[e].clients[c].ops[i].cancel().is_some() {
                    let mut q = p.clone();
                    match &mut q.epochs[e].clients[c].ops[i] {
                        Op::GetPow { cancel, .. }
                        | Op::Verify { cancel, .. }
                        | Op::Validate { cancel, .. }
                        | Op::Visit { cancel, .. }
                        | Op::AddSite { cancel, .. }
                        | Op::Remove { cancel, .. }
                        | Op::Rename { cancel, .. }
                        | Op::Restore { cancel, .. } => *cancel = None,
                        _ => {}
                    }
                    v.push(q);
                }
            }
        }
    }
    v
}

impl Shrinker<'_> {
    fn try_plan(&mut self, p: &Plan, trace: &[(u32, u32)], kind: &str) -> Option<Case> {
        for k in 0..4u64 {
            if Instant::now() > self.deadline {
                return None;
            }
            let mut q = p.clone();
            let (o, v) = if k == 0 {
                self.runs += 1;
                (self.judge)(&q, Some(trace), self.dir)
            } else {
                q.seed = mix(p.seed, k);
                self.runs += 1;
                (self.judge)(&q, None, self.dir)
            };
            if let Some(v) = v.into_iter().find(|v| v.kind == kind) {
                let trace = if o.trace.is_empty() && k == 0 { trace.to_vec() } else { o.trace };
                return Some(Case { plan: q, trace, viol: v });
            }
        }
        None
    }

    pub fn shrink(&mut self, mut c: Case) -> Case {
        let kind = c.viol.kind.clone();
        'outer: loop {
            for q in candidates(&c.plan) {
                if Instant::now() > self.deadline {
                    break 'outer;
                }
                if q == c.plan {
                    continue;
                }
                if let Some(n) = self.try_plan(&q, &c.trace, &kind) {
                    c = n;
                    continue 'outer;
                }
            }
            break;
        }
        self.deadline += Duration::from_secs(10);
        // the schedule: drop every decision that is not needed
        let mut k = c.trace.len().div_ceil(2);
        while k >= 1 && Instant::now() < self.deadline {
            let mut i = 0;
            while i < c.trace.len() && Instant::now() < self.deadline {
                let mut t = c.trace.clone();
                let hi = (i + k).min(t.len());
                t.drain(i..hi);
                self.runs += 1;
                let (o, v) = (self.judge)(&c.plan, Some(&t), self.dir);
                if let Some(v) = v.into_iter().find(|v| v.kind == kind) {
                    c.trace = o.trace;
                    c.viol = v;
                } else {
                    i += k;
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        c
    }
}

pub fn plain(p: &Plan, t: Option<&[(u32, u32)]>, dir: &str) -> RunOut {
    run::run(&Opts {
        plan: p,
        trace: t,
        log: false,
        dir,
        timeout_ms: 20_000,
    })
}
