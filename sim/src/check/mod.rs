//! Generators and oracles, one module per group of properties.
use crate::core::{self, Ns, MS, SEC, US};
use crate::hist::{Ev, Hist, R};
use crate::plan::*;
use crate::rng::Rng;
use crate::run::Viol;
use std::collections::{BTreeMap, BTreeSet};

pub mod calm;
pub mod del;
pub mod forget;
pub mod gen;
pub mod load;
pub mod pass;
pub mod pool;
pub mod rds;
pub mod registry;
pub mod robust;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub gen: fn(&mut Rng, u64) -> Plan,
    pub check: fn(&mut Cx),
    /// run every plan twice, with different entropy
    pub pair: bool,
}

pub struct Cx<'a> {
    pub p: &'a Plan,
    pub h: &'a Hist,
    pub abort: Option<&'a str>,
    pub viol: Vec<Viol>,
    pub nontrivial: bool,
    pub strings: Vec<String>,
    /// simulated cost all proof checks of this run can add up to
    pub work: Ns,
    pub now: Ns,
}

/// what ordinary processing may take without any injected stall
pub const BASE: Ns = 150 * MS;

impl<'a> Cx<'a> {
    pub fn v(&mut self, kind: &str, msg: String) {
        self.viol.push(Viol {
            kind: kind.into(),
            msg,
        });
    }
    /// how much later than ideal something between a and b may happen
    pub fn slack(&self, a: Ns, b: Ns) -> Ns {
        BASE + self.work + core::stall_overlap(a, b)
    }
    pub fn issued(&self) -> BTreeMap<String, &'a Ev> {
        let mut m = BTreeMap::new();
        for e in self.h.evs.iter() {
            if let R::Pow { string, .. } = &e.r {
                m.entry(string.clone()).or_insert(e);
            }
        }
        m
    }
    pub fn passes(&self) -> BTreeMap<String, &'a Ev> {
        let mut m = BTreeMap::new();
        for e in self.h.evs.iter() {
            if let R::Pass { token, .. } = &e.r {
                m.entry(token.clone()).or_insert(e);
            }
        }
        m
    }
    pub fn verifies(&self) -> Vec<&'a Ev> {
        self.h
            .evs
            .iter()
            .filter(|e| matches!(e.op, Op::Verify { .. }) && e.sub.is_some())
            .collect()
    }
    pub fn validates(&self) -> Vec<&'a Ev> {
        self.h
            .evs
            .iter()
            .filter(|e| matches!(e.op, Op::Validate { .. }) && e.arg.is_some() && e.r != R::Skipped)
            .collect()
    }
    /// every duration (s) that `name` can have had, following renames; with the levels
    pub fn configs_of(&self, name: &str) -> Vec<&'a SiteCfg> {
        let mut names = BTreeSet::from([name.to_string()]);
        loop {
            let n = names.len();
            for e in self.h.evs.iter() {
                if let Op::Rename { from, to, .. } = &e.op {
                    if names.contains(to) {
                        names.insert(from.clone());
                    }
                }
            }
            if names.len() == n {
                break;
            }
        }
        let mut v: Vec<&'a SiteCfg> = vec![];
        for e in self.h.evs.iter() {
            if let Op::AddSite { cfg, .. } = &e.op {
                if e.arg.as_ref().map_or(false, |a| names.contains(a)) {
                    let c = &self.p.sites[*cfg];
                    if !v.iter().any(|x| x.dur == c.dur && x.levels == c.levels) {
                        v.push(c);
                    }
                }
            }
        }
        v
    }
    pub fn durs_of(&self, name: &str) -> Option<(Ns, Ns)> {
        let v = self.configs_of(name);
        let lo = v.iter().map(|c| c.dur).min()?;
        let hi = v.iter().map(|c| c.dur).max()?;
        Some((lo * SEC, hi * SEC))
    }
    /// calls of the given kinds that will never return
    pub fn stuck(&self, kinds: &[&str]) -> Vec<&'a Ev> {
        let Some(a) = self.abort else { return vec![] };
        // the step limit is a hundred times what these runs need: something runs in circles
        let dead = a.starts_with("deadlock") || a.starts_with("step limit");
        let h = self.h;
        h.evs
            .iter()
            .filter(|e| e.r == R::Pending && kinds.contains(&e.op.name()))
            .filter(|e| {
                dead || self.now.saturating_sub(e.t0) > h.op_bound + self.work * 2 + core::injected(e.t0, self.now)
            })
            .collect()
    }
    pub fn no_stuck(&mut self, kinds: &[&str], kind: &str) {
        if let Some(e) = self.stuck(kinds).first() {
            let m = format!(
                "{} (call #{}, started at {} ms) never returned: {}",
                e.op.name(),
                e.id,
                e.t0 / MS,
                self.abort.unwrap_or("")
            );
            self.v(kind, m);
        }
    }
}

/// proof submitted with its own site's key and correct
pub fn correct(p: &Plan, e: &Ev, g: &Ev) -> bool {
    let (Some(s), R::Pow { diff, .. }, Op::GetPow { site, .. }) = (&e.sub, &g.r, &g.op) else {
        return false;
    };
    s.key == *site && crate::pow::check(&p.salt, &s.string, s.nonce, &s.result, *diff)
}

/// text of the error class
pub fn err_is(r: &R, what: &str) -> bool {
    matches!(r, R::Err(e) if e.starts_with(what))
}

pub fn evaluate(p: &Plan, h: &Hist, abort: Option<&str>) -> (Vec<Viol>, bool, Vec<String>) {
    let n = h.evs.iter().filter(|e| matches!(e.op, Op::Verify { .. })).count() as u64;
    let mut cx = Cx {
        p,
        h,
        abort,
        viol: vec![],
        nontrivial: false,
        strings: vec![],
        work: n * p.pol.work_us * US * (1 + p.pol.work_jitter as u64),
        now: core::now(),
    };
    if let Some(pr) = props().iter().find(|x| x.id == p.prop) {
        (pr.check)(&mut cx);
    }
    (cx.viol, cx.nontrivial, cx.strings)
}

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(pass::props());
    v.extend(pool::props());
    v.extend(load::props());
    v.extend(registry::props());
    v.extend(robust::props());
    v.extend(rds::props());
    v.extend(forget::props());
    v.extend(del::props());
    v.extend(calm::props());
    v.sort_by_key(|p| p.id);
    v
}
