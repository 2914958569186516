//! The recorded history of one run.
use crate::core::{self, Ns, MS};
use crate::mem;
use crate::plan::{Op, Plan};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SiteSnap {
    pub dur: u64,
    pub levels: Vec<(u32, u32)>,
    pub diff: u32,
    pub visitors: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum R {
    Pending,
    Skipped,
    Cancelled,
    /// crashed before an answer
    Lost,
    Unit,
    Err(String),
    Pow { string: String, diff: u32, salt: String },
    NoPow,
    Pass { token: String, diff: u32 },
    Bool(bool),
    Visit { dur: u64, diff: u32 },
    NoVisit,
    Count(u64),
    Absent,
    Sites(BTreeMap<String, SiteSnap>),
    /// memory of the code under test, keys in Redis other than sites
    Mem { bytes: i64, blocks: i64, keys: u64 },
    /// scheduler steps and basic blocks of the library, times a thread was found looping
    Rest { blocks: u64, steps: u64, busy: u64 },
    /// threads of the dropped system: still running, ever started
    Dropped { live: usize, ever: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sub {
    pub string: String,
    pub result: String,
    pub nonce: u64,
    pub key: String,
    pub ip: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ev {
    pub id: usize,
    pub epoch: usize,
    pub sys: usize,
    pub client: usize,
    pub op: Op,
    pub sub: Option<Sub>,
    /// token string / challenge string / snapshot the operation used
    pub arg: Option<String>,
    pub t0: Ns,
    pub t1: Ns,
    pub s0: u64,
    pub s1: u64,
    pub polls: u32,
    pub r: R,
}

impl Ev {
    pub fn done(&self) -> bool {
        !matches!(self.r, R::Pending | R::Skipped)
    }
}

#[derive(Default)]
pub struct Hist {
    pub evs: Vec<Ev>,
    pub seq: u64,
    pub epoch: usize,
    pub panics: Vec<String>,
    pub notes: Vec<String>,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    /// log of the simulated components: (time, seq, text)
    pub comp: Vec<CompEv>,
    pub op_bound: Ns,
    pub epoch_start: Vec<Ns>,
    pub crash_at: Vec<Option<Ns>>,
    pub work_us: u64,
}

/// a message seen by a fault-injecting component or a command seen by the simulated Redis
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CompEv {
    pub t: Ns,
    pub seq: u64,
    pub what: String,
    pub args: Vec<String>,
    /// took effect
    pub effect: bool,
    /// reply acknowledged success (as far as the component knows)
    pub ok: bool,
    pub reply: String,
}

static mut H: *mut Hist = std::ptr::null_mut();

pub fn init(p: &Plan) {
    mem::start();
    let h = Hist {
        op_bound: p.op_bound_ms * MS,
        work_us: p.pol.work_us,
        ..Default::default()
    };
    unsafe { H = Box::into_raw(Box::new(h)) };
}
pub fn h() -> &'static mut Hist {
    unsafe { &mut *H }
}
pub fn ready() -> bool {
    unsafe { !H.is_null() }
}
pub fn next_seq() -> u64 {
    let h = h();
    h.seq += 1;
    h.seq
}
pub fn begin(sys: usize, client: usize, op: &Op) -> usize {
    mem::harness(|| begin_(sys, client, op))
}
fn begin_(sys: usize, client: usize, op: &Op) -> usize {
    let s0 = next_seq();
    let h = h();
    let id = h.evs.len();
    let mut op = op.clone();
    if let Op::Par { ops } = &mut op {
        ops.clear();
    }
    h.evs.push(Ev {
        id,
        epoch: h.epoch,
        sys,
        client,
        op,
        sub: None,
        arg: None,
        t0: core::now(),
        t1: u64::MAX,
        s0,
        s1: u64::MAX,
        polls: 0,
        r: R::Pending,
    });
    id
}
pub fn end(id: usize, r: R) {
    let s = next_seq();
    let e = &mut h().evs[id];
    e.t1 = core::now();
    e.s1 = s;
    e.r = r;
    // what stays in the history is not the system's
    let own = mem::harness(|| e.clone());
    *e = own;
}
pub fn probe(k: &str) {
    mem::harness(|| *h().probes.entry(k.to_string()).or_default() += 1);
}
pub fn fault(k: &str) {
    mem::harness(|| *h().faults.entry(k.to_string()).or_default() += 1);
}
pub fn comp(what: &str, args: Vec<String>, effect: bool, ok: bool, reply: &str) {
    let seq = next_seq();
    mem::harness(|| {
        h().comp.push(CompEv {
            t: core::now(),
            seq,
            what: what.into(),
            args: args.clone(),
            effect,
            ok,
            reply: reply.into(),
        })
    });
}

/// Is some call pending for longer than anything injected can explain?
pub fn watch(now: Ns) -> Option<String> {
    let h = h();
    let mut verifies = 0u64;
    for e in h.evs.iter() {
        if matches!(e.op, Op::Verify { .. }) {
            verifies += 1;
        }
    }
    for e in h.evs.iter() {
        if e.r != R::Pending {
            continue;
        }
        let extra = match &e.op {
            Op::Sleep { .. } | Op::At { .. } | Op::Rest { .. } | Op::Par { .. } => continue,
            _ => 0,
        };
        let bound = h.op_bound + extra + verifies * h.work_us * 4 * core::US;
        if now > e.t0 + bound {
            let slack = core::injected(e.t0, now);
            if now > e.t0 + bound + slack {
                return Some(format!(
                    "stuck: call #{} {} pending since {} ms",
                    e.id,
                    e.op.name(),
                    e.t0 / MS
                ));
            }
        }
    }
    None
}
