//! Builds the system under test and runs a plan against it.
use crate::core::{self, Ns, MS, US};
use crate::faulty::{FCache, FMaster};
use crate::hist::{self, SiteSnap, Sub, R};
use crate::plan::*;
use crate::pow;
use crate::redis_srv;
use crate::rng::{mix, Rng};
use mcinst::{Fut, SysArc};
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::counter::{AddVisitor as CVisit, Counter, GetCurrentVisitorCount};
use libmcaptcha::master::embedded::master::{GetSite, Master as EMaster};
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::master::{AddVisitorResult, Master};
use libmcaptcha::pow::{ConfigBuilder, Work as PWork};
use mcaptcha_pow_sha256::Config;
use libmcaptcha::redis::mcaptcha_redis::MCaptchaRedis;
use libmcaptcha::redis::RedisConfig;
use libmcaptcha::{DefenseBuilder, HashCache, LevelBuilder, MCaptcha, MCaptchaBuilder};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};

type Rs<T> = Result<T, String>;
pub trait MasterT: Send + Sync {
    fn visit(&self, id: String) -> Fut<'static, Rs<Option<AddVisitorResult>>>;
    fn add(&self, id: String, m: MCaptcha) -> Fut<'static, Rs<()>>;
    fn rename(&self, a: String, b: String) -> Fut<'static, Rs<()>>;
    fn remove(&self, id: String) -> Fut<'static, Rs<()>>;
    fn snapshot(&self) -> Fut<'static, Rs<HashMap<String, MCaptcha>>>;
    fn restore(&self, m: HashMap<String, MCaptcha>) -> Fut<'static, Rs<()>>;
}
macro_rules! msg {
    ($self:ident, $m:expr) => {{
        let a = $self.clone();
        let m = $m;
        Box::pin(async move {
            match a.send(m).await {
                Err(e) => Err(format!("{:?}", CaptchaError::from(e))),
                Ok(rx) => match rx.await {
                    Err(_) => Err("RecvError".to_string()),
                    Ok(r) => r.map_err(|e| format!("{e:?}")),
                },
            }
        })
    }};
}
macro_rules! master_impl {
    ($t:ty) => {
        impl MasterT for Addr<$t> {
            fn visit(&self, id: String) -> Fut<'static, Rs<Option<AddVisitorResult>>> {
                msg!(self, AddVisitor(id))
            }
            fn add(&self, id: String, mcaptcha: MCaptcha) -> Fut<'static, Rs<()>> {
                msg!(self, AddSite { id, mcaptcha })
            }
            fn rename(&self, name: String, rename_to: String) -> Fut<'static, Rs<()>> {
                msg!(self, Rename { name, rename_to })
            }
            fn remove(&self, id: String) -> Fut<'static, Rs<()>> {
                msg!(self, RemoveCaptcha(id))
            }
            fn snapshot(&self) -> Fut<'static, Rs<HashMap<String, MCaptcha>>> {
                msg!(self, GetInternalData)
            }
            fn restore(&self, mcaptcha: HashMap<String, MCaptcha>) -> Fut<'static, Rs<()>> {
                msg!(self, SetInternalData { mcaptcha })
            }
        }
    };
}
master_impl!(EMaster);
master_impl!(RMaster);
master_impl!(FMaster);

struct Inst {
    sys: Option<SysArc>,
    master: Arc<dyn MasterT>,
    em: Option<Addr<EMaster>>,
    hc: Option<Addr<HashCache>>,
    build: Arc<dyn Fn(usize, usize) -> SysArc>,
    /// who built the system, and which threads it started meanwhile
    built: (usize, usize, usize),
}

impl Inst {
    /// a second system around the same components
    fn another(&self, p: &Plan) -> Inst {
        let lo = core::threads_started();
        let sys = (self.build)(p.runners, p.queue);
        Inst {
            built: (core::my_tid(), lo, core::threads_started()),
            sys: Some(sys),
            master: self.master.clone(),
            em: self.em.clone(),
            hc: self.hc.clone(),
            build: self.build.clone(),
        }
    }
}

#[derive(Clone)]
struct Chal {
    string: String,
    diff: u32,
    salt: String,
    site: String,
}

struct World {
    plan: Plan,
    epoch: usize,
    epoch_t0: Ns,
    epoch_done: bool,
    insts: Vec<Inst>,
    chals: Vec<Option<Chal>>,
    toks: Vec<Option<String>>,
    snaps: Vec<Option<String>>,
    held: Vec<Option<Addr<Counter>>>,
    sock: String,
}
static mut W: *mut World = std::ptr::null_mut();
pub fn plan_seed() -> u64 {
    w().plan.seed
}
fn w() -> &'static mut World {
    unsafe { &mut *W }
}

fn put<T>(v: &mut Vec<Option<T>>, i: usize, x: T) {
    while v.len() <= i {
        v.push(None);
    }
    v[i] = Some(x);
}

pub fn mcaptcha(c: &SiteCfg) -> MCaptcha {
    let mut d = DefenseBuilder::default();
    let mut levels = c.levels.clone();
    let n = levels.len().max(1);
    levels.rotate_left(c.order / 2 % n);
    if c.order % 2 == 1 {
        levels.reverse();
    }
    for (t, f) in &levels {
        d.add_level(
            LevelBuilder::default()
                .visitor_threshold(*t)
                .difficulty_factor(*f)
                .unwrap()
                .build()
                .unwrap(),
        )
        .unwrap();
    }
    MCaptchaBuilder::default()
        .defense(d.build().unwrap())
        .duration(c.dur)
        .build()
        .unwrap()
}
fn snap_of(m: &MCaptcha) -> SiteSnap {
    let l: Vec<libmcaptcha::defense::Level> = m.get_defense().into();
    SiteSnap {
        dur: m.get_duration(),
        levels: l.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect(),
        diff: m.get_difficulty(),
        visitors: m.get_visitors(),
    }
}

fn redis_config() -> RedisConfig {
    match w().plan.cluster {
        0 => RedisConfig::Single(format!("redis+unix://{}", w().sock)),
        n => RedisConfig::Cluster((0..n).map(|k| format!("redis://127.0.0.1:{}", redis_srv::PORT + k as u16)).collect()),
    }
}

/// run the whole plan; called on simulated thread 0
pub fn run(plan: Plan, sock: String) {
    let redis = matches!(plan.backend, Backend::Redis | Backend::Mixed);
    let n = plan.epochs.len();
    let world = World {
        epoch: 0,
        epoch_t0: 0,
        epoch_done: false,
        insts: vec![],
        chals: vec![],
        toks: vec![],
        snaps: vec![],
        held: vec![],
        sock: sock.clone(),
        plan,
    };
    unsafe { W = Box::into_raw(Box::new(world)) };
    core::set_watch(hist::watch, 100 * MS);
    if redis {
        redis_srv::start(&sock, !w().plan.redis_down_at_start, w().plan.cluster);
    }
    for e in 0..n {
        let wd = w();
        wd.epoch = e;
        wd.epoch_done = false;
        wd.epoch_t0 = core::now();
        hist::h().epoch = e;
        hist::h().epoch_start.push(core::now());
        hist::h().crash_at.push(None);
        core::quiet(false);
        let deadline = wd.plan.epochs[e]
            .crash_at_us
            .map(|us| core::now() + us * US);
        std::thread::spawn(epoch_thread);
        while !w().epoch_done {
            if let Some(d) = deadline {
                if core::now() >= d {
                    break;
                }
            }
            core::ext_wait(deadline);
        }
        let crashed = !w().epoch_done;
        let keep: Vec<usize> = if redis { vec![redis_srv::srv().tid] } else { vec![] };
        core::kill_others(&keep);
        if crashed {
            hist::fault("crash");
        }
        hist::h().crash_at[e] = Some(core::now());
        for ev in hist::h().evs.iter_mut() {
            if ev.r == R::Pending {
                ev.r = R::Lost;
                ev.t1 = core::now();
            }
        }
        // whatever the dead process owned is gone; nothing of it may be dropped here
        let wd = w();
        std::mem::forget(std::mem::take(&mut wd.insts));
        std::mem::forget(std::mem::take(&mut wd.held));
        crate::faulty::reset();
        if redis {
            // the kernel tells the server about the closed sockets
            core::sleep_ns(2 * MS);
        }
    }
}

fn epoch_thread() {
    let sys = actix_rt::System::new();
    sys.block_on(epoch_main());
    w().epoch_done = true;
    core::ext_wake();
    // the process ends here; nothing gets cleaned up
    loop {
        core::ext_wait(None);
    }
}

/// clean-up periods from here on stand for none at all
const NO_GC: u64 = 100_000;
const SETUP: usize = 1000;
const POST: usize = 2000;

async fn epoch_main() {
    let e = w().epoch;
    let ep = w().plan.epochs[e].clone();
    let plan = w().plan.clone();
    if plan.redis_down_at_start && e == 0 {
        let mut cl = Cl::new(SETUP, 0);
        do_op(&mut cl, &Op::RConnect).await;
        redis_srv::control(&RedisOp::Up);
        core::sleep_ns(5 * MS);
    }
    for k in 0..plan.instances.max(1) {
        if k > 0 && plan.shared {
            let i = w().insts[0].another(&plan);
            w().insts.push(i);
            continue;
        }
        match build_inst(&plan).await {
            Ok(i) => w().insts.push(i),
            Err(e) => {
                hist::h().notes.push(format!("setup failed: {e}"));
                return;
            }
        }
    }
    {
        let mut cl = Cl::new(SETUP, 0);
        for &i in &ep.init {
            do_op(
                &mut cl,
                &Op::AddSite {
                    cfg: i,
                    name: None,
                    cancel: None,
                },
            )
            .await;
        }
    }
    let maxt = ep.clients.iter().map(|c| c.thread).max().unwrap_or(0);
    let arbs: Vec<Arbiter> = (0..maxt).map(|_| Arbiter::new()).collect();
    let (tx, mut rx) = mpsc::unbounded_channel::<()>();
    for (i, c) in ep.clients.iter().enumerate() {
        let tx = tx.clone();
        let c = c.clone();
        let t = c.thread;
        let body = move || client(i, c, tx);
        if t == 0 {
            actix_rt::spawn(body());
        } else {
            arbs[t - 1].spawn_fn(move || {
                actix_rt::spawn(body());
            });
        }
    }
    drop(tx);
    while rx.recv().await.is_some() {}
    let mut cl = Cl::new(POST, 0);
    for op in &ep.post {
        do_op(&mut cl, op).await;
    }
    std::mem::forget(arbs);
}

async fn client(i: usize, c: Client, tx: mpsc::UnboundedSender<()>) {
    if c.start_us > 0 {
        actix_rt::time::sleep(Duration::from_micros(c.start_us)).await;
    }
    let mut cl = Cl::new(i, c.sys);
    for op in &c.ops {
        do_op(&mut cl, op).await;
    }
    let _ = tx.send(());
}

async fn on_own_arbiter<T: Send + 'static, F>(f: impl FnOnce() -> F + Send + 'static) -> Rs<T>
where
    F: Future<Output = T> + 'static,
{
    let arb = Arbiter::new();
    let (tx, rx) = oneshot::channel();
    arb.spawn_fn(move || {
        actix_rt::spawn(async move {
            let _ = tx.send(f().await);
        });
    });
    std::mem::forget(arb);
    rx.await.map_err(|_| "panic".to_string())
}
/// run in a task of its own, so that a panic surfaces as an error
async fn guarded<T: 'static>(f: impl Future<Output = T> + 'static) -> Rs<T> {
    actix_rt::spawn(f).await.map_err(|_| "panic".to_string())
}

fn assemble<T, X>(
    p: &Plan,
    c: Addr<T>,
    m: Addr<X>,
    em: Option<Addr<EMaster>>,
    mk: fn(Addr<T>, Addr<X>, Config, usize, usize) -> SysArc,
) -> Inst
where
    T: Save,
    X: Master,
    Addr<X>: MasterT,
{
    let salt = p.salt.clone();
    let master: Arc<dyn MasterT> = Arc::new(m.clone());
    let build = Arc::new(move |r: usize, q: usize| {
        let pow = ConfigBuilder::default().salt(salt.clone()).build().unwrap();
        mk(c.clone(), m.clone(), pow, r, q)
    });
    let lo = core::threads_started();
    let sys = build(p.runners, p.queue);
    Inst {
        built: (core::my_tid(), lo, core::threads_started()),
        sys: Some(sys),
        master,
        em,
        hc: None,
        build,
    }
}

async fn embedded_master(p: &Plan) -> Addr<EMaster> {
    let gc = p.gc;
    let m = if p.split {
        let a = Arbiter::new();
        let m = EMaster::start_in_arbiter(&a.handle(), move |_| EMaster::new(gc));
        std::mem::forget(a);
        m
    } else {
        EMaster::new(gc).start()
    };
    if gc >= NO_GC {
        // the round at start-up must not interfere either
        core::quiet(true);
        actix_rt::time::sleep(Duration::from_millis(1)).await;
        core::quiet(false);
    }
    m
}
async fn redis_cache(p: &Plan) -> Rs<Addr<RedisCache>> {
    let u = redis_config();
    let f = move || async move { RedisCache::new(u).await.map(|c| c.start()).map_err(|e| format!("{e:?}")) };
    if p.split {
        on_own_arbiter(f).await?
    } else {
        guarded(f()).await?
    }
}
async fn redis_master(p: &Plan) -> Rs<Addr<RMaster>> {
    let u = redis_config();
    let f = move || async move { RMaster::new(u).await.map(|c| c.start()).map_err(|e| format!("{e:?}")) };
    if p.split {
        on_own_arbiter(f).await?
    } else {
        guarded(f()).await?
    }
}

async fn build_inst(p: &Plan) -> Rs<Inst> {
    match p.backend {
        Backend::Embedded => {
            let m = embedded_master(p).await;
            let c = if p.split {
                let a = Arbiter::new();
                let c = HashCache::start_in_arbiter(&a.handle(), |_| HashCache::default());
                std::mem::forget(a);
                c
            } else {
                HashCache::default().start()
            };
            let mut i = assemble(p, c.clone(), m.clone(), Some(m), mcinst::embedded);
            i.hc = Some(c);
            Ok(i)
        }
        Backend::Mixed => {
            let m = embedded_master(p).await;
            let c = redis_cache(p).await?;
            Ok(assemble(p, c, m.clone(), Some(m), mcinst::mixed))
        }
        Backend::Redis => {
            let m = redis_master(p).await?;
            let c = redis_cache(p).await?;
            Ok(assemble(p, c, m, None, mcinst::redis))
        }
        Backend::Faulty => {
            let (c, m) = if p.split {
                let a = Arbiter::new();
                let c = Supervisor::start_in_arbiter(&a.handle(), |_| FCache);
                std::mem::forget(a);
                let a = Arbiter::new();
                let m = Supervisor::start_in_arbiter(&a.handle(), |_| FMaster);
                std::mem::forget(a);
                (c, m)
            } else {
                (Supervisor::start(|_| FCache), Supervisor::start(|_| FMaster))
            };
            Ok(assemble(p, c, m, None, mcinst::any))
        }
    }
}

struct Cl {
    id: usize,
    sys: usize,
    redis: Option<Rc<MCaptchaRedis>>,
}
impl Cl {
    fn new(id: usize, sys: usize) -> Cl {
        Cl { id, sys, redis: None }
    }
}

enum Out<T> {
    Done(T),
    Cancelled,
}

async fn cancellable<T>(ev: usize, c: Option<Cancel>, f: impl Future<Output = T>) -> Out<T> {
    let mut f = Some(Box::pin(f));
    let limit = match c {
        Some(Cancel::Polls(n)) => n.max(1),
        _ => u32::MAX,
    };
    let mut timer = match c {
        Some(Cancel::AfterUs(us)) => Some(Box::pin(actix_rt::time::sleep(Duration::from_micros(us)))),
        _ => None,
    };
    let mut polls = 0;
    let r = std::future::poll_fn(|cx| {
        polls += 1;
        hist::h().evs[ev].polls = polls;
        if let Poll::Ready(v) = f.as_mut().unwrap().as_mut().poll(cx) {
            return Poll::Ready(Out::Done(v));
        }
        let late = match timer.as_mut() {
            Some(t) => t.as_mut().poll(cx).is_ready(),
            None => false,
        };
        if polls >= limit || late {
            hist::fault("client cancelled");
            f = None;
            return Poll::Ready(Out::Cancelled);
        }
        Poll::Pending
    })
    .await;
    r
}

fn fin<T>(ev: usize, o: Out<T>, f: impl FnOnce(T) -> R) {
    match o {
        Out::Done(v) => hist::end(ev, f(v)),
        Out::Cancelled => hist::end(ev, R::Cancelled),
    }
}
fn unit(r: Rs<()>) -> R {
    match r {
        Ok(()) => R::Unit,
        Err(e) => R::Err(e),
    }
}
fn cerr(e: CaptchaError) -> R {
    R::Err(format!("{e:?}"))
}

/// the submission a client makes for a challenge
fn make_work(c: &Chal, ev: usize, work: &Work, other: Option<&Chal>) -> (u64, String) {
    let wd = w();
    let mut rng = Rng::new(mix(wd.plan.seed ^ 0x77, ev as u64));
    let honest = |salt: &str, phrase: &str, lo: u32, hi: Option<u128>, rng: &mut Rng| {
        let p = pow::prefix(salt, phrase);
        pow::find(&p, pow::threshold(lo), hi, rng).unwrap_or((0, p.score(0)))
    };
    match work {
        Work::Honest => {
            let (n, s) = honest(&c.salt, &c.string, c.diff, None, &mut rng);
            (n, s.to_string())
        }
        Work::Weak(d) => {
            let (n, s) = honest(&c.salt, &c.string, *d, Some(pow::threshold(c.diff)), &mut rng);
            (n, s.to_string())
        }
        Work::Forged => {
            let n = rng.next() >> 30;
            (n, u128::MAX.to_string())
        }
        Work::OffByOne => {
            let (n, s) = honest(&c.salt, &c.string, c.diff, None, &mut rng);
            (n, s.wrapping_add(1).to_string())
        }
        Work::Text(t) => {
            let (n, _) = honest(&c.salt, &c.string, c.diff, None, &mut rng);
            (n, t.clone())
        }
        Work::WrongSalt => {
            let salt = format!("{}x", c.salt);
            let (n, s) = honest(&salt, &c.string, c.diff, None, &mut rng);
            (n, s.to_string())
        }
        Work::OtherSlot(_) => {
            let o = other.unwrap_or(c);
            // the very proof that was submitted for the other challenge, if there is one
            let used = hist::h().evs[..ev]
                .iter()
                .filter_map(|e| e.sub.as_ref())
                .find(|s| s.string == o.string && o.string != c.string);
            if let (Some(s), true) = (used, rng.chance(7000)) {
                return (s.nonce, s.result.clone());
            }
            let (n, s) = honest(&o.salt, &o.string, c.diff.max(o.diff), None, &mut rng);
            (n, s.to_string())
        }
        Work::WrongNonce => {
            let (n, s) = honest(&c.salt, &c.string, c.diff, None, &mut rng);
            let n = match rng.below(6) {
                0 => n.wrapping_sub(1),
                1 => n ^ (1 << 32),
                2 => n ^ (1 << rng.below(64)),
                3 => *rng.pick(&[0, u64::MAX, 1 << 63, u32::MAX as u64]),
                _ => n.wrapping_add(1),
            };
            (n, s.to_string())
        }
    }
}

fn do_op<'a>(cl: &'a mut Cl, op: &'a Op) -> Fut<'a, ()> {
    Box::pin(do_op_inner(cl, op))
}

/// a snapshot with more visitors than the sites have had (unchanged if its form is unknown)
fn crowded(j: &str, more: u32) -> String {
    let Ok(mut v) = serde_json::from_str::<serde_json::Value>(j) else { return j.into() };
    let Some(m) = v.as_object_mut() else { return j.into() };
    for s in m.values_mut() {
        let (Some(n), Some(top)) = (
            s.get("visitor_threshold").and_then(|n| n.as_u64()),
            s.pointer("/defense/levels").and_then(|l| l.as_array()).map(|l| l.len().saturating_sub(1)),
        ) else {
            return j.into();
        };
        if s.pointer("/defense/current_visitor_threshold").map_or(true, |l| !l.is_number()) {
            return j.into();
        }
        s["visitor_threshold"] = (n + more as u64).into();
        s["defense"]["current_visitor_threshold"] = top.into();
    }
    v.to_string()
}

/// something close to `s`
fn alter(s: &str, how: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match how {
        "up" => return s.to_uppercase(),
        "low" => return s.to_lowercase(),
        "flip" => {
            // the case of one letter
            if let Some(x) = c.iter_mut().find(|x| x.is_ascii_alphabetic()) {
                *x = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
            }
        }
        "cut" => {
            c.pop();
        }
        "head" if !c.is_empty() => {
            c.remove(0);
        }
        "last" => {
            if let Some(x) = c.last_mut() {
                *x = if *x == 'x' { 'y' } else { 'x' };
            }
        }
        "swap" if c.len() > 1 => c.swap(0, 1),
        "rev" => c.reverse(),
        "sp" => c.push(' '),
        "front" => c.insert(0, ' '),
        "nl" => c.push('\n'),
        "nul" => c.push('\0'),
        "twice" => return format!("{s}{s}"),
        _ => c.push('a'),
    }
    c.into_iter().collect()
}

fn token_of(tok: &Tok) -> Option<String> {
    match tok {
        Tok::Slot(i) => w().toks.get(*i).cloned().flatten(),
        Tok::Chal(i) => w().chals.get(*i).cloned().flatten().map(|c| c.string),
        Tok::Text(s) => Some(s.clone()),
        Tok::Alter(how, i) => w().toks.get(*i).cloned().flatten().map(|t| alter(&t, how)),
        Tok::Pre(s, i) => w().toks.get(*i).cloned().flatten().map(|t| format!("{s}{t}")),
    }
}

async fn do_op_inner(cl: &mut Cl, op: &Op) {
    let skip = |why: &str| {
        let ev = hist::begin(cl.sys, cl.id, op);
        hist::h().evs[ev].arg = Some(why.to_string());
        hist::end(ev, R::Skipped);
    };
    let inst = &w().insts.get(cl.sys);
    let need_sys = matches!(op, Op::GetPow { .. } | Op::Verify { .. } | Op::Validate { .. });
    let sys: Option<SysArc> = if need_sys {
        inst.and_then(|i| i.sys.clone())
    } else {
        None
    };
    if need_sys && sys.is_none() {
        skip("no system");
        return;
    }
    match op {
        Op::Sleep { us } => {
            actix_rt::time::sleep(Duration::from_micros(*us)).await;
        }
        Op::At { us } => {
            let t = w().epoch_t0 + us * US;
            let now = core::now();
            if t > now {
                actix_rt::time::sleep(Duration::from_nanos(t - now)).await;
            }
        }
        Op::GetPow { site, out, cancel } => {
            let s = sys.unwrap();
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = cancellable(ev, cancel.clone(), s.get_pow(site.clone())).await;
            fin(ev, r, |r| match r {
                Err(e) => cerr(e),
                Ok(None) => R::NoPow,
                Ok(Some(c)) => {
                    put(
                        &mut w().chals,
                        *out,
                        Chal {
                            string: c.string.clone(),
                            diff: c.difficulty_factor,
                            salt: c.salt.clone(),
                            site: site.clone(),
                        },
                    );
                    R::Pow {
                        string: c.string,
                        diff: c.difficulty_factor,
                        salt: c.salt,
                    }
                }
            });
        }
        Op::Verify {
            ch,
            raw,
            work,
            key,
            ip,
            out,
            cancel,
        } => {
            let c = w().chals.get(*ch).cloned().flatten();
            let c = match (c, raw) {
                (Some(mut c), r) => {
                    if let Some(r) = r {
                        c.string = match r.strip_prefix('~') {
                            Some(how) => alter(&c.string, how),
                            None => r.clone(),
                        };
                    }
                    c
                }
                (None, Some(r)) => Chal {
                    string: r.clone(),
                    diff: 1,
                    salt: w().plan.salt.clone(),
                    site: "nosite".into(),
                },
                (None, None) => {
                    skip("no challenge");
                    return;
                }
            };
            let other = match work {
                Work::OtherSlot(o) => w().chals.get(*o).cloned().flatten(),
                _ => None,
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            let (nonce, result) = make_work(&c, ev, work, other.as_ref());
            let key = match key {
                None => c.site.clone(),
                Some(k) => match k.strip_prefix('~') {
                    Some(how) => alter(&c.site, how),
                    None => k.clone(),
                },
            };
            hist::h().evs[ev].sub = Some(Sub {
                string: c.string.clone(),
                result: result.clone(),
                nonce,
                key: key.clone(),
                ip: ip.clone(),
            });
            let pw = PWork {
                string: c.string,
                result,
                nonce,
                key,
            };
            let s = sys.unwrap();
            let r = cancellable(ev, cancel.clone(), s.verify(pw, ip.clone())).await;
            fin(ev, r, |r| match r {
                Err(e) => cerr(e),
                Ok((token, diff)) => {
                    put(&mut w().toks, *out, token.clone());
                    R::Pass { token, diff }
                }
            });
        }
        Op::Validate { tok, key, cancel } => {
            let Some(t) = token_of(tok) else {
                skip("no token");
                return;
            };
            let s = sys.unwrap();
            let mut op = op.clone();
            let mut key = key.clone();
            if let (Some(how), Tok::Slot(i)) = (key.strip_prefix('~'), tok) {
                let site = w().chals.get(*i).cloned().flatten().map_or(String::new(), |c| c.site);
                key = alter(&site, how);
                if let Op::Validate { key: k, .. } = &mut op {
                    *k = key.clone();
                }
            }
            let ev = hist::begin(cl.sys, cl.id, &op);
            hist::h().evs[ev].arg = Some(t.clone());
            let m = VerifyCaptchaResult {
                token: t,
                key: key.clone(),
            };
            let r = cancellable(ev, cancel.clone(), s.validate(m)).await;
            fin(ev, r, |r| match r {
                Err(e) => cerr(e),
                Ok(b) => R::Bool(b),
            });
        }
        Op::Visit { site, cancel } => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let f = w().insts[cl.sys].master.visit(site.clone());
            let r = cancellable(ev, cancel.clone(), f).await;
            fin(ev, r, |r| match r {
                Err(e) => R::Err(e),
                Ok(None) => R::NoVisit,
                Ok(Some(v)) => R::Visit {
                    dur: v.duration,
                    diff: v.difficulty_factor,
                },
            });
        }
        Op::Count { site } => {
            let Some(em) = w().insts[cl.sys].em.clone() else {
                skip("no embedded master");
                return;
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = match em.send(GetSite(site.clone())).await {
                Err(e) => R::Err(format!("{e:?}")),
                Ok(None) => R::Absent,
                Ok(Some(a)) => match a.send(GetCurrentVisitorCount).await {
                    Err(e) => R::Err(format!("{e:?}")),
                    Ok(n) => R::Count(n as u64),
                },
            };
            hist::end(ev, r);
        }
        Op::AddSite { cfg, name, cancel } => {
            let c = w().plan.sites[*cfg].clone();
            let id = name.clone().unwrap_or(c.name.clone());
            let ev = hist::begin(cl.sys, cl.id, op);
            hist::h().evs[ev].arg = Some(id.clone());
            let f = w().insts[cl.sys].master.add(id, mcaptcha(&c));
            let r = cancellable(ev, cancel.clone(), f).await;
            fin(ev, r, unit);
        }
        Op::Remove { site, cancel } => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let f = w().insts[cl.sys].master.remove(site.clone());
            let r = cancellable(ev, cancel.clone(), f).await;
            fin(ev, r, unit);
        }
        Op::Rename { from, to, cancel } => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let f = w().insts[cl.sys].master.rename(from.clone(), to.clone());
            let r = cancellable(ev, cancel.clone(), f).await;
            fin(ev, r, unit);
        }
        Op::Hold { site, out } => {
            let Some(em) = w().insts[cl.sys].em.clone() else {
                skip("no embedded master");
                return;
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = match em.send(GetSite(site.clone())).await {
                Err(e) => R::Err(format!("{e:?}")),
                Ok(None) => R::Absent,
                Ok(Some(a)) => {
                    put(&mut w().held, *out, a);
                    R::Unit
                }
            };
            hist::end(ev, r);
        }
        Op::Held { slot, visit } => {
            let Some(a) = w().held.get(*slot).cloned().flatten() else {
                skip("nothing held");
                return;
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = if *visit {
                match a.send(CVisit).await {
                    Err(e) => R::Err(format!("{e:?}")),
                    Ok(v) => R::Visit {
                        dur: v.duration,
                        diff: v.difficulty_factor,
                    },
                }
            } else {
                R::Bool(a.connected())
            };
            hist::end(ev, r);
        }
        Op::Snapshot { out } => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let f = w().insts[cl.sys].master.snapshot();
            let r = match f.await {
                Err(e) => R::Err(e),
                Ok(m) => {
                    let b: BTreeMap<String, SiteSnap> =
                        m.iter().map(|(k, v)| (k.clone(), snap_of(v))).collect();
                    put(&mut w().snaps, *out, serde_json::to_string(&m).unwrap());
                    R::Sites(b)
                }
            };
            hist::end(ev, r);
        }
        Op::Restore { from, cancel, more } => {
            let Some(mut j) = w().snaps.get(*from).cloned().flatten() else {
                skip("no snapshot");
                return;
            };
            if *more > 0 {
                j = crowded(&j, *more);
            }
            let m: HashMap<String, MCaptcha> = serde_json::from_str(&j).unwrap();
            let ev = hist::begin(cl.sys, cl.id, op);
            let b: BTreeMap<String, SiteSnap> = m.iter().map(|(k, v)| (k.clone(), snap_of(v))).collect();
            hist::h().evs[ev].arg = Some(serde_json::to_string(&b).unwrap());
            let f = w().insts[cl.sys].master.restore(m);
            let r = cancellable(ev, cancel.clone(), f).await;
            fin(ev, r, unit);
        }
        Op::WallJump { ms } => {
            hist::fault("wall clock jump");
            core::wall_jump(*ms * MS as i64);
        }
        Op::Quiet { on } => {
            core::quiet(*on);
            if *on {
                crate::faulty::disarm();
            }
        }
        Op::Redis(r) => {
            let ev = hist::begin(cl.sys, cl.id, op);
            redis_srv::control(r);
            hist::end(ev, R::Unit);
        }
        Op::Fault(f) => {
            let ev = hist::begin(cl.sys, cl.id, op);
            crate::faulty::arm(f.clone());
            hist::end(ev, R::Unit);
        }
        Op::RExists { .. } | Op::RVisitors { .. } | Op::RDelChallenge { .. } | Op::RDelToken { .. } | Op::RPing => {
            if cl.redis.is_none() {
                let r = guarded(MCaptchaRedis::new(redis_config())).await;
                match r {
                    Ok(Ok(r)) => cl.redis = Some(Rc::new(r)),
                    _ => {
                        skip("no connection");
                        return;
                    }
                }
            }
            let con = cl.redis.as_ref().unwrap().get_client();
            let arg = match op {
                Op::RDelChallenge { ch, .. } => match w().chals.get(*ch).cloned().flatten() {
                    Some(c) => Some((c.string, c.site)),
                    None => {
                        skip("no challenge");
                        return;
                    }
                },
                Op::RDelToken { tok, key } => match w().toks.get(*tok).cloned().flatten() {
                    Some(t) => Some((t, key.clone())),
                    None => {
                        skip("no token");
                        return;
                    }
                },
                _ => None,
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = match op {
                Op::RExists { site } => con.check_captcha_exists(site).await.map(R::Bool),
                Op::RVisitors { site } => con.get_visitors(site).await.map(|n| R::Count(n as u64)),
                Op::RDelChallenge { key, .. } => {
                    let (token, site) = arg.unwrap();
                    hist::h().evs[ev].arg = Some(token.clone());
                    let key = key.clone().unwrap_or(site);
                    con.delete_challenge(&VerifyCaptchaResult { token, key })
                        .await
                        .map(|_| R::Unit)
                }
                Op::RDelToken { .. } => {
                    let (token, key) = arg.unwrap();
                    hist::h().evs[ev].arg = Some(token.clone());
                    con.delete_token(&VerifyCaptchaResult { token, key })
                        .await
                        .map(|_| R::Unit)
                }
                _ => Ok(R::Bool(con.ping().await)),
            };
            hist::end(ev, r.unwrap_or_else(cerr));
        }
        Op::RConnect => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let r = guarded(async {
                let a = RedisCache::new(redis_config()).await.map(|_| ());
                let b = RMaster::new(redis_config()).await.map(|_| ());
                match (a, b) {
                    (Ok(()), Ok(())) => R::Unit,
                    (Err(e), _) | (_, Err(e)) => R::Err(format!("{e:?}")),
                }
            })
            .await;
            hist::end(ev, r.unwrap_or_else(R::Err));
        }
        Op::DropSystem => {
            let Some(s) = w().insts[cl.sys].sys.take() else {
                skip("no system");
                return;
            };
            let mut n = 0;
            while Arc::strong_count(&s) > 1 && n < 20_000 {
                actix_rt::time::sleep(Duration::from_millis(1)).await;
                n += 1;
            }
            let (by, lo, hi) = w().insts[cl.sys].built;
            let ev = hist::begin(cl.sys, cl.id, op);
            if Arc::strong_count(&s) > 1 {
                hist::end(ev, R::Skipped);
                std::mem::forget(s);
                return;
            }
            drop(s);
            let (live, ever) = core::family(by, lo, hi);
            hist::end(ev, R::Dropped { live, ever });
        }
        Op::RebuildSystem { runners, queue } => {
            if w().insts[cl.sys].sys.is_some() {
                skip("system exists");
                return;
            }
            let ev = hist::begin(cl.sys, cl.id, op);
            let lo = core::threads_started();
            let s = (w().insts[cl.sys].build)(*runners, *queue);
            w().insts[cl.sys].built = (core::my_tid(), lo, core::threads_started());
            w().insts[cl.sys].sys = Some(s);
            hist::end(ev, R::Unit);
        }
        Op::DelPow { ch, how } => {
            let c = w().chals.get(*ch).cloned().flatten();
            let (Some(c), Some(hc)) = (c, w().insts[cl.sys].hc.clone()) else {
                skip("nothing to delete");
                return;
            };
            let string = match how {
                Some(how) => alter(&c.string, how),
                None => c.string,
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            hist::h().evs[ev].arg = Some(string.clone());
            let r = match hc.send(DeletePoW(string)).await {
                Err(e) => R::Err(format!("{e:?}")),
                Ok(Err(e)) => cerr(e),
                Ok(Ok(())) => R::Unit,
            };
            hist::end(ev, r);
        }
        Op::DelTok { tok } => {
            let (Some(token), Some(hc)) = (token_of(tok), w().insts[cl.sys].hc.clone()) else {
                skip("nothing to delete");
                return;
            };
            let ev = hist::begin(cl.sys, cl.id, op);
            hist::h().evs[ev].arg = Some(token.clone());
            let r = match hc.send(DeleteCaptchaResult { token }).await {
                Err(e) => R::Err(format!("{e:?}")),
                Ok(Err(e)) => cerr(e),
                Ok(Ok(())) => R::Unit,
            };
            hist::end(ev, r);
        }
        Op::StorePow { .. } | Op::StoreTok { .. } => {
            let Some(hc) = w().insts[cl.sys].hc.clone() else {
                skip("no cache");
                return;
            };
            let dur = |name: &str| w().plan.sites.iter().find(|s| s.name == name).map(|s| s.dur);
            let r = match op {
                Op::StorePow { ch } => {
                    let c = w().chals.get(*ch).cloned().flatten();
                    let Some((c, duration)) = c.and_then(|c| dur(&c.site).map(|d| (c, d))) else {
                        skip("no challenge");
                        return;
                    };
                    let m = CachePoWBuilder::default()
                        .string(c.string.clone())
                        .difficulty_factor(c.diff)
                        .duration(duration)
                        .key(c.site)
                        .build()
                        .unwrap();
                    let ev = hist::begin(cl.sys, cl.id, op);
                    hist::h().evs[ev].arg = Some(c.string);
                    (ev, hc.send(m).await)
                }
                Op::StoreTok { slot, site } => {
                    let (Some(token), Some(duration)) = (w().toks.get(*slot).cloned().flatten(), dur(site)) else {
                        skip("no token");
                        return;
                    };
                    let m = CacheResult {
                        key: site.clone(),
                        token: token.clone(),
                        duration,
                    };
                    let ev = hist::begin(cl.sys, cl.id, op);
                    hist::h().evs[ev].arg = Some(token);
                    (ev, hc.send(m).await)
                }
                _ => unreachable!(),
            };
            let (ev, r) = r;
            let r = match r {
                Err(e) => R::Err(format!("{e:?}")),
                Ok(rx) => match rx.await {
                    Err(e) => R::Err(format!("{e:?}")),
                    Ok(Err(e)) => cerr(e),
                    Ok(Ok(())) => R::Unit,
                },
            };
            hist::end(ev, r);
        }
        Op::Rest { us } => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let at = || core::with(|c| (core::blocks(), c.stats.steps, c.stats.busy + c.stats.spins));
            // whatever was still going on
            actix_rt::time::sleep(Duration::from_millis(500)).await;
            let a = at();
            actix_rt::time::sleep(Duration::from_micros(*us)).await;
            let b = at();
            hist::end(
                ev,
                R::Rest {
                    blocks: b.0 - a.0,
                    steps: b.1 - a.1,
                    busy: b.2 - a.2,
                },
            );
        }
        Op::Mem => {
            let ev = hist::begin(cl.sys, cl.id, op);
            let (bytes, blocks) = crate::mem::live();
            let keys = redis_srv::keys();
            hist::end(ev, R::Mem { bytes, blocks, keys });
        }
        Op::Par { ops } => {
            let mut hs = vec![];
            for o in ops {
                let o = o.clone();
                let mut c2 = Cl::new(cl.id, cl.sys);
                hs.push(actix_rt::spawn(async move {
                    do_op(&mut c2, &o).await;
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        }
    }
}
