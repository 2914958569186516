//! User-supplied implementations of the pluggable traits, with fault injection.
use crate::core;
use crate::hist;
use crate::plan::{FAct, FaultOp};
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::{AddVisitorResult, Master};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;
use tokio::sync::oneshot;

static mut RULES: Vec<FaultOp> = Vec::new();
#[allow(static_mut_refs)]
fn rules() -> &'static mut Vec<FaultOp> {
    unsafe { &mut RULES }
}
pub fn arm(f: FaultOp) {
    if f.n == 0 {
        rules().retain(|r| r.msg != f.msg);
    } else {
        rules().push(f);
    }
}
/// the process holding this state is gone
pub fn reset() {
    rules().clear();
    unsafe {
        let old = std::mem::replace(&mut *(&raw mut ST), None);
        std::mem::forget(old);
    }
}
pub fn disarm() {
    rules().clear();
}
fn take(msg: &str) -> Option<FAct> {
    let r = rules();
    let i = r.iter().position(|x| x.msg == msg && x.n > 0)?;
    r[i].n -= 1;
    let a = r[i].act.clone();
    if r[i].n == 0 {
        r.remove(i);
    }
    let k = format!("{a:?}");
    let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
    hist::fault(&format!("component {k}"));
    Some(a)
}
/// components are free in the errors they report
fn boom() -> CaptchaError {
    use redis::{ErrorKind, RedisError};
    let n = unsafe {
        BOOM += 1;
        crate::rng::mix(crate::exec::plan_seed(), BOOM)
    };
    match n % 14 {
        0 | 4 | 9 => CaptchaError::MCaptchaRedisModuleError,
        1 => RedisError::from((ErrorKind::Io, "broken pipe")).into(),
        2 => CaptchaError::StringNotFound,
        3 => CaptchaError::QueueFull,
        5 => CaptchaError::MailboxError,
        6 => CaptchaError::MCaptchaKeyValidationFail,
        7 => RedisError::from(std::io::Error::from(std::io::ErrorKind::TimedOut)).into(),
        8 => CaptchaError::InsuffiencientDifficulty,
        10 => CaptchaError::InvalidPoW,
        11 => CaptchaError::PleaseSetValue("key".into()),
        12 => CaptchaError::MCaptchaRediSModuleCommandNotFound("MCAPTCHA_CACHE.ADD_CHALLENGE".into()),
        _ => CaptchaError::CaptchaDurationZero,
    }
}
static mut BOOM: u64 = 0;

/// apply `act` around `eff`; returns the reply channel
fn serve<A, T>(
    ctx: &mut Context<A>,
    msg: &'static str,
    args: Vec<String>,
    none: Option<T>,
    eff: impl FnOnce() -> (T, String) + 'static,
) -> oneshot::Receiver<CaptchaResult<T>>
where
    A: Actor<Context = Context<A>>,
    T: 'static,
{
    let (tx, rx) = oneshot::channel();
    match take(msg) {
        None => {
            let (v, s) = eff();
            hist::comp(msg, args, true, true, &s);
            let _ = tx.send(Ok(v));
        }
        Some(FAct::Err) => {
            hist::comp(msg, args, false, false, "err");
            let _ = tx.send(Err(boom()));
        }
        Some(FAct::ErrAfter) => {
            let (_, s) = eff();
            hist::comp(msg, args, true, false, &s);
            let _ = tx.send(Err(boom()));
        }
        Some(FAct::Drop) => {
            hist::comp(msg, args, false, false, "dropped");
        }
        Some(FAct::DropAfter) => {
            let (_, s) = eff();
            hist::comp(msg, args, true, false, &s);
        }
        Some(FAct::None) => match none {
            Some(v) => {
                hist::comp(msg, args, false, true, "none");
                let _ = tx.send(Ok(v));
            }
            None => {
                hist::comp(msg, args, false, false, "err");
                let _ = tx.send(Err(boom()));
            }
        },
        Some(FAct::Die) => {
            hist::comp(msg, args, false, false, "died");
            ctx.stop();
        }
        Some(FAct::Delay { ms }) => {
            if ms >= 1000 {
                // long enough for the caller to give up
                hist::comp(msg, args.clone(), false, false, "stalled");
            }
            actix_rt::spawn(async move {
                actix_rt::time::sleep(Duration::from_millis(ms)).await;
                let (v, s) = eff();
                hist::comp(msg, args, true, true, &s);
                let _ = tx.send(Ok(v));
            });
        }
    }
    rx
}

#[derive(Default)]
pub struct FCache;
struct St {
    pow: HashMap<String, (CachedPoWConfig, u64)>,
    tok: HashMap<String, (String, u64)>,
    sites: BTreeMap<String, (u64, Vec<u32>, u64)>,
}
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe {
        ST.get_or_insert_with(|| St {
            pow: HashMap::new(),
            tok: HashMap::new(),
            sites: BTreeMap::new(),
        })
    }
}

impl Actor for FCache {
    type Context = Context<Self>;
}
impl Supervised for FCache {}
impl Save for FCache {}

impl Handler<CachePoW> for FCache {
    type Result = MessageResult<CachePoW>;
    fn handle(&mut self, m: CachePoW, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![
            m.string.clone(),
            m.difficulty_factor.to_string(),
            m.duration.to_string(),
            m.key.clone(),
        ];
        MessageResult(serve(ctx, "CachePoW", args, None, move || {
            let exp = core::now() + m.duration.saturating_mul(core::SEC);
            st().pow.insert(
                m.string,
                (
                    CachedPoWConfig {
                        key: m.key,
                        difficulty_factor: m.difficulty_factor,
                        duration: m.duration,
                    },
                    exp,
                ),
            );
            ((), "ok".into())
        }))
    }
}
impl Handler<RetrivePoW> for FCache {
    type Result = MessageResult<RetrivePoW>;
    fn handle(&mut self, m: RetrivePoW, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![m.0.token.clone(), m.0.key.clone()];
        MessageResult(serve(ctx, "RetrivePoW", args, Some(None), move || {
            let r = st().pow.remove(&m.0.token);
            let r = r.filter(|x| x.1 > core::now()).map(|x| x.0);
            let s = match &r {
                Some(c) => format!("{}|{}|{}", c.key, c.difficulty_factor, c.duration),
                None => "none".into(),
            };
            (r, s)
        }))
    }
}
impl Handler<DeletePoW> for FCache {
    type Result = MessageResult<DeletePoW>;
    fn handle(&mut self, m: DeletePoW, _: &mut Self::Context) -> Self::Result {
        st().pow.remove(&m.0);
        MessageResult(Ok(()))
    }
}
impl Handler<CacheResult> for FCache {
    type Result = MessageResult<CacheResult>;
    fn handle(&mut self, m: CacheResult, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![m.token.clone(), m.key.clone(), m.duration.to_string()];
        MessageResult(serve(ctx, "CacheResult", args, None, move || {
            let exp = core::now() + m.duration.saturating_mul(core::SEC);
            st().tok.insert(m.token, (m.key, exp));
            ((), "ok".into())
        }))
    }
}
impl Handler<VerifyCaptchaResult> for FCache {
    type Result = MessageResult<VerifyCaptchaResult>;
    fn handle(&mut self, m: VerifyCaptchaResult, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![m.token.clone(), m.key.clone()];
        MessageResult(serve(ctx, "VerifyCaptchaResult", args, Some(false), move || {
            let r = st().tok.remove(&m.token);
            let v = r.map_or(false, |x| x.0 == m.key && x.1 > core::now());
            (v, v.to_string())
        }))
    }
}
impl Handler<DeleteCaptchaResult> for FCache {
    type Result = MessageResult<DeleteCaptchaResult>;
    fn handle(&mut self, m: DeleteCaptchaResult, _: &mut Self::Context) -> Self::Result {
        st().tok.remove(&m.token);
        MessageResult(Ok(()))
    }
}

#[derive(Default)]
pub struct FMaster;
impl Actor for FMaster {
    type Context = Context<Self>;
}
impl Supervised for FMaster {}
impl Master for FMaster {}

impl Handler<AddVisitor> for FMaster {
    type Result = MessageResult<AddVisitor>;
    fn handle(&mut self, m: AddVisitor, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![m.0.clone()];
        MessageResult(serve(ctx, "AddVisitor", args, Some(None), move || {
            match st().sites.get_mut(&m.0) {
                None => (None, "none".into()),
                Some((dur, diffs, n)) => {
                    let d = diffs[*n as usize % diffs.len()];
                    // the duration varies as well, so that a mix-up of calls shows
                    let du = *dur + *n % 3;
                    *n += 1;
                    (
                        Some(AddVisitorResult {
                            duration: du,
                            difficulty_factor: d,
                        }),
                        format!("{d}|{du}"),
                    )
                }
            }
        }))
    }
}
impl Handler<AddSite> for FMaster {
    type Result = MessageResult<AddSite>;
    fn handle(&mut self, m: AddSite, ctx: &mut Self::Context) -> Self::Result {
        let args = vec![m.id.clone()];
        MessageResult(serve(ctx, "AddSite", args, None, move || {
            let levels: Vec<libmcaptcha::defense::Level> = m.mcaptcha.get_defense().into();
            let diffs = levels.iter().map(|l| l.difficulty_factor).collect();
            st().sites.insert(m.id, (m.mcaptcha.get_duration(), diffs, 0));
            ((), "ok".into())
        }))
    }
}
impl Handler<Rename> for FMaster {
    type Result = MessageResult<Rename>;
    fn handle(&mut self, m: Rename, ctx: &mut Self::Context) -> Self::Result {
        MessageResult(serve(ctx, "Rename", vec![m.name.clone()], None, move || {
            if let Some(x) = st().sites.remove(&m.name) {
                st().sites.insert(m.rename_to, x);
            }
            ((), "ok".into())
        }))
    }
}
impl Handler<RemoveCaptcha> for FMaster {
    type Result = MessageResult<RemoveCaptcha>;
    fn handle(&mut self, m: RemoveCaptcha, ctx: &mut Self::Context) -> Self::Result {
        MessageResult(serve(ctx, "RemoveCaptcha", vec![m.0.clone()], None, move || {
            st().sites.remove(&m.0);
            ((), "ok".into())
        }))
    }
}
impl Handler<GetInternalData> for FMaster {
    type Result = MessageResult<GetInternalData>;
    fn handle(&mut self, _: GetInternalData, ctx: &mut Self::Context) -> Self::Result {
        MessageResult(serve(ctx, "GetInternalData", vec![], None, move || {
            (HashMap::new(), "ok".into())
        }))
    }
}
impl Handler<SetInternalData> for FMaster {
    type Result = MessageResult<SetInternalData>;
    fn handle(&mut self, _: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
        MessageResult(serve(ctx, "SetInternalData", vec![], None, move || ((), "ok".into())))
    }
}
