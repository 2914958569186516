//! The generic parts of the library, instantiated here for the backends that are simulated, so
//! that they are compiled with preemption points like the library itself (see rustc-wrap.sh).
use actix::dev::ToEnvelope;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::embedded::master::Master as EMaster;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::redis::master::Master as RMaster;
use libmcaptcha::master::Master;
use libmcaptcha::pow::{PoWConfig, Work};
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::HashCache;
use mcaptcha_pow_sha256::Config;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type SysArc = Arc<dyn SysT>;

pub trait SysT: Send + Sync {
    fn get_pow(&self, id: String) -> Fut<'_, CaptchaResult<Option<PoWConfig>>>;
    fn verify(&self, w: Work, ip: String) -> Fut<'_, CaptchaResult<(String, u32)>>;
    fn validate(&self, m: VerifyCaptchaResult) -> Fut<'_, CaptchaResult<bool>>;
}
impl<T, X> SysT for System<T, X>
where
    T: Save,
    <T as Actor>::Context: ToEnvelope<T, CachePoW>
        + ToEnvelope<T, RetrivePoW>
        + ToEnvelope<T, CacheResult>
        + ToEnvelope<T, VerifyCaptchaResult>,
    X: Master,
    <X as Actor>::Context: ToEnvelope<X, AddVisitor> + ToEnvelope<X, AddSite>,
{
    fn get_pow(&self, id: String) -> Fut<'_, CaptchaResult<Option<PoWConfig>>> {
        Box::pin(System::get_pow(self, id))
    }
    fn verify(&self, w: Work, ip: String) -> Fut<'_, CaptchaResult<(String, u32)>> {
        Box::pin(self.verify_pow(w, ip))
    }
    fn validate(&self, m: VerifyCaptchaResult) -> Fut<'_, CaptchaResult<bool>> {
        Box::pin(self.validate_verification_tokens(m))
    }
}

pub fn any<T, X>(c: Addr<T>, m: Addr<X>, pow: Config, runners: usize, queue: usize) -> SysArc
where
    T: Save,
    <T as Actor>::Context: ToEnvelope<T, CachePoW>
        + ToEnvelope<T, RetrivePoW>
        + ToEnvelope<T, CacheResult>
        + ToEnvelope<T, VerifyCaptchaResult>,
    X: Master,
    <X as Actor>::Context: ToEnvelope<X, AddVisitor> + ToEnvelope<X, AddSite>,
{
    let b = SystemBuilder::default()
        .master(m)
        .cache(c)
        .pow(pow)
        .runners(runners)
        .queue_length(queue);
    Arc::new(b.build())
}
pub fn embedded(c: Addr<HashCache>, m: Addr<EMaster>, pow: Config, runners: usize, queue: usize) -> SysArc {
    any(c, m, pow, runners, queue)
}
pub fn mixed(c: Addr<RedisCache>, m: Addr<EMaster>, pow: Config, runners: usize, queue: usize) -> SysArc {
    any(c, m, pow, runners, queue)
}
pub fn redis(c: Addr<RedisCache>, m: Addr<RMaster>, pow: Config, runners: usize, queue: usize) -> SysArc {
    any(c, m, pow, runners, queue)
}
