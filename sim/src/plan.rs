//! A plan is everything about one simulated execution except the scheduling decisions.
use crate::core::Policy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Backend {
    Embedded,
    Redis,
    /// embedded master, Redis cache
    Mixed,
    /// fault-injecting Save/Master implementations
    Faulty,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SiteCfg {
    pub name: String,
    pub dur: u64,
    /// (visitor threshold, difficulty factor)
    pub levels: Vec<(u32, u32)>,
    /// the levels are handed to the builder rotated by this and, if odd, in reverse
    #[serde(default)]
    pub order: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cancel {
    /// drop the call's future at its n-th poll
    Polls(u32),
    /// drop it after this much time
    AfterUs(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Work {
    /// a correct proof at the issued difficulty
    Honest,
    /// a correct proof that reaches only this (lower) difficulty
    Weak(u32),
    /// weak nonce, result claimed to be the maximum
    Forged,
    /// correct nonce, result off by one
    OffByOne,
    /// correct nonce, result of another form of the same or nothing
    Text(String),
    /// proof computed under another salt
    WrongSalt,
    /// proof for the challenge in another slot
    OtherSlot(usize),
    /// nonce of a correct proof plus one, claimed result of that proof
    WrongNonce,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tok {
    Slot(usize),
    /// the string of a challenge, presented as a token
    Chal(usize),
    Text(String),
    /// the token in a slot with something in front of it
    Pre(String, usize),
    /// the token in a slot, altered (see `exec::alter`)
    Alter(String, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Sleep { us: u64 },
    /// wait until this simulated time (since the start of the epoch)
    At { us: u64 },
    GetPow { site: String, out: usize, cancel: Option<Cancel> },
    Verify {
        ch: usize,
        /// submit this string instead of the challenge's ("~x": the challenge's string altered)
        raw: Option<String>,
        work: Work,
        key: Option<String>,
        ip: String,
        out: usize,
        cancel: Option<Cancel>,
    },
    /// key "~x": the site name the token is for, altered
    Validate { tok: Tok, key: String, cancel: Option<Cancel> },
    Visit { site: String, cancel: Option<Cancel> },
    Count { site: String },
    AddSite { cfg: usize, name: Option<String>, cancel: Option<Cancel> },
    Remove { site: String, cancel: Option<Cancel> },
    Rename { from: String, to: String, cancel: Option<Cancel> },
    /// look the site up and keep its address
    Hold { site: String, out: usize },
    /// is the held counter still alive? visit it if `visit`
    Held { slot: usize, visit: bool },
    Snapshot { out: usize },
    /// restore a snapshot (JSON round trip); `only` restricts it to some sites
    Restore {
        from: usize,
        cancel: Option<Cancel>,
        /// this many more visitors at the highest level, for every site
        #[serde(default)]
        more: u32,
    },
    WallJump { ms: i64 },
    /// stop injecting stalls and deferrals
    Quiet { on: bool },
    /// wait for all earlier operations of all clients of this epoch
    Redis(RedisOp),
    Fault(FaultOp),
    /// direct use of the Redis client API
    RExists { site: String },
    RVisitors { site: String },
    RDelChallenge { ch: usize, key: Option<String> },
    RDelToken { tok: usize, key: String },
    RPing,
    /// open a second client object
    RConnect,
    /// drop the system of this instance (waits for calls in flight)
    DropSystem,
    /// build it again around the same actors
    RebuildSystem { runners: usize, queue: usize },
    /// delete the challenge in this slot from the embedded cache ("~x": its string altered)
    DelPow { ch: usize, how: Option<String> },
    /// delete a token from the embedded cache
    DelTok { tok: Tok },
    /// store the challenge in this slot again, as `System::get_pow` does
    StorePow { ch: usize },
    /// store the token in this slot again, for this site
    StoreTok { slot: usize, site: String },
    /// how much does the system hold?
    Mem,
    /// sleep, and see what everybody else does meanwhile
    Rest { us: u64 },
    /// submit a burst of calls concurrently from this client
    Par { ops: Vec<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RedisOp {
    /// stop accepting and reset all connections
    Down,
    Up,
    /// reset all connections now
    Reset,
    /// restart with (durable) or without its data
    Restart { keep: bool },
    /// the next matching commands get this treatment; ">X": the commands that follow an X
    /// on the same connection
    Arm { cmd: Option<String>, n: u32, act: RAct },
    /// the slots of a cluster change hands
    Reshard,
    /// freeze for a while (accepts and reads, answers late)
    Freeze { ms: u64 },
    /// the modules loaded, and a command that is missing
    Modules { list: Vec<String>, lacks: Option<String> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RAct {
    /// reset the connection before executing
    CutBefore,
    /// execute, then reset without replying
    CutAfter,
    /// execute, send part of the reply, then reset
    Torn,
    /// execute, reply in small pieces
    Trickle,
    /// execute and reply late
    Delay { ms: u64 },
    /// do not execute; error reply
    Error { msg: String },
    /// do not execute; reply of an unexpected type or content
    Garbage { kind: u8 },
    /// swallow the command and whatever follows it on that connection, until it is reset
    Ignore,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultOp {
    /// message name: CachePoW, RetrivePoW, CacheResult, VerifyCaptchaResult, AddVisitor
    pub msg: String,
    pub n: u32,
    pub act: FAct,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FAct {
    /// reply with an error, nothing stored
    Err,
    /// effect happens, reply is an error
    ErrAfter,
    /// drop the reply channel, nothing stored
    Drop,
    /// effect happens, reply channel dropped
    DropAfter,
    /// reply (and take effect) late
    Delay { ms: u64 },
    /// the actor stops before handling
    Die,
    /// report "absent"
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    /// 0: the main executor; n: the n-th arbiter thread
    pub thread: usize,
    #[serde(default)]
    pub sys: usize,
    #[serde(default)]
    pub start_us: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Epoch {
    /// sites registered before the clients start (indices into Plan::sites)
    pub init: Vec<usize>,
    pub clients: Vec<Client>,
    /// kill everything but durable state at this time instead of waiting for the clients
    pub crash_at_us: Option<u64>,
    /// run one after the other once all clients are done
    pub post: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub flavor: String,
    pub seed: u64,
    pub entropy: u64,
    pub pol: Policy,
    pub backend: Backend,
    pub instances: usize,
    /// the instances are systems around the same master and cache
    #[serde(default)]
    pub shared: bool,
    pub gc: u64,
    pub runners: usize,
    pub queue: usize,
    pub salt: String,
    /// cache and master on their own arbiter threads
    pub split: bool,
    pub sites: Vec<SiteCfg>,
    pub epochs: Vec<Epoch>,
    /// a call pending longer than this (plus injected stalls) is stuck
    pub op_bound_ms: u64,
    /// initial state of the simulated Redis
    #[serde(default)]
    pub redis_down_at_start: bool,
    /// nodes of the simulated Redis cluster, 0: a single server
    #[serde(default)]
    pub cluster: usize,
}

impl Op {
    pub fn cancel(&self) -> Option<&Cancel> {
        match self {
            Op::GetPow { cancel, .. }
            | Op::Verify { cancel, .. }
            | Op::Validate { cancel, .. }
            | Op::Visit { cancel, .. }
            | Op::AddSite { cancel, .. }
            | Op::Remove { cancel, .. }
            | Op::Rename { cancel, .. }
            | Op::Restore { cancel, .. } => cancel.as_ref(),
            _ => None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Sleep { .. } => "sleep",
            Op::At { .. } => "at",
            Op::GetPow { .. } => "get_pow",
            Op::Verify { .. } => "verify",
            Op::Validate { .. } => "validate",
            Op::Visit { .. } => "visit",
            Op::Count { .. } => "count",
            Op::AddSite { .. } => "add_site",
            Op::Remove { .. } => "remove",
            Op::Rename { .. } => "rename",
            Op::Hold { .. } => "hold",
            Op::Held { .. } => "held",
            Op::Snapshot { .. } => "snapshot",
            Op::Restore { .. } => "restore",
            Op::WallJump { .. } => "wall_jump",
            Op::Quiet { .. } => "quiet",
            Op::Redis(_) => "redis",
            Op::Fault(_) => "fault",
            Op::RExists { .. } => "r_exists",
            Op::RVisitors { .. } => "r_visitors",
            Op::RDelChallenge { .. } => "r_del_challenge",
            Op::RDelToken { .. } => "r_del_token",
            Op::RPing => "r_ping",
            Op::RConnect => "r_connect",
            Op::DropSystem => "drop_system",
            Op::RebuildSystem { .. } => "rebuild_system",
            Op::DelPow { .. } => "del_pow",
            Op::DelTok { .. } => "del_token",
            Op::StorePow { .. } => "store_pow",
            Op::StoreTok { .. } => "store_token",
            Op::Mem => "mem",
            Op::Rest { .. } => "rest",
            Op::Par { .. } => "par",
        }
    }
}
