//! Simulated Redis server with a model of the mCaptcha cache module. It is one more simulated
//! thread, reached over a real Unix socket, so redis-rs runs unmodified against it.
use crate::core::{self, Ns, MS, SEC};
use crate::hist;
use crate::plan::{RAct, RedisOp};
use std::collections::{BTreeMap, VecDeque};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, RawFd};
use std::os::unix::net::{UnixListener, UnixStream};

#[derive(Clone, Debug)]
pub struct Site {
    pub levels: Vec<(u32, u32)>,
    pub dur: u64,
    pub visits: VecDeque<Ns>,
    pub level: usize,
}
#[derive(Clone, Debug)]
pub struct Chal {
    pub diff: u32,
    pub dur: u64,
    pub exp: Ns,
}

#[derive(Default)]
pub struct Store {
    pub kv: BTreeMap<String, (String, Option<Ns>)>,
    pub sites: BTreeMap<String, Site>,
    pub chals: BTreeMap<(String, String), Chal>,
}

struct Arm {
    cmd: Option<String>,
    n: u32,
    act: RAct,
}

pub struct Srv {
    pub store: Store,
    pub path: String,
    up: bool,
    reset: bool,
    frozen_until: Ns,
    arms: Vec<Arm>,
    modules: Vec<String>,
    lacks: Option<String>,
    evfd: RawFd,
    pub cmds: u64,
    pub conns: u64,
    pub tid: usize,
    /// nodes of the cluster, 0: a single server
    nodes: usize,
    /// how often slots changed hands
    shift: usize,
}

/// the first node's port
pub const PORT: u16 = 7000;

impl Srv {
    /// where to listen
    fn ends(&self) -> Vec<String> {
        match self.nodes {
            0 => vec![self.path.clone()],
            n => (0..n).map(|k| format!("{}.{}", self.path, PORT + k as u16)).collect(),
        }
    }
    /// the node that serves a slot
    fn owner(&self, slot: usize) -> usize {
        (slot * self.nodes / SLOTS + self.shift) % self.nodes
    }
}

const SLOTS: usize = 16384;
fn slot_of(key: &str) -> usize {
    let mut k = key.as_bytes();
    if let Some(a) = k.iter().position(|b| *b == b'{') {
        if let Some(b) = k[a + 1..].iter().position(|b| *b == b'}') {
            if b > 0 {
                k = &k[a + 1..a + 1 + b];
            }
        }
    }
    let mut c: u16 = 0;
    for b in k {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x1021 } else { c << 1 };
        }
    }
    c as usize % SLOTS
}

static mut SRV: *mut Srv = std::ptr::null_mut();
pub fn srv() -> &'static mut Srv {
    unsafe { &mut *SRV }
}

pub fn start(path: &str, up: bool, nodes: usize) {
    if nodes > 0 {
        core::tcp_base(path);
    }
    let evfd = unsafe { libc::eventfd(0, libc::EFD_NONBLOCK | libc::EFD_CLOEXEC) };
    let s = Srv {
        store: Store::default(),
        path: path.into(),
        up,
        reset: false,
        frozen_until: 0,
        arms: vec![],
        modules: vec!["mcaptcha_cache".into()],
        lacks: None,
        evfd,
        cmds: 0,
        conns: 0,
        tid: usize::MAX,
        nodes,
        shift: 0,
    };
    unsafe { SRV = Box::into_raw(Box::new(s)) };
    std::thread::spawn(serve);
    // give the listener a chance to exist before anyone connects
    core::sleep_ns(1000);
}

fn poke() {
    unsafe {
        core::write(srv().evfd, &1u64 as *const u64 as *const u8, 8);
    }
}

pub fn control(op: &RedisOp) {
    let s = srv();
    match op {
        RedisOp::Down => {
            hist::fault("redis down");
            s.up = false;
            s.reset = true;
        }
        RedisOp::Up => {
            s.up = true;
            s.frozen_until = 0;
        }
        RedisOp::Reset => {
            hist::fault("redis connections reset");
            s.reset = true;
        }
        RedisOp::Restart { keep } => {
            hist::fault("redis restart");
            s.reset = true;
            s.up = true;
            if !keep {
                s.store = Store::default();
            }
        }
        RedisOp::Arm { cmd, n, act } => {
            if *n == 0 {
                s.arms.clear();
            } else {
                s.arms.push(Arm {
                    cmd: cmd.clone(),
                    n: *n,
                    act: act.clone(),
                });
            }
        }
        RedisOp::Modules { list, lacks } => {
            s.modules = list.clone();
            s.lacks = lacks.clone();
        }
        RedisOp::Reshard => {
            hist::fault("redis slots moved");
            s.shift += 1;
        }
        RedisOp::Freeze { ms } => {
            hist::fault("redis frozen");
            s.frozen_until = core::now() + ms * MS;
        }
    }
    poke();
}

struct Conn {
    /// the node that was connected to
    node: usize,
    s: UnixStream,
    inb: Vec<u8>,
    /// (release time, bytes)
    out: VecDeque<(Ns, Vec<u8>)>,
    cut_after_out: bool,
    dead: bool,
    /// nothing gets through any more, the peer does not notice
    mute: bool,
    /// the previous command
    prev: String,
    /// commands of an open transaction; `Err` once one of them was refused
    multi: Option<Result<Vec<Vec<String>>, ()>>,
}

fn serve() {
    crate::mem::own_thread();
    let mut lst: Vec<UnixListener> = vec![];
    let mut conns: Vec<Conn> = vec![];
    srv().tid = core::my_tid();
    loop {
        let s = srv();
        if s.reset {
            s.reset = false;
            conns.clear();
        }
        if s.up && lst.is_empty() {
            for e in s.ends() {
                let _ = std::fs::remove_file(&e);
                match UnixListener::bind(&e) {
                    Ok(l) => {
                        l.set_nonblocking(true).unwrap();
                        lst.push(l);
                    }
                    Err(e) => hist::h().notes.push(format!("bind: {e}")),
                }
            }
        } else if !s.up && !lst.is_empty() {
            lst.clear();
            for e in s.ends() {
                let _ = std::fs::remove_file(&e);
            }
            conns.clear();
        }
        let now = core::now();
        let frozen = now < s.frozen_until;
        let mut t_next: Option<Ns> = if frozen { Some(s.frozen_until) } else { None };
        let mut fds = vec![libc::pollfd {
            fd: s.evfd,
            events: libc::POLLIN,
            revents: 0,
        }];
        for l in lst.iter() {
            fds.push(libc::pollfd {
                fd: l.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            });
        }
        let base = fds.len();
        for c in conns.iter() {
            let mut ev = 0;
            if !frozen {
                ev |= libc::POLLIN;
                if let Some((t, _)) = c.out.front() {
                    if *t <= now {
                        ev |= libc::POLLOUT;
                    } else {
                        t_next = Some(t_next.map_or(*t, |x| x.min(*t)));
                    }
                }
            }
            fds.push(libc::pollfd {
                fd: if frozen { -1 } else { c.s.as_raw_fd() },
                events: ev,
                revents: 0,
            });
        }
        let timeout = match t_next {
            None => -1,
            Some(t) => (t.saturating_sub(now)).div_ceil(MS) as i32,
        };
        unsafe { core::poll(fds.as_mut_ptr(), fds.len() as _, timeout) };
        if fds[0].revents != 0 {
            let mut b = [0u8; 8];
            unsafe { core::read(fds[0].fd, b.as_mut_ptr(), 8) };
        }
        if srv().reset || (!srv().up && !lst.is_empty()) {
            continue;
        }
        for (node, l) in lst.iter().enumerate() {
            if fds[1 + node].revents != 0 {
                while let Ok((st, _)) = l.accept() {
                    st.set_nonblocking(true).unwrap();
                    srv().conns += 1;
                    conns.push(Conn {
                        node,
                        s: st,
                        inb: vec![],
                        out: VecDeque::new(),
                        cut_after_out: false,
                        dead: false,
                        mute: false,
                        prev: String::new(),
                        multi: None,
                    });
                }
            }
        }
        let n = fds.len() - base;
        for i in 0..n.min(conns.len()) {
            let re = fds[base + i].revents;
            let c = &mut conns[i];
            if re & (libc::POLLIN | libc::POLLHUP | libc::POLLERR) != 0
                && core::now() >= srv().frozen_until
            {
                let mut buf = [0u8; 4096];
                loop {
                    match c.s.read(&mut buf) {
                        Ok(0) => {
                            c.dead = true;
                            break;
                        }
                        Ok(k) => c.inb.extend_from_slice(&buf[..k]),
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(_) => {
                            c.dead = true;
                            break;
                        }
                    }
                }
                if c.mute {
                    c.inb.clear();
                }
                while !c.dead && !c.cut_after_out && !c.mute {
                    match parse(&c.inb) {
                        None => break,
                        Some((args, used)) => {
                            c.inb.drain(..used);
                            command(c, args);
                        }
                    }
                }
            }
            flush(c);
        }
        conns.retain(|c| !c.dead);
    }
}

fn flush(c: &mut Conn) {
    let now = core::now();
    while let Some((t, b)) = c.out.front_mut() {
        if *t > now || c.dead {
            break;
        }
        match c.s.write(b) {
            Ok(k) if k == b.len() => {
                c.out.pop_front();
            }
            Ok(k) => {
                b.drain(..k);
                break;
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
            Err(_) => {
                c.dead = true;
            }
        }
    }
    if c.cut_after_out && c.out.is_empty() {
        c.dead = true;
    }
}

fn parse(b: &[u8]) -> Option<(Vec<String>, usize)> {
    fn line(b: &[u8], i: usize) -> Option<(i64, usize)> {
        let e = b[i..].windows(2).position(|w| w == b"\r\n")? + i;
        let n = std::str::from_utf8(&b[i..e]).ok()?.parse().ok()?;
        Some((n, e + 2))
    }
    if b.is_empty() || b[0] != b'*' {
        return None;
    }
    let (n, mut i) = line(b, 1)?;
    let mut v = vec![];
    for _ in 0..n {
        if i >= b.len() || b[i] != b'$' {
            return None;
        }
        let (l, j) = line(b, i + 1)?;
        let e = j + l as usize;
        if e + 2 > b.len() {
            return None;
        }
        v.push(String::from_utf8_lossy(&b[j..e]).into_owned());
        i = e + 2;
    }
    Some((v, i))
}

enum Rep {
    Ok,
    Simple(&'static str),
    Int(i64),
    Bulk(String),
    Nil,
    Arr(Vec<Rep>),
    Err(String),
    Raw(Vec<u8>),
}
fn enc(r: &Rep, o: &mut Vec<u8>) {
    match r {
        Rep::Ok => o.extend(b"+OK\r\n"),
        Rep::Simple(s) => o.extend(format!("+{s}\r\n").bytes()),
        Rep::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
        Rep::Bulk(s) => o.extend(format!("${}\r\n{}\r\n", s.len(), s).bytes()),
        Rep::Nil => o.extend(b"$-1\r\n"),
        Rep::Arr(v) => {
            o.extend(format!("*{}\r\n", v.len()).bytes());
            v.iter().for_each(|x| enc(x, o));
        }
        Rep::Err(s) => o.extend(format!("-{s}\r\n").bytes()),
        Rep::Raw(b) => o.extend(b),
    }
}

fn short(r: &Rep) -> String {
    match r {
        Rep::Ok => "OK".into(),
        Rep::Simple(s) => s.to_string(),
        Rep::Int(i) => i.to_string(),
        Rep::Bulk(s) => s.clone(),
        Rep::Nil => "nil".into(),
        Rep::Arr(_) => "array".into(),
        Rep::Err(s) => format!("-{s}"),
        Rep::Raw(_) => "raw".into(),
    }
}

/// commands of the connection handshake are never the target of an armed fault by default
fn housekeeping(name: &str) -> bool {
    matches!(name, "CLIENT" | "HELLO" | "AUTH" | "SELECT" | "COMMAND" | "MODULE" | "CLUSTER" | "READONLY" | "ASKING")
}

fn command(c: &mut Conn, args: Vec<String>) {
    let s = srv();
    s.cmds += 1;
    let name = args[0].to_uppercase();
    let act = s
        .arms
        .iter()
        .position(|a| {
            a.n > 0
                && match &a.cmd {
                    Some(x) if x.starts_with('>') => c.prev.contains(&x[1..]) && !housekeeping(&name),
                    Some(x) => name.contains(x.as_str()),
                    None => !housekeeping(&name),
                }
        })
        .map(|i| {
            let a = &mut s.arms[i];
            a.n -= 1;
            let r = a.act.clone();
            if a.n == 0 {
                s.arms.remove(i);
            }
            r
        });
    c.prev = name.clone();
    if let Some(a) = &act {
        let k = format!("{a:?}");
        let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        hist::fault(&format!("redis {k}"));
    }
    let log = |effect: bool, ok: bool, rep: &str| {
        if !housekeeping(&name) {
            hist::comp(&name, args[1..].to_vec(), effect, ok, rep)
        }
    };
    let now = core::now();
    if s.nodes > 0 && act.is_none() {
        let r = match name.as_str() {
            "CLUSTER" => Some(Rep::Arr(
                (0..s.nodes)
                    .map(|k| {
                        let o = s.owner((k * SLOTS).div_ceil(s.nodes));
                        Rep::Arr(vec![
                            Rep::Int((k * SLOTS).div_ceil(s.nodes) as i64),
                            Rep::Int(((k + 1) * SLOTS).div_ceil(s.nodes) as i64 - 1),
                            Rep::Arr(vec![
                                Rep::Bulk("127.0.0.1".into()),
                                Rep::Int(PORT as i64 + o as i64),
                                Rep::Bulk(format!("{o:040}")),
                            ]),
                        ])
                    })
                    .collect(),
            )),
            "READONLY" => Some(Rep::Ok),
            n if housekeeping(n) || n == "PING" => None,
            _ => args.get(1).and_then(|k| {
                let sl = slot_of(k);
                let o = s.owner(sl);
                (o != c.node).then(|| Rep::Err(format!("MOVED {sl} 127.0.0.1:{}", PORT + o as u16)))
            }),
        };
        if let Some(r) = r {
            if matches!(r, Rep::Err(_)) {
                hist::fault("redis redirect");
            }
            let mut o = vec![];
            enc(&r, &mut o);
            c.out.push_back((now, o));
            return;
        }
    }
    if matches!(act, None | Some(RAct::CutAfter | RAct::Torn | RAct::Trickle | RAct::Delay { .. })) {
        if let Some(m) = transaction(c, &name, &args) {
            let r = match m {
                Err(r) => r,
                Ok(cmds) => Rep::Arr(
                    cmds.into_iter()
                        .map(|a| {
                            let n = a[0].to_uppercase();
                            let r = exec(&mut s.store, &n, &a[1..]);
                            let lost = matches!(act, Some(RAct::CutAfter | RAct::Torn));
                            hist::comp(&n, a[1..].to_vec(), true, !lost, &short(&r));
                            r
                        })
                        .collect(),
                ),
            };
            let mut o = vec![];
            enc(&r, &mut o);
            match act {
                Some(RAct::CutAfter) => c.cut_after_out = true,
                Some(RAct::Torn) => {
                    o.truncate((o.len() / 2).max(1));
                    c.out.push_back((now, o));
                    c.cut_after_out = true;
                }
                Some(RAct::Delay { ms }) => c.out.push_back((now + ms * MS, o)),
                _ => c.out.push_back((now, o)),
            }
            return;
        }
    } else if let Some(m) = &mut c.multi {
        *m = Err(());
    }
    match act {
        None => {
            let r = exec(&mut s.store, &name, &args[1..]);
            log(true, true, &short(&r));
            let mut o = vec![];
            enc(&r, &mut o);
            c.out.push_back((now, o));
        }
        Some(RAct::CutBefore) => {
            log(false, false, "cut before");
            c.cut_after_out = true;
        }
        Some(RAct::CutAfter) => {
            let r = exec(&mut s.store, &name, &args[1..]);
            log(true, false, &short(&r));
            c.cut_after_out = true;
        }
        Some(RAct::Torn) => {
            let r = exec(&mut s.store, &name, &args[1..]);
            log(true, false, &short(&r));
            let mut o = vec![];
            enc(&r, &mut o);
            o.truncate((o.len() / 2).max(1));
            c.out.push_back((now, o));
            c.cut_after_out = true;
        }
        Some(RAct::Trickle) => {
            let r = exec(&mut s.store, &name, &args[1..]);
            log(true, true, &short(&r));
            let mut o = vec![];
            enc(&r, &mut o);
            for (i, ch) in o.chunks(3).enumerate() {
                c.out.push_back((now + (i as u64) * 2 * MS, ch.to_vec()));
            }
        }
        Some(RAct::Delay { ms }) => {
            let r = exec(&mut s.store, &name, &args[1..]);
            log(true, true, &short(&r));
            let mut o = vec![];
            enc(&r, &mut o);
            c.out.push_back((now + ms * MS, o));
        }
        Some(RAct::Error { mut msg }) => {
            // nodes of a cluster answer that to commands with keys only
            if s.nodes > 0 && name == "PING" && (msg.starts_with("MOVED") || msg.starts_with("ASK")) {
                msg = "ERR".into();
            }
            log(false, false, &format!("-{msg}"));
            let mut o = vec![];
            enc(&Rep::Err(msg), &mut o);
            c.out.push_back((now, o));
        }
        Some(RAct::Garbage { kind }) => {
            log(false, false, "garbage");
            // any scalar is a proper answer to these
            let scalar = ["GET", "GETDEL", "GETEX", "MGET"].contains(&name.as_str());
            let r = match if scalar { [3, 6][kind as usize % 2] } else { kind % 9 } {
                0 => Rep::Int(7),
                7 => Rep::Int(2),
                8 => Rep::Int(-1),
                1 => Rep::Nil,
                2 => Rep::Bulk("{\"dur".into()),
                3 => Rep::Arr(vec![Rep::Int(1), Rep::Ok]),
                4 => Rep::Bulk("\u{0}\u{1}not json".into()),
                5 => Rep::Bulk("{\"duration\":-5,\"difficulty_factor\":\"x\"}".into()),
                _ => Rep::Raw(b"?!bogus\r\n".to_vec()),
            };
            let mut o = vec![];
            enc(&r, &mut o);
            c.out.push_back((now, o));
        }
        Some(RAct::Ignore) => {
            log(false, false, "ignored");
            c.mute = true;
        }
    }
}

/// challenges, tokens and whatever else is stored besides the sites
pub fn keys() -> u64 {
    if unsafe { SRV.is_null() } {
        return 0;
    }
    crate::mem::harness(|| {
        let st = &mut srv().store;
        expire(st);
        (st.kv.len() + st.chals.len()) as u64
    })
}

fn expire(st: &mut Store) {
    let now = core::now();
    st.kv.retain(|_, v| v.1.map_or(true, |e| e > now));
    st.chals.retain(|_, c| c.exp > now);
    for s in st.sites.values_mut() {
        while s.visits.front().map_or(false, |t| t.saturating_add(s.dur.saturating_mul(SEC)) <= now) {
            s.visits.pop_front();
        }
    }
}

/// MULTI and what follows; `Ok`: the commands to execute now
fn transaction(c: &mut Conn, name: &str, args: &[String]) -> Option<Result<Vec<Vec<String>>, Rep>> {
    match (name, &mut c.multi) {
        ("MULTI", None) => {
            c.multi = Some(Ok(vec![]));
            Some(Err(Rep::Ok))
        }
        ("MULTI", _) => Some(Err(Rep::Err("ERR MULTI calls can not be nested".into()))),
        ("EXEC" | "DISCARD", None) => Some(Err(Rep::Err(format!("ERR {name} without MULTI")))),
        ("DISCARD", _) => {
            c.multi = None;
            Some(Err(Rep::Ok))
        }
        ("EXEC", m) => Some(match m.take() {
            Some(Ok(v)) => Ok(v),
            _ => Err(Rep::Err("EXECABORT Transaction discarded because of previous errors.".into())),
        }),
        ("WATCH" | "UNWATCH", None) => Some(Err(Rep::Ok)),
        (_, None) => None,
        (_, Some(m)) => {
            if let Ok(v) = m {
                v.push(args.to_vec());
            }
            Some(Err(Rep::Simple("QUEUED")))
        }
    }
}

pub const MODULE_CMDS: [&str; 9] = [
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
];

fn exec(st: &mut Store, name: &str, a: &[String]) -> Rep {
    expire(st);
    let now = core::now();
    let need = |n: usize| a.len() >= n;
    let argc = || Rep::Err("ERR wrong number of arguments".into());
    match name {
        "PING" => Rep::Simple("PONG"),
        "CLIENT" | "SELECT" | "AUTH" => Rep::Ok,
        "HELLO" => Rep::Err("ERR unknown command 'HELLO'".into()),
        "MODULE" => Rep::Arr(
            srv()
                .modules
                .iter()
                .map(|m| {
                    Rep::Arr(vec![
                        Rep::Bulk("name".into()),
                        Rep::Bulk(m.clone()),
                        Rep::Bulk("ver".into()),
                        Rep::Int(1),
                    ])
                })
                .collect(),
        ),
        "COMMAND" => {
            if a.len() >= 2 && a[0].eq_ignore_ascii_case("INFO") {
                Rep::Arr(
                    a[1..]
                        .iter()
                        .map(|c| {
                            let n = c.to_uppercase();
                            if MODULE_CMDS.contains(&n.as_str()) && srv().lacks.as_ref() != Some(&n) {
                                Rep::Arr(vec![Rep::Bulk(c.to_lowercase()), Rep::Int(-1)])
                            } else {
                                Rep::Nil
                            }
                        })
                        .collect(),
                )
            } else {
                Rep::Arr(vec![])
            }
        }
        "SET" => {
            if !need(2) {
                return argc();
            }
            let mut exp = None;
            let mut nx = false;
            let mut i = 2;
            while i < a.len() {
                match a[i].to_uppercase().as_str() {
                    "EX" | "PX" if i + 1 < a.len() => {
                        let unit = if a[i].eq_ignore_ascii_case("EX") { SEC } else { MS };
                        match a[i + 1].parse::<u64>() {
                            Ok(n) if n > 0 => exp = Some(now.saturating_add(n.saturating_mul(unit))),
                            _ => return Rep::Err("ERR invalid expire time in 'set' command".into()),
                        }
                        i += 2;
                    }
                    "NX" => {
                        nx = true;
                        i += 1;
                    }
                    "XX" if st.kv.contains_key(&a[0]) => i += 1,
                    "XX" => return Rep::Nil,
                    "KEEPTTL" => {
                        exp = st.kv.get(&a[0]).and_then(|v| v.1);
                        i += 1;
                    }
                    _ => return Rep::Err("ERR syntax error".into()),
                }
            }
            if nx && st.kv.contains_key(&a[0]) {
                return Rep::Nil;
            }
            st.kv.insert(a[0].clone(), (a[1].clone(), exp));
            Rep::Ok
        }
        "GET" => match a.first().and_then(|k| st.kv.get(k)) {
            Some(v) => Rep::Bulk(v.0.clone()),
            None => Rep::Nil,
        },
        "GETDEL" => match a.first().and_then(|k| st.kv.remove(k)) {
            Some(v) => Rep::Bulk(v.0),
            None => Rep::Nil,
        },
        "EXISTS" => Rep::Int(a.iter().filter(|k| st.kv.contains_key(*k)).count() as i64),
        "DEL" | "UNLINK" => Rep::Int(a.iter().filter(|k| st.kv.remove(*k).is_some()).count() as i64),
        "EXPIRE" | "PEXPIRE" => {
            if !need(2) {
                return argc();
            }
            let unit = if name == "EXPIRE" { SEC } else { MS };
            match (st.kv.get_mut(&a[0]), a[1].parse::<u64>()) {
                (Some(v), Ok(n)) => {
                    v.1 = Some(now.saturating_add(n.saturating_mul(unit)));
                    Rep::Int(1)
                }
                _ => Rep::Int(0),
            }
        }
        "PERSIST" => match a.first().and_then(|k| st.kv.get_mut(k)) {
            Some(v) => Rep::Int(v.1.take().is_some() as i64),
            None => Rep::Int(0),
        },
        "TTL" | "PTTL" => match a.first().and_then(|k| st.kv.get(k)) {
            None => Rep::Int(-2),
            Some((_, None)) => Rep::Int(-1),
            Some((_, Some(e))) => Rep::Int((e.saturating_sub(now) / if name == "TTL" { SEC } else { MS }) as i64),
        },
        "SETEX" | "PSETEX" => {
            if !need(3) {
                return argc();
            }
            let unit = if name == "SETEX" { SEC } else { MS };
            match a[1].parse::<u64>() {
                Ok(n) if n > 0 => {
                    let exp = Some(now.saturating_add(n.saturating_mul(unit)));
                    st.kv.insert(a[0].clone(), (a[2].clone(), exp));
                    Rep::Ok
                }
                _ => Rep::Err(format!("ERR invalid expire time in '{}' command", name.to_lowercase())),
            }
        }
        "SETNX" => {
            if !need(2) {
                return argc();
            }
            let free = !st.kv.contains_key(&a[0]);
            if free {
                st.kv.insert(a[0].clone(), (a[1].clone(), None));
            }
            Rep::Int(free as i64)
        }
        "GETEX" => match a.first().and_then(|k| st.kv.get_mut(k)) {
            None => Rep::Nil,
            Some(v) => {
                match (a.get(1).map(|x| x.to_uppercase()), a.get(2).and_then(|x| x.parse::<u64>().ok())) {
                    (Some(x), Some(n)) if x == "EX" => v.1 = Some(now.saturating_add(n.saturating_mul(SEC))),
                    (Some(x), Some(n)) if x == "PX" => v.1 = Some(now.saturating_add(n.saturating_mul(MS))),
                    (Some(x), None) if x == "PERSIST" => v.1 = None,
                    _ => {}
                }
                Rep::Bulk(v.0.clone())
            }
        },
        "MGET" => Rep::Arr(
            a.iter()
                .map(|k| st.kv.get(k).map_or(Rep::Nil, |v| Rep::Bulk(v.0.clone())))
                .collect(),
        ),
        "ECHO" => Rep::Bulk(a.first().cloned().unwrap_or_default()),
        "MCAPTCHA_CACHE.ADD_CAPTCHA" => {
            if !need(2) {
                return argc();
            }
            let v: serde_json::Value = match serde_json::from_str(&a[1]) {
                Ok(v) => v,
                Err(e) => return Rep::Err(format!("ERR {e}")),
            };
            let dur = v["duration"].as_u64();
            let levels: Option<Vec<(u32, u32)>> = v["levels"].as_array().map(|l| {
                l.iter()
                    .filter_map(|x| {
                        Some((
                            x["visitor_threshold"].as_u64()? as u32,
                            x["difficulty_factor"].as_u64()? as u32,
                        ))
                    })
                    .collect()
            });
            match (dur, levels) {
                (Some(dur), Some(levels)) if !levels.is_empty() => {
                    st.sites.insert(
                        a[0].clone(),
                        Site {
                            levels,
                            dur,
                            visits: VecDeque::new(),
                            level: 0,
                        },
                    );
                    Rep::Ok
                }
                _ => Rep::Err("ERR bad captcha".into()),
            }
        }
        "MCAPTCHA_CACHE.ADD_VISITOR" => match a.first().and_then(|k| st.sites.get_mut(k)) {
            None => Rep::Err("ERR Captcha not found".into()),
            Some(s) => {
                s.visits.push_back(now);
                let v = s.visits.len() as u32;
                if v > s.levels[s.level].0 {
                    if s.level + 1 < s.levels.len() {
                        s.level += 1;
                    }
                } else if s.level > 0 && v <= s.levels[s.level - 1].0 {
                    s.level -= 1;
                }
                Rep::Bulk(format!(
                    "{{\"duration\":{},\"difficulty_factor\":{}}}",
                    s.dur, s.levels[s.level].1
                ))
            }
        },
        "MCAPTCHA_CACHE.GET" => match a.first().and_then(|k| st.sites.get(k)) {
            None => Rep::Err("ERR Captcha not found".into()),
            Some(s) => Rep::Int(s.visits.len() as i64),
        },
        "MCAPTCHA_CACHE.CAPTCHA_EXISTS" => match a.first() {
            None => argc(),
            Some(k) => Rep::Int(!st.sites.contains_key(k) as i64),
        },
        "MCAPTCHA_CACHE.DELETE_CAPTCHA" => match a.first().and_then(|k| st.sites.remove(k)) {
            None => Rep::Err("ERR Captcha not found".into()),
            Some(_) => Rep::Ok,
        },
        "MCAPTCHA_CACHE.RENAME_CAPTCHA" => {
            if !need(2) {
                return argc();
            }
            match st.sites.remove(&a[0]) {
                None => Rep::Err("ERR Captcha not found".into()),
                Some(s) => {
                    st.sites.insert(a[1].clone(), s);
                    Rep::Ok
                }
            }
        }
        "MCAPTCHA_CACHE.ADD_CHALLENGE" => {
            if !need(2) {
                return argc();
            }
            let v: serde_json::Value = match serde_json::from_str(&a[1]) {
                Ok(v) => v,
                Err(e) => return Rep::Err(format!("ERR {e}")),
            };
            match (v["challenge"].as_str(), v["difficulty"].as_u64(), v["duration"].as_u64()) {
                (Some(c), Some(d), Some(dur)) => {
                    st.chals.insert(
                        (a[0].clone(), c.to_string()),
                        Chal {
                            diff: d as u32,
                            dur,
                            exp: now.saturating_add(dur.saturating_mul(SEC)),
                        },
                    );
                    Rep::Ok
                }
                _ => Rep::Err("ERR bad challenge".into()),
            }
        }
        "MCAPTCHA_CACHE.GET_CHALLENGE" => {
            if !need(2) {
                return argc();
            }
            match st.chals.remove(&(a[0].clone(), a[1].clone())) {
                None => Rep::Err("ERR Challenge not found".into()),
                Some(c) => Rep::Bulk(format!(
                    "{{\"duration\":{},\"difficulty_factor\":{}}}",
                    c.dur, c.diff
                )),
            }
        }
        "MCAPTCHA_CACHE.DELETE_CHALLENGE" => {
            if !need(2) {
                return argc();
            }
            match st.chals.remove(&(a[0].clone(), a[1].clone())) {
                None => Rep::Err("ERR Challenge not found".into()),
                Some(_) => Rep::Ok,
            }
        }
        _ => Rep::Err(format!("ERR unknown command '{name}'")),
    }
}
