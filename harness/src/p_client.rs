//! P18-P20: the client library over both of its backends.
use crate::{alloc, common::*, eng::*, gen, model, model::*, net::*, rng::Rng, wire::*};
use hop::{
    backend::{memory, server, Backend, MemoryBackend, ServerBackend},
    Client,
};
use std::{
    collections::BTreeSet,
    future::Future,
    io::{Read, Write},
    net::{Shutdown, SocketAddr, TcpListener, TcpStream},
    os::unix::io::AsRawFd,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

/// A client call that takes this long after everything it waits for happened never returns.
const NEVER: Duration = Duration::from_secs(30);

// The locked net2 0.2.35 passes a Rust SocketAddrV4 to connect as if it were a sockaddr_in; see
// tools/sockaddr_shim.c, which does the same for the server process.
unsafe fn meant(nr: libc::c_long, fd: i32, a: *const libc::sockaddr, len: u32) -> i32 {
    if len == 6 {
        let b = std::slice::from_raw_parts(a as *const u8, 6);
        let mut s: libc::sockaddr_in = std::mem::zeroed();
        s.sin_family = libc::AF_INET as u16;
        s.sin_addr.s_addr = u32::from_ne_bytes([b[0], b[1], b[2], b[3]]);
        s.sin_port = u16::from_ne_bytes([b[4], b[5]]).to_be();
        return libc::syscall(nr, fd, &s as *const _, std::mem::size_of::<libc::sockaddr_in>()) as i32;
    }
    libc::syscall(nr, fd, a, len) as i32
}
/// # Safety
/// As connect(2).
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, len: u32) -> i32 {
    meant(libc::SYS_connect, fd, a, len)
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new().basic_scheduler().enable_all().build().expect("runtime")
}
fn rt_threads(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new().threaded_scheduler().core_threads(n).enable_all().build().expect("runtime")
}

/// Run a future of the client: Err when it panicked; a call that never ends is a violation.
fn block<T>(r: &mut tokio::runtime::Runtime, prop: &str, what: &dyn Fn() -> String, f: impl Future<Output = T>) -> Result<T, String> {
    let x = cut(|| r.block_on(async { tokio::time::timeout(NEVER, f).await }))?;
    match x {
        Ok(v) => Ok(v),
        Err(_) => fail(&format!("{prop}: a client call never returned"), what()),
    }
}

/// Why a call failed, in terms common to both backends.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CErr {
    Dispatch(u8),
    Building,
    NoKeys,
    TooManyKeys,
    Other(String),
}
pub trait Classify {
    fn class(&self) -> CErr;
}
impl Classify for memory::Error {
    fn class(&self) -> CErr {
        match self {
            memory::Error::RunningCommand { source } | memory::Error::Dispatching { source } => CErr::Dispatch(derr_ref(source)),
            memory::Error::BuildingRequest { .. } => CErr::Building,
            e => CErr::Other(format!("{e:?}")),
        }
    }
}
impl Classify for server::Error {
    fn class(&self) -> CErr {
        match self {
            server::Error::Dispatching { reason } => CErr::Dispatch(derr_ref(reason)),
            server::Error::BuildingRequest { .. } => CErr::Building,
            e => CErr::Other(format!("{e:?}")),
        }
    }
}
fn derr_ref(e: &hop_engine::command::DispatchError) -> u8 {
    derr(*e)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Amount {
    Plain,
    Int(Option<i64>),
    Float(Option<u64>),
}

/// A call as a user of the library writes it.
#[derive(Clone, Debug)]
pub enum Call {
    AppendBytes(Vec<u8>, Vec<u8>),
    AppendList(Vec<u8>, Vec<Vec<u8>>),
    AppendStr(Vec<u8>, String, bool),
    Change(Vec<u8>, Amount, bool),
    Delete(Vec<u8>),
    Echo(Vec<u8>),
    Exists(Vec<Vec<u8>>, bool),
    Get(Vec<u8>, Option<u8>, bool),
    Is(u8, Vec<Vec<u8>>, bool),
    KeyType(Vec<u8>),
    Keys(Vec<u8>),
    Length(Vec<u8>, Option<u8>),
    Rename(Vec<u8>, Vec<u8>),
    Set(Vec<u8>, MVal, u8),
    /// Set and map members in the order the caller gave, which may repeat.
    SetSet(Vec<u8>, Vec<Vec<u8>>),
    SetMap(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>),
    Stats,
}

impl Call {
    /// The request that this call stands for.
    pub fn req(&self) -> Req {
        let v = |c: u8, t: Option<u8>, a: Vec<Vec<u8>>| Req { cmd: c, kt: t, args: a };
        match self.clone() {
            Call::AppendBytes(k, b) => v(APPEND, Some(BYTES), vec![k, b]),
            Call::AppendList(k, l) => v(APPEND, Some(LIST), [vec![k], l].concat()),
            Call::AppendStr(k, s, _) => v(APPEND, Some(STR), vec![k, s.into_bytes()]),
            Call::Change(k, a, inc) => {
                let (one, by) = if inc { (INCR, INCRBY) } else { (DECR, DECRBY) };
                match a {
                    Amount::Plain => v(one, None, vec![k]),
                    Amount::Int(n) => v(by, Some(INT), vec![k, n.unwrap_or(1).to_be_bytes().to_vec()]),
                    Amount::Float(n) => v(by, Some(FLOAT), vec![k, n.unwrap_or(1f64.to_bits()).to_be_bytes().to_vec()]),
                }
            }
            Call::Delete(k) => v(DELETE, None, vec![k]),
            Call::Echo(b) => v(ECHO, None, vec![b]),
            Call::Exists(ks, _) => v(EXISTS, None, ks),
            Call::Get(k, t, _) => v(GET, t, vec![k]),
            Call::Is(t, ks, _) => v(IS, Some(t), ks),
            Call::KeyType(k) => v(TYPE, None, vec![k]),
            Call::Keys(k) => v(KEYS, None, vec![k]),
            Call::Length(k, t) => v(LENGTH, t, vec![k]),
            Call::Rename(a, b) => v(RENAME, None, vec![a, b]),
            Call::Set(k, x, _) => v(SET, Some(x.kind()), [vec![k], x.to_args()].concat()),
            Call::SetSet(k, l) => {
                let x = MVal::Set(l.into_iter().collect());
                v(SET, Some(SETT), [vec![k], x.to_args()].concat())
            }
            Call::SetMap(k, l) => {
                // A repeated key has its last value.
                let x = MVal::Map(l.into_iter().collect());
                v(SET, Some(MAP), [vec![k], x.to_args()].concat())
            }
            Call::Stats => v(STATS, None, vec![]),
        }
    }
}

pub type Out = Result<MVal, CErr>;

fn dmap(m: hop_engine::dashmap::DashMap<Vec<u8>, Vec<u8>>) -> MVal {
    MVal::Map(m.into_iter().collect())
}

/// Make the call; `alt` picks among ways to write the same call.
pub async fn call<B>(c: &Client<B>, x: &Call) -> Out
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify,
{
    macro_rules! out {
        ($e:expr, $f:expr) => {
            $e.await.map($f).map_err(|e| e.class())
        };
    }
    let val = |v: hop::Value| mval(&v);
    match x {
        Call::AppendBytes(k, b) => out!(c.append(k).bytes(b.clone()), MVal::Bytes),
        Call::AppendList(k, l) => out!(c.append(k).list(l.clone()), MVal::List),
        Call::AppendStr(k, s, alt) => {
            if *alt {
                out!(c.append(k).string(s.clone()), |s: String| MVal::Str(s.into_bytes()))
            } else {
                out!(c.append(k.clone()).str(s.as_str()), |s: String| MVal::Str(s.into_bytes()))
            }
        }
        Call::Change(k, a, true) => match a {
            Amount::Plain => out!(c.increment(k), val),
            Amount::Int(None) => out!(c.increment(k).int(), MVal::Int),
            Amount::Int(Some(n)) => out!(c.increment(k.clone()).int().by(*n), MVal::Int),
            Amount::Float(None) => out!(c.increment(k).float(), MVal::f),
            Amount::Float(Some(n)) => out!(c.increment(k).float().by(f64::from_bits(*n)), MVal::f),
        },
        Call::Change(k, a, false) => match a {
            Amount::Plain => out!(c.decrement(k), val),
            Amount::Int(None) => out!(c.decrement(k).int(), MVal::Int),
            Amount::Int(Some(n)) => out!(c.decrement(k.clone()).int().by(*n), MVal::Int),
            Amount::Float(None) => out!(c.decrement(k).float(), MVal::f),
            Amount::Float(Some(n)) => out!(c.decrement(k).float().by(f64::from_bits(*n)), MVal::f),
        },
        Call::Delete(k) => out!(c.delete(k), MVal::Bytes),
        Call::Echo(b) => out!(c.echo(b), MVal::List),
        Call::Exists(ks, single) => {
            if *single && ks.len() == 1 {
                out!(c.exists().key(&ks[0]), MVal::Bool)
            } else {
                match c.exists().keys(ks) {
                    Ok(f) => out!(f, MVal::Bool),
                    Err(e) => Err(conf(e)),
                }
            }
        }
        Call::Get(k, t, alt) => {
            let g = c.get(k);
            match (t, alt) {
                (None, _) => out!(g, val),
                (Some(BOOL), true) => out!(g.boolean(), MVal::Bool),
                (Some(BOOL), false) => out!(g.bool(), MVal::Bool),
                (Some(BYTES), _) => out!(g.bytes(), MVal::Bytes),
                (Some(FLOAT), _) => out!(g.float(), MVal::f),
                (Some(INT), true) => out!(g.integer(), MVal::Int),
                (Some(INT), false) => out!(g.int(), MVal::Int),
                (Some(LIST), _) => out!(g.list(), MVal::List),
                (Some(MAP), _) => out!(g.map(), dmap),
                (Some(SETT), _) => out!(g.set(), |s: hop_engine::dashmap::DashSet<Vec<u8>>| MVal::Set(s.into_iter().collect())),
                (Some(_), true) => out!(g.string(), |s: String| MVal::Str(s.into_bytes())),
                (Some(_), false) => out!(g.str(), |s: String| MVal::Str(s.into_bytes())),
            }
        }
        Call::Is(t, ks, single) => {
            if *single && ks.len() == 1 {
                out!(c.is(kty(*t)).key(&ks[0]), MVal::Bool)
            } else {
                match c.is(kty(*t)).keys(ks) {
                    Ok(f) => out!(f, MVal::Bool),
                    Err(e) => Err(conf(e)),
                }
            }
        }
        Call::KeyType(k) => out!(c.key_type(k), |t| MVal::Int(kty_no(t) as i64)),
        Call::Keys(k) => out!(c.keys(k), MVal::List),
        Call::Length(k, t) => {
            let l = c.length(k);
            match t {
                None => out!(l, MVal::Int),
                Some(BYTES) => out!(l.bytes(), MVal::Int),
                Some(LIST) => out!(l.list(), MVal::Int),
                Some(MAP) => out!(l.map(), MVal::Int),
                Some(SETT) => out!(l.set(), MVal::Int),
                Some(_) => out!(l.str(), MVal::Int),
            }
        }
        Call::Rename(a, b) => out!(c.rename(a, b), MVal::Bytes),
        Call::Set(k, v, how) => {
            let s = c.set(k);
            if how % 4 == 3 {
                return out!(s.value(to_value(v)), val);
            }
            let alt = how % 2 == 1;
            match v {
                MVal::Bool(b) if alt => out!(s.boolean(*b), MVal::Bool),
                MVal::Bool(b) => out!(s.bool(*b), MVal::Bool),
                MVal::Bytes(b) => out!(s.bytes(b.clone()), MVal::Bytes),
                MVal::Float(f) => out!(s.float(f64::from_bits(*f)), MVal::f),
                MVal::Int(i) if alt => out!(s.integer(*i), MVal::Int),
                MVal::Int(i) => out!(s.int(*i), MVal::Int),
                MVal::List(l) => out!(s.list(l.clone()), MVal::List),
                MVal::Map(m) => out!(s.map(m.clone()), dmap),
                MVal::Set(l) => set_reply(s.set(l.iter().cloned().collect::<Vec<_>>()).await.map_err(|e| e.class())),
                MVal::Str(b) => {
                    let t = String::from_utf8(b.clone()).expect("text");
                    if alt {
                        out!(s.string(t), |s: String| MVal::Str(s.into_bytes()))
                    } else {
                        out!(s.str(t), |s: String| MVal::Str(s.into_bytes()))
                    }
                }
            }
        }
        Call::SetSet(k, l) => set_reply(c.set(k).set(l.clone()).await.map_err(|e| e.class())),
        Call::SetMap(k, l) => out!(c.set(k).map(l.clone()), dmap),
        Call::Stats => c
            .stats()
            .await
            .map(|s| {
                MVal::List(
                    [s.commands_successful(), s.commands_errored(), s.sessions_started(), s.sessions_ended()]
                        .iter()
                        .map(|n| n.to_be_bytes().to_vec())
                        .collect(),
                )
            })
            .map_err(|e| e.class()),
    }
}
fn set_reply(r: Result<Vec<Vec<u8>>, CErr>) -> Out {
    r.map(|v| {
        let n = v.len();
        let s: BTreeSet<_> = v.into_iter().collect();
        // A repeated member can't be told by a set.
        if s.len() != n {
            return MVal::List(vec![b"repeated members".to_vec()]);
        }
        MVal::Set(s)
    })
}
fn conf(e: hop::request::CommandConfigurationError) -> CErr {
    match e {
        hop::request::CommandConfigurationError::NoKeys => CErr::NoKeys,
        hop::request::CommandConfigurationError::TooManyKeys => CErr::TooManyKeys,
    }
}

fn members(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let pool: Vec<Vec<u8>> = (0..n.max(1)).map(|_| {
        let n = r.range(1, 12);
        r.bytes(n)
    }).collect();
    (0..n).map(|_| r.pick(&pool).clone()).collect()
}

pub fn any_call(r: &mut Rng, keys: &[Vec<u8>], db: &Db) -> Call {
    let k = r.pick(keys).clone();
    let held = db.get(&k).map(|v| v.kind());
    let some_type = |r: &mut Rng, among: &[u8]| *r.pick(among);
    match r.below(24) {
        0 | 1 => match r.below(3) {
            0 => {
                let n = gen::len(r, false);
                Call::AppendBytes(k, r.bytes(n))
            }
            1 => {
                let n = *r.pick(&[0usize, 1, 2, 5, 20, 254, 255]);
                Call::AppendList(k, (0..n).map(|_| { let n = r.range(1, 9) - (r.below(40) == 0) as usize; r.bytes(n) }).collect())
            }
            _ => {
                let n = r.range(0, 30);
                Call::AppendStr(k, String::from_utf8(gen::text(r, n)).expect("text"), r.chance(1, 2))
            }
        },
        2..=5 => {
            let a = match r.below(6) {
                0 => Amount::Plain,
                1 => Amount::Int(None),
                2 | 3 => Amount::Int(Some(gen::int(r))),
                4 => Amount::Float(None),
                _ => Amount::Float(Some(gen::float(r).to_bits())),
            };
            Call::Change(k, a, r.chance(1, 2))
        }
        6 => Call::Delete(k),
        7 => {
            let n = gen::len(r, true);
            Call::Echo(r.bytes(n))
        }
        8 | 9 => {
            let n = *r.pick(&[0usize, 1, 1, 1, 2, 3, 9, 255, 256, 300]);
            let ks = (0..n).map(|_| r.pick(keys).clone()).collect();
            if r.chance(1, 2) {
                Call::Exists(ks, r.chance(1, 2))
            } else {
                let t = held.filter(|_| r.chance(2, 3)).unwrap_or_else(|| some_type(r, &[0, 1, 2, 3, 4, 5, 6, 7]));
                Call::Is(t, ks, r.chance(1, 2))
            }
        }
        10..=13 => {
            let t = match r.below(4) {
                0 => None,
                1 => Some(some_type(r, &[0, 1, 2, 3, 4, 5, 6, 7])),
                _ => held,
            };
            Call::Get(k, t, r.chance(1, 2))
        }
        14 => Call::KeyType(k),
        15 => Call::Keys(k),
        16 => {
            let t = match r.below(3) {
                0 => None,
                1 => Some(some_type(r, &[BYTES, LIST, MAP, SETT, STR])),
                _ => held.filter(|t| [BYTES, LIST, MAP, SETT, STR].contains(t)),
            };
            Call::Length(k, t)
        }
        17 => Call::Rename(k, r.pick(keys).clone()),
        18 => Call::Stats,
        19 => {
            let n = *r.pick(&[0usize, 1, 2, 6, 40, 254, 255, 300]);
            Call::SetSet(k, members(r, n))
        }
        20 => {
            let n = *r.pick(&[0usize, 1, 2, 6, 40, 127, 128, 200]);
            let ks = members(r, n);
            Call::SetMap(k, ks.into_iter().map(|m| { let n = r.range(1, 9); (m, r.bytes(n)) }).collect())
        }
        _ => {
            let t = some_type(r, &[0, 1, 2, 3, 4, 5, 6, 7]);
            let mut v = gen::value(r, t, false);
            // Empty members of maps and sets are beyond what is specified for the builder.
            match &mut v {
                MVal::Map(m) => {
                    m.remove(&vec![]);
                    m.retain(|k, x| k.len() < 256 && !x.is_empty());
                }
                MVal::Set(s) => {
                    s.remove(&vec![]);
                }
                _ => {}
            }
            Call::Set(k, v, r.below(8) as u8)
        }
    }
}

/// The counters a client must see.
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Tally {
    ok: i64,
    err: i64,
}

/// Requests that the builder refuses (P14): empty arguments or values, and too many arguments.
fn unbuildable(x: &Call, q: &Req) -> bool {
    let value_empty = matches!(x, Call::Set(..) | Call::SetSet(..) | Call::SetMap(..)) && q.args.len() < 2;
    q.args.len() > 255 || value_empty || q.args.iter().any(Vec::is_empty)
}

/// What the call must return, with the model's state changed accordingly.
fn judge(db: &mut Db, t: &mut Tally, x: &Call, got: &Out) -> Result<(), String> {
    let q = x.req();
    let multi = matches!(x, Call::Exists(..) | Call::Is(..));
    if multi && q.args.is_empty() {
        return if *got == Err(CErr::NoKeys) { Ok(()) } else { Err(format!("expected NoKeys, got {got:?}")) };
    }
    if multi && q.args.len() > 255 {
        return if *got == Err(CErr::TooManyKeys) { Ok(()) } else { Err(format!("expected TooManyKeys, got {got:?}")) };
    }
    if unbuildable(x, &q) {
        return if *got == Err(CErr::Building) { Ok(()) } else { Err(format!("expected an error from building the request, got {got:?}")) };
    }
    let before = *t;
    let e = model::apply(db, &q);
    if let Expect::Stats = e {
        let want: Vec<Vec<u8>> = [before.ok, before.err, 0, 0].iter().map(|n| n.to_be_bytes().to_vec()).collect();
        t.ok += 1;
        return if *got == Ok(MVal::List(want)) { Ok(()) } else { Err(format!("the counters are {before:?} and no sessions, got {got:?}")) };
    }
    let rep = match got {
        Ok(v) => {
            t.ok += 1;
            Reply::Val(v.clone())
        }
        Err(CErr::Dispatch(c)) => {
            t.err += 1;
            Reply::Err(*c)
        }
        Err(e) => return Err(format!("the call failed with {e:?}")),
    };
    model::check(db, &e, &rep)
}

fn drive<B>(rt: &mut tokio::runtime::Runtime, c: &Client<B>, x: &Call, hist: &[Call]) -> Out
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify,
{
    describe(format!("{x:?}"));
    let show = || format!("{x:?} after {} calls", hist.len());
    match block(rt, "P18", &show, call(c, x)) {
        Ok(o) => o,
        Err(p) => fail("P18: a client call panicked", format!("{x:?}: {p}\n{}", show_calls(hist))),
    }
}
fn show_calls(h: &[Call]) -> String {
    h.iter().rev().take(25).map(|c| format!("{c:?}").chars().take(200).collect::<String>()).collect::<Vec<_>>().join("\n  before it: ")
}

fn p18_sequence(r: &mut Rng, rt: &mut tokio::runtime::Runtime, srv: &Server, remote: &Client<ServerBackend>, shared: &mut Tally, raw: &mut Conn, id: u64, script: &dyn Fn(&[u8]) -> Vec<Call>) {
    let nk = r.range(1, 6);
    let mut keys: Vec<Vec<u8>> = gen::keys(r, nk)
        .into_iter()
        .map(|k| [format!("s{id}/").into_bytes(), k].concat())
        .collect();
    if r.chance(1, 6) {
        keys.push(vec![]);
    }
    if r.chance(1, 6) {
        keys.push([b"__hop__:".to_vec(), format!("{id}").into_bytes()].concat());
    }
    let local: Client<MemoryBackend> = Client::memory();
    let (mut d1, mut d2) = (Db::new(), Db::new());
    let mut t1 = Tally::default();
    let mut hist: Vec<Call> = vec![];
    let script = script(&keys[0]);
    let n = if script.is_empty() { r.range(5, 60) } else { script.len() };
    for i in 0..n {
        let x = match script.get(i) {
            Some(x) => x.clone(),
            None => any_call(r, &keys, &d1),
        };
        let a = drive(rt, &local, &x, &hist);
        if let Err(e) = judge(&mut d1, &mut t1, &x, &a) {
            fail("P18: a call through the in-memory backend did something else", format!("{x:?}: {e}\n{}", show_calls(&hist)));
        }
        let b = drive(rt, remote, &x, &hist);
        if let Some(s) = srv.ended() {
            fail("P18: the server process ended", format!("{s}\n{x:?}"));
        }
        if let Err(e) = judge(&mut d2, shared, &x, &b) {
            fail("P18: a call through a server did something else", format!("{x:?}: {e}\n{}", show_calls(&hist)));
        }
        // Alike, but for the order of listed keys and the counters of the shared server.
        let same = match (&x, &a, &b) {
            (Call::Stats, Ok(_), Ok(_)) => true,
            (Call::Keys(_), Ok(MVal::List(p)), Ok(MVal::List(q))) => {
                let (mut p, mut q) = (p.clone(), q.clone());
                p.sort();
                q.sort();
                p == q
            }
            (_, Ok(MVal::Float(p)), Ok(MVal::Float(q))) => float_same(f64::from_bits(*p), f64::from_bits(*q)),
            _ => a == b,
        };
        if !same {
            fail("P18: the backends differ", format!("{x:?}: in memory {a:?}, through a server {b:?}\n{}", show_calls(&hist)));
        }
        let kind = format!("{:?}", std::mem::discriminant(&x));
        let q = x.req();
        distinct(&(kind, q.cmd, q.kt, a.is_ok(), a.as_ref().err().cloned(), d1.get(q.args.first().unwrap_or(&vec![])).map(|v| v.kind()), q.args.len().min(260)));
        count(if a.is_ok() { "calls_returning_values" } else { "calls_returning_errors" }, 2);
        eval(2);
        hist.push(x);
    }
    // What is stored afterwards, told by an independent connection.
    for k in keys.iter().filter(|k| model::key_ok(Some(k))) {
        let q = req(GET, None, &[k]);
        let mut m = d2.clone();
        match raw.ask(&q) {
            Ok(rep) => {
                match rep {
                    Reply::Err(_) => shared.err += 1,
                    _ => shared.ok += 1,
                }
                let e = model::apply(&mut m, &q);
                if let Err(e) = model::check(&mut m, &e, &rep) {
                    fail("P18: a sequence of calls left other data in the server", format!("{}: {e}\n{}", hex(k), show_calls(&hist)));
                }
            }
            Err(e) => fail("P18: the server doesn't answer", format!("{e:?}")),
        }
    }
}

fn directed_sizes(t: u64, thorough: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![];
    for k in [1024usize, 2048, 4096, 8192, 16384, 24576, 32768, 65536] {
        v.push((k - 16..k + 3).collect());
    }
    v.push(vec![131_072, 1_000_000, 2_097_152]);
    let mut v: Vec<Vec<usize>> = v.into_iter().enumerate().filter(|(i, _)| *i as u64 % 3 == t).map(|x| x.1).collect();
    match t {
        0 => v.push(vec![(1 << 24) + 5]),
        1 if thorough => v.push(vec![(1 << 26) + 77]),
        _ => {}
    }
    v
}

/// Calls whose requests and replies are about this long.
fn sized_calls(k: &[u8], sizes: &[usize]) -> Vec<Call> {
    let mut v = vec![];
    for (i, &n) in sizes.iter().enumerate() {
        let b: Vec<u8> = (0..n).map(|j| (j * 7 + i) as u8).collect();
        v.push(Call::Set(k.to_vec(), MVal::Bytes(b.clone()), 0));
        v.push(Call::Get(k.to_vec(), if i % 2 == 0 { Some(BYTES) } else { None }, true));
        v.push(Call::Echo(b.clone()));
        if n < 1 << 22 {
            v.push(Call::AppendBytes(k.to_vec(), vec![1, 2]));
            v.push(Call::Set(k.to_vec(), MVal::List(vec![b[..n / 2].to_vec(), b[n / 2..].to_vec()]), 0));
            v.push(Call::Get(k.to_vec(), Some(LIST), true));
            v.push(Call::Set(k.to_vec(), MVal::Map([(b"m".to_vec(), b.clone()), (b"n".to_vec(), b"x".to_vec())].into()), 0));
            v.push(Call::Get(k.to_vec(), Some(MAP), true));
            v.push(Call::Set(k.to_vec(), MVal::Str(vec![b'a' + (i % 26) as u8; n]), 0));
            v.push(Call::AppendStr(k.to_vec(), "é".into(), false));
        }
        v.push(Call::Length(k.to_vec(), None));
        v.push(Call::KeyType(k.to_vec()));
    }
    v
}

/// A call of a backend itself, the trait that the library offers for it.
async fn backend_call<B>(b: &B, q: &Req, v: &Option<MVal>) -> Out
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify,
{
    let k = &q.args[0][..];
    let kt = q.kt.map(kty);
    let val = |v: hop::Value| mval(&v);
    macro_rules! out {
        ($e:expr, $f:expr) => {
            $e.await.map($f).map_err(|e| e.class())
        };
    }
    let v = || to_value(v.as_ref().expect("has a value"));
    match q.cmd {
        APPEND => out!(b.append(k, v()), val),
        INCRBY => out!(b.increment_by(k, v()), val),
        DECRBY => out!(b.decrement_by(k, v()), val),
        SET => out!(b.set(k, v()), val),
        INCR => out!(b.increment(k, kt), val),
        DECR => out!(b.decrement(k, kt), val),
        LENGTH => out!(b.length(k, kt), MVal::Int),
        GET if q.kt.is_some() => out!(b.get_typed(k, kt.unwrap()), val),
        GET => out!(b.get(k), val),
        IS => out!(b.is(kt.unwrap(), &q.args), MVal::Bool),
        EXISTS => out!(b.exists(&q.args), MVal::Bool),
        DELETE => out!(b.delete(k), MVal::Bytes),
        RENAME => out!(b.rename(k, &q.args[1]), MVal::Bytes),
        KEYS => out!(b.keys(k), MVal::List),
        TYPE => out!(b.key_type(k), |t| MVal::Int(kty_no(t) as i64)),
        _ => out!(b.echo(k), MVal::List),
    }
}

/// Random calls of a backend without the client around it, which also takes types and values
/// that the client's typed calls can't express.
fn p18_backend<B>(r: &mut Rng, rt: &mut tokio::runtime::Runtime, b: &B, name: &str, id: u64)
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify,
{
    let keys: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|i| format!("b{id}.{i}").into_bytes()).collect();
    let mut db = Db::new();
    let mut hist: Vec<String> = vec![];
    for _ in 0..r.range(5, 40) {
        let k = r.pick(&keys).clone();
        let cmd = *r.pick(&[APPEND, INCRBY, DECRBY, SET, SET, INCR, DECR, LENGTH, GET, IS, EXISTS, DELETE, RENAME, KEYS, TYPE, ECHO, APPEND, INCRBY, DECRBY]);
        let mut v = None;
        let q = match cmd {
            APPEND | INCRBY | DECRBY | SET => {
                let held = db.get(&k).map(|v| v.kind());
                let t = match held {
                    Some(t) if r.chance(1, 2) => t,
                    _ => r.below(8) as u8,
                };
                let mut x = gen::value(r, t, false);
                if r.chance(1, 4) {
                    // As long as a number.
                    let n = vec![b'0' + r.below(10) as u8; 8];
                    match &mut x {
                        MVal::Bytes(b) | MVal::Str(b) => *b = n,
                        MVal::List(l) => *l = vec![n],
                        MVal::Set(l) => *l = [n].into(),
                        _ => {}
                    }
                }
                let q = req::<Vec<u8>>(cmd, Some(t), &[]);
                let q = Req { args: [vec![k.clone()], x.to_args()].concat(), ..q };
                v = Some(x);
                q
            }
            INCR | DECR | LENGTH | GET => req(cmd, if r.chance(2, 3) { Some(r.below(8) as u8) } else { None }, &[k.clone()]),
            IS => req(cmd, Some(r.below(8) as u8), &[k.clone()]),
            RENAME => req(cmd, None, &[k.clone(), r.pick(&keys).clone()]),
            _ => req(cmd, None, &[k.clone()]),
        };
        if q.args.len() > 255 || q.args.iter().any(Vec::is_empty) {
            continue;
        }
        if matches!(model::apply(&mut db.clone(), &q), Expect::Open) {
            continue;
        }
        let what = format!("{q:?} with {v:?}");
        describe(format!("{name} backend: {what}"));
        let got = match block(rt, "P18", &|| what.clone(), backend_call(b, &q, &v)) {
            Ok(o) => o,
            Err(p) => fail("P18: a call of a backend panicked", format!("{name}: {what}: {p}\n{}", hist.join("\n"))),
        };
        let bad = |e: String| -> ! { fail("P18: a call of a backend did something else", format!("{name}: {what} -> {got:?}: {e}\nafter {}", hist.join("\n  "))) };
        let unsupported = match q.cmd {
            APPEND => !matches!(q.kt, Some(BYTES | LIST | STR)),
            INCRBY | DECRBY => !matches!(q.kt, Some(INT | FLOAT)),
            _ => false,
        };
        if q.cmd == KEYS {
            // Other sequences' keys are stored next to these.
            if !matches!(got, Ok(MVal::List(_)) | Err(_)) {
                bad("expected a list".into());
            }
        } else if unsupported {
            count("values_of_unsupported_types", 1);
            if got.is_ok() {
                bad("the command doesn't take values of this type".into());
            }
        } else {
            let e = model::apply(&mut db, &q);
            let rep = match &got {
                Ok(v) => Reply::Val(v.clone()),
                Err(CErr::Dispatch(c)) => Reply::Err(*c),
                Err(_) => bad("expected a reply of the engine".into()),
            };
            if let Err(e) = model::check(&mut db, &e, &rep) {
                bad(e);
            }
        }
        // The key holds what the model says, whatever happened.
        for k in &keys {
            let now = match block(rt, "P18", &|| what.clone(), b.get(k)) {
                Ok(Ok(v)) => Some(mval(&v)),
                Ok(Err(e)) if e.class() == CErr::Dispatch(E_MISSING) => None,
                Ok(Err(e)) => bad(format!("get failed with {:?}", e.class())),
                Err(p) => bad(format!("get panicked: {p}")),
            };
            let same = match (&now, db.get(k)) {
                (Some(MVal::Float(p)), Some(MVal::Float(q))) => float_same(f64::from_bits(*p), f64::from_bits(*q)),
                (a, b) => a.as_ref() == b,
            };
            if !same {
                bad(format!("afterwards {} holds {now:?} instead of {:?}", hex(k), db.get(k)));
            }
        }
        distinct(&("backend", name, q.cmd, q.kt, got.is_ok()));
        count("calls_of_backends", 1);
        eval(1);
        hist.push(format!("{what} -> {got:?}").chars().take(200).collect());
    }
}

/// More calls on one client than 2^16.
fn worn_client<B>(rt: &mut tokio::runtime::Runtime, cl: &Client<B>, n: i64, name: &str)
where
    B: Backend + Send + Sync + 'static,
    B::Error: std::fmt::Debug,
{
    let k = format!("worn {name}").into_bytes();
    for i in 1..=n {
        let bad = block(rt, "P18", &|| format!("{name}: call {i} of one client"), async {
            let a = cl.increment(k.clone()).await.map_err(|e| format!("{e:?}"));
            if !matches!(a, Ok(hop_engine::state::Value::Integer(x)) if x == i) {
                return Some(format!("increment {i} -> {a:?}"));
            }
            None
        });
        match bad {
            Ok(None) => {}
            other => fail("P18: a client wears out", format!("{name}: {other:?}")),
        }
        if i % 1000 == 0 {
            progress();
        }
    }
    count("calls_of_one_client", n as u64);
    eval(1);
    distinct(&("worn", name));
}

pub fn p18() {
    let c = ctx();
    rule("an evaluation is one call through one backend judged by the model, with both backends' results and the stored data compared; distinct by (call, type, result or error, type held by the key, number of arguments)");
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut rt = rt();
            let srv = Server::start("p18-worn", None, None);
            let n = c.scale(66_000, 140_000) as i64;
            worn_client(&mut rt, &Client::memory(), n, "in-memory");
            match block(&mut rt, "P18", &|| "connect".into(), Client::connect(srv.addr)) {
                Ok(Ok(cl)) => worn_client(&mut rt, &cl, n, "server"),
                _ => fail("P18: connecting to a server failed", String::new()),
            }
        });
        for t in 0..3u64 {
            s.spawn(move || {
                let mut r = c.rng(1800 + t);
                let mut rt = rt();
                let mut id = t * 1_000_000;
                let mut first = true;
                while !c.over() || first {
                    first = false;
                    let srv = Server::start(&format!("p18-{t}"), None, None);
                    let remote = match block(&mut rt, "P18", &|| "connect".into(), Client::connect(srv.addr)) {
                        Ok(Ok(c)) => c,
                        other => fail("P18: connecting to a server failed", format!("{:?}", other.map(|x| x.map(|_| ()).map_err(|e| format!("{e:?}"))))),
                    };
                    let mut raw = srv.must("P18");
                    let mut tally = Tally::default();
                    if id == t * 1_000_000 {
                        // Values whose replies end at, just before and just after the ends of buffers.
                        for sizes in directed_sizes(t, c.thorough) {
                            id += 1;
                            p18_sequence(&mut r, &mut rt, &srv, &remote, &mut tally, &mut raw, id, &|k| sized_calls(k, &sizes));
                            count("sequences", 1);
                        }
                    }
                    // Another server, as the sequences below account for every command of theirs.
                    let srv2 = Server::start(&format!("p18-{t}b"), None, None);
                    let direct = match block(&mut rt, "P18", &|| "connect".into(), ServerBackend::connect(srv2.addr)) {
                        Ok(Ok(b)) => b,
                        _ => fail("P18: connecting to a server failed", String::new()),
                    };
                    for i in 0..c.scale(150, 400) {
                        if i % 3 == 0 {
                            id += 1;
                            p18_backend(&mut r, &mut rt, &MemoryBackend::new(), "in-memory", id);
                            p18_backend(&mut r, &mut rt, &direct, "server", id);
                        }
                        id += 1;
                        p18_sequence(&mut r, &mut rt, &srv, &remote, &mut tally, &mut raw, id, &|_| vec![]);
                        count("sequences", 1);
                        if c.over() {
                            break;
                        }
                    }
                }
            });
        }
    });
    sample(|| format!("{} sequences of up to 60 calls, each through both backends", get_count("sequences")));
}

// ---- a relay and a scripted server ----------------------------------------------------------

/// Relay connections to `to`, in pieces and with delays, until dropped.
struct Relay {
    addr: SocketAddr,
    stop: Arc<AtomicBool>,
}
fn shuttle(mut from: TcpStream, mut to: TcpStream, mut r: Rng, slow: bool) {
    let mut buf = vec![0u8; 70_000];
    loop {
        let n = match from.read(&mut buf) {
            Ok(0) | Err(_) => {
                to.shutdown(Shutdown::Write).ok();
                return;
            }
            Ok(n) => n,
        };
        let mut at = 0;
        while at < n {
            let m = match r.below(4) {
                0 => 1,
                1 => r.range(1, 20),
                _ => r.range(1, 9000),
            }
            .min(n - at);
            if to.write_all(&buf[at..at + m]).is_err() {
                return;
            }
            at += m;
            if slow && r.chance(1, 3) {
                std::thread::sleep(Duration::from_micros(r.range(1, 300) as u64));
            } else if r.chance(1, 3) {
                std::thread::yield_now();
            }
        }
    }
}
impl Relay {
    fn start(to: SocketAddr, mut r: Rng, slow: bool) -> Relay {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let addr = l.local_addr().expect("addr");
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                if st.load(Ordering::Relaxed) {
                    return;
                }
                let (Ok(a), Ok(b)) = (s, TcpStream::connect(to)) else { continue };
                a.set_nodelay(true).ok();
                b.set_nodelay(true).ok();
                let (a2, b2) = (a.try_clone().expect("clone"), b.try_clone().expect("clone"));
                let (r1, r2) = (Rng::new(r.next(), 1), Rng::new(r.next(), 2));
                std::thread::spawn(move || shuttle(a, b, r1, slow));
                std::thread::spawn(move || shuttle(b2, a2, r2, slow));
            }
        });
        Relay { addr, stop }
    }
}
impl Drop for Relay {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        TcpStream::connect(self.addr).ok();
    }
}

// ---- P19 ------------------------------------------------------------------------------------

fn p19_round(srv: &Server, c: &Ctx, round: u64) {
    let mut r = c.rng(190_000 + round);
    let threads = r.range(1, 6);
    let mut rt = if threads == 1 { rt() } else { rt_threads(threads) };
    let slow = r.chance(1, 3);
    let relay = if r.chance(2, 3) { Some(Relay::start(srv.addr, Rng::new(r.next(), 9), slow)) } else { None };
    let addr = relay.as_ref().map(|x| x.addr).unwrap_or(srv.addr);
    let clients = r.range(1, 3);
    let tasks = *r.pick(&[2usize, 3, 5, 8, 16, 40]);
    let calls = if slow { r.range(2, 12) } else { r.range(2, 40) };
    // Sometimes calls are given up while in flight.
    let cancels = r.chance(1, 3);
    let cancelled = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let what = format!("round {round}: {clients} clients, {tasks} tasks of {calls} calls, {threads} threads, relay {}, slow {slow}, cancelling {cancels}", relay.is_some());
    describe(what.clone());
    let w2 = what.clone();
    let body = async {
        let mut hs = vec![];
        for ci in 0..clients {
            let cl = match Client::connect(addr).await {
                Ok(c) => Arc::new(c),
                Err(e) => fail("P19: connecting failed", format!("{what}: {e:?}")),
            };
            let gave_up = Arc::new(AtomicBool::new(false));
            for t in 0..tasks {
                let cl = cl.clone();
                let mut r = Rng::new(r.next(), t as u64);
                let (cancelled, done, gave_up, what) = (cancelled.clone(), done.clone(), gave_up.clone(), what.clone());
                hs.push(tokio::spawn(async move {
                    let key = format!("p19/{round}/{ci}/{t}").into_bytes();
                    let mut db = Db::new();
                    let mut tl = Tally::default();
                    // Keys whose value is unknown because a call on them was given up.
                    let mut unknown = false;
                    for i in 0..calls {
                        let tag = format!("{round}.{ci}.{t}.{i}.").into_bytes();
                        let x = match r.below(7) {
                            0 | 1 => {
                                let n = *r.pick(&[0usize, 1, 30, 3000, 9000, 100_000]);
                                Call::Echo([tag, r.bytes(n)].concat())
                            }
                            2 => {
                                let n = *r.pick(&[0usize, 1, 30, 3000]);
                                Call::Set(key.clone(), MVal::Bytes([tag, r.bytes(n)].concat()), 0)
                            }
                            3 => Call::Get(key.clone(), None, false),
                            4 => Call::AppendBytes(key.clone(), tag),
                            5 => Call::Length(key.clone(), None),
                            _ => Call::Delete(key.clone()),
                        };
                        if cancels && r.chance(1, 12) {
                            let us = r.range(0, 400) as u64;
                            let d = tokio::time::timeout(Duration::from_micros(us), call(&cl, &x)).await;
                            match d {
                                Err(_) => {
                                    gave_up.store(true, Ordering::SeqCst);
                                    cancelled.fetch_add(1, Ordering::Relaxed);
                                    unknown = true;
                                    continue;
                                }
                                Ok(got) => {
                                    check_own(&what, &x, &got, &mut db, &mut tl, unknown, gave_up.load(Ordering::SeqCst));
                                    continue;
                                }
                            }
                        }
                        let got = match tokio::time::timeout(NEVER, call(&cl, &x)).await {
                            Ok(g) => g,
                            Err(_) => fail("P19: a call in flight with others never completed", format!("{what}\n{x:?}")),
                        };
                        check_own(&what, &x, &got, &mut db, &mut tl, unknown, gave_up.load(Ordering::SeqCst));
                        done.fetch_add(1, Ordering::Relaxed);
                        if r.chance(1, 10) {
                            tokio::task::yield_now().await;
                        }
                    }
                }));
            }
        }
        for h in hs {
            if let Err(e) = h.await {
                fail("P19: a client call panicked", format!("{what}: {e:?}"));
            }
        }
    };
    rt.block_on(async {
        if tokio::time::timeout(NEVER * 3, body).await.is_err() {
            fail("P19: calls in flight never completed", w2.clone());
        }
    });
    eval(done.load(Ordering::Relaxed));
    count("calls_completed", done.load(Ordering::Relaxed));
    count("calls_cancelled", cancelled.load(Ordering::Relaxed));
    count("rounds", 1);
    distinct(&(threads, clients, tasks, calls, slow, relay.is_some(), cancels, cancelled.load(Ordering::Relaxed).min(5)));
    sample(|| w2.clone());
    drop(rt);
}

/// Between a client and the server, but takes nothing before it's told to.
struct Dam {
    addr: SocketAddr,
    open: Arc<AtomicBool>,
    end: Arc<AtomicBool>,
    h: Option<std::thread::JoinHandle<()>>,
}
impl Dam {
    fn start(to: SocketAddr) -> Dam {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let addr = l.local_addr().expect("addr");
        let (open, end) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
        let (o, e) = (open.clone(), end.clone());
        let h = std::thread::spawn(move || {
            let Ok((a, _)) = l.accept() else { return };
            while !o.load(Ordering::SeqCst) {
                if e.load(Ordering::SeqCst) {
                    return;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            let Ok(b) = TcpStream::connect(to) else { return };
            a.set_nodelay(true).ok();
            b.set_nodelay(true).ok();
            let (mut a2, mut b2) = (a.try_clone().expect("clone"), b.try_clone().expect("clone"));
            let (mut a, mut b) = (a, b);
            let t = std::thread::spawn(move || {
                std::io::copy(&mut b2, &mut a2).ok();
                a2.shutdown(Shutdown::Write).ok();
            });
            std::io::copy(&mut a, &mut b).ok();
            b.shutdown(Shutdown::Both).ok();
            t.join().ok();
        });
        Dam { addr, open, end, h: Some(h) }
    }
}
impl Drop for Dam {
    fn drop(&mut self) {
        self.end.store(true, Ordering::SeqCst);
        TcpStream::connect(self.addr).ok();
        if let Some(h) = self.h.take() {
            h.join().ok();
        }
    }
}

/// A call that is given up while a part of its request is written, with others waiting or following.
fn p19_partial(srv: &Server, r: &mut Rng, round: u64) {
    let dam = Dam::start(srv.addr);
    let threads = r.range(1, 4);
    let mut rt = if threads == 1 { rt() } else { rt_threads(threads) };
    let size = *r.pick(&[200_000usize, 6 << 20, 9 << 20, 16 << 20]);
    let (waiting, following) = (r.below(4), r.range(1, 4));
    let (ms, early) = (r.range(5, 60) as u64, r.chance(1, 2));
    let what = format!("given up {round}: a call of {size} bytes is given up after {ms} ms, {waiting} calls wait, {following} follow, before the peer reads: {early}");
    describe(what.clone());
    let open = dam.open.clone();
    let addr = dam.addr;
    let (w, big) = (what.clone(), r.bytes(size));
    let body = async move {
        let cl = match Client::connect(addr).await {
            Ok(c) => Arc::new(c),
            Err(e) => fail("P19: connecting failed", format!("{w}: {e:?}")),
        };
        let (c2, w2) = (cl.clone(), w.clone());
        let key = format!("p19/p/{round}").into_bytes();
        let first = tokio::spawn(async move {
            let x = if round % 2 == 0 { Call::Echo(big) } else { Call::Set(key, MVal::Bytes(big), 0) };
            match tokio::time::timeout(Duration::from_millis(ms), call(&c2, &x)).await {
                Err(_) => {}
                Ok(got) => fail("P19: a call ended without the server having got it", format!("{w2}: {:?}", got.map(|_| "a reply"))),
            }
        });
        tokio::time::delay_for(Duration::from_millis(ms / 4)).await;
        let spawn = |name: String| {
            let (cl, w) = (cl.clone(), w.clone());
            tokio::spawn(async move {
                let x = Call::Echo(name.into_bytes());
                match tokio::time::timeout(NEVER, call(&cl, &x)).await {
                    Err(_) => fail("P19: a call in flight with others never completed", format!("{w}\n{x:?}")),
                    Ok(got) => check_own(&w, &x, &got, &mut Db::new(), &mut Tally::default(), false, true),
                }
                got_one();
            })
        };
        let mut hs: Vec<_> = (0..waiting).map(|i| spawn(format!("waiting {round}.{i}"))).collect();
        if first.await.is_err() {
            fail("P19: a client call panicked", w.clone());
        }
        if !early {
            open.store(true, Ordering::SeqCst);
        }
        hs.extend((0..following).map(|i| spawn(format!("following {round}.{i}"))));
        if early {
            tokio::time::delay_for(Duration::from_millis(3)).await;
            open.store(true, Ordering::SeqCst);
        }
        for h in hs {
            if h.await.is_err() {
                fail("P19: a client call panicked", w.clone());
            }
        }
    };
    rt.block_on(async {
        if tokio::time::timeout(NEVER * 3, body).await.is_err() {
            fail("P19: calls in flight never completed", what.clone());
        }
    });
    eval(1);
    count("calls_given_up_in_the_middle_of_a_request", 1);
    distinct(&("partial", size, waiting, following, early, threads));
    drop(rt);
}
fn got_one() {
    count("calls_beside_a_given_up_request", 1);
}

fn check_own(what: &str, x: &Call, got: &Out, db: &mut Db, t: &mut Tally, unknown: bool, given_up: bool) {
    // After a call was given up, the others may fail, but not get its reply.
    if let Err(CErr::Other(_)) = got {
        if given_up {
            return;
        }
        fail("P19: a call in flight with others failed", format!("{what}\n{x:?} -> {got:?}"));
    }
    if unknown && !matches!(x, Call::Echo(_)) {
        return;
    }
    if let Err(e) = judge(db, t, x, got) {
        fail("P19: a call got another call's reply", format!("{what}\n{x:?}: {e}"));
    }
}

pub fn p19() {
    let c = ctx();
    rule("an evaluation is one completed call with a unique value, in flight with others on one connection; distinct by (threads, clients, tasks, calls, relay, delays, cancellations)");
    let srv = Server::start("p19", None, None);
    let mut r = c.rng(19_000);
    let mut round = 0;
    while !c.over() || round < 10 {
        round += 1;
        p19_round(&srv, c, round);
        if round % 12 == 2 {
            p19_partial(&srv, &mut r, round);
        }
        if let Some(s) = srv.ended() {
            fail("P19: the server process ended", s);
        }
    }
    if get_count("calls_cancelled") == 0 && round > 50 {
        inconclusive("no call was ever cancelled in flight");
    }
}

// ---- P20 ------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum End {
    /// Close after this reply, in order.
    Close,
    /// Close with a reset.
    Reset,
}

/// What the scripted server does on a connection: proper replies first, then one fault.
#[derive(Clone, Debug)]
struct Script {
    proper: usize,
    /// Close as soon as the connection is accepted.
    at_once: bool,
    /// Read only so many bytes of the request before closing; None: the whole request.
    read: Option<usize>,
    reply: Vec<u8>,
    piece: usize,
    end: End,
}

fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

/// The value a proper server gives: the echoed argument.
fn proper_reply(q: &Req) -> Vec<u8> {
    encode_reply(&Reply::Val(match q.cmd {
        ECHO => MVal::List(q.args.clone()),
        _ => MVal::Bytes(q.args.first().cloned().unwrap_or_default()),
    }))
}

/// Serve one connection; returns how many proper replies were sent and when it was closed.
fn serve(mut s: TcpStream, sc: &Script) -> usize {
    s.set_nodelay(true).ok();
    s.set_read_timeout(Some(Duration::from_secs(10))).ok();
    let mut sent = 0;
    let mut buf: Vec<u8> = vec![];
    let mut b = [0u8; 16384];
    if !sc.at_once {
        'all: loop {
            // The next request, or the part of it that is read.
            let q = loop {
                if sent == sc.proper {
                    if let Some(n) = sc.read {
                        if buf.len() >= n {
                            break None;
                        }
                    }
                }
                if let Ok(Some((q, n))) = decode_req(&buf) {
                    buf.drain(..n);
                    break Some(q);
                }
                match s.read(&mut b) {
                    Ok(0) | Err(_) => break 'all,
                    Ok(n) => buf.extend_from_slice(&b[..n]),
                }
            };
            if sent < sc.proper {
                let q = q.expect("request");
                if s.write_all(&proper_reply(&q)).is_err() {
                    break;
                }
                sent += 1;
                continue;
            }
            if q.is_none() {
                break;
            }
            let mut at = 0;
            while at < sc.reply.len() {
                let n = sc.piece.min(sc.reply.len() - at);
                if s.write_all(&sc.reply[at..at + n]).is_err() {
                    break;
                }
                at += n;
                if sc.piece < 50 && sc.reply.len() < 500 {
                    std::thread::sleep(Duration::from_micros(30));
                }
            }
            break;
        }
    }
    if let End::Reset = sc.end {
        // Let what was written arrive first, or the reset discards it.
        if !sc.reply.is_empty() {
            std::thread::sleep(Duration::from_millis(3));
        }
        linger0(&s);
    }
    sent
}

/// The replies a call of this kind may accept.
fn fits(x: &Call, v: &MVal) -> Option<bool> {
    Some(match (x, v) {
        (Call::AppendBytes(..), v) => v.kind() == BYTES,
        (Call::AppendList(..), v) => v.kind() == LIST,
        (Call::AppendStr(..), v) => v.kind() == STR,
        (Call::Change(_, Amount::Plain, _), v) => v.kind() == INT || v.kind() == FLOAT,
        (Call::Change(_, Amount::Int(_), _), v) => v.kind() == INT,
        (Call::Change(_, Amount::Float(_), _), v) => v.kind() == FLOAT,
        (Call::Delete(_) | Call::Rename(..), v) => v.kind() == BYTES,
        (Call::Echo(_) | Call::Keys(_), v) => v.kind() == LIST,
        (Call::Exists(..) | Call::Is(..), v) => v.kind() == BOOL,
        (Call::Get(_, None, _), _) => true,
        (Call::Get(_, Some(t), _), v) => v.kind() == *t,
        (Call::KeyType(_), MVal::Int(i)) => (0..8).contains(i),
        (Call::KeyType(_), _) => false,
        (Call::Length(..), v) => v.kind() == INT,
        (Call::Set(_, x, _), v) => v.kind() == x.kind(),
        (Call::SetSet(..), v) => v.kind() == SETT,
        (Call::SetMap(..), v) => v.kind() == MAP,
        (Call::Stats, v) => v.kind() == MAP,
    })
}

/// What a broken server answers.
fn faulty_reply(r: &mut Rng, x: &Call) -> (Vec<u8>, &'static str) {
    let some = |r: &mut Rng| {
        let t = r.below(8) as u8;
        let mut v = gen::value(r, t, false);
        if let MVal::Map(m) = &mut v {
            m.retain(|k, _| k.len() < 256);
        }
        v
    };
    let fitting = |r: &mut Rng| loop {
        let mut v = if matches!(x, Call::KeyType(_)) && r.chance(3, 4) { MVal::Int(r.below(8) as i64) } else { some(r) };
        if let (Call::Stats, MVal::Map(m)) = (x, &mut v) {
            for k in ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"] {
                if r.chance(7, 8) {
                    m.insert(k.as_bytes().to_vec(), (r.next() as i64 >> r.below(60)).to_be_bytes().to_vec());
                }
            }
        }
        if fits(x, &v) == Some(true) {
            return v;
        }
    };
    match r.below(13) {
        0 => (vec![], "nothing"),
        1 | 2 => {
            // Cut anywhere.
            let b = encode_reply(&Reply::Val(fitting(r)));
            let n = r.below(b.len());
            (b[..n].to_vec(), "truncated")
        }
        3 => {
            let mut v = some(r);
            while fits(x, &v) == Some(true) && !matches!(x, Call::Get(_, None, _)) {
                v = some(r);
            }
            (encode_reply(&Reply::Val(v)), "mistyped")
        }
        4 => {
            // A huge claim, with a bit of data.
            let mut b = r.pick(&[u32::MAX, 1 << 31, 900_000_000]).to_be_bytes().to_vec();
            b.push(r.below(10) as u8);
            let n = r.below(3000);
            b.extend(r.bytes(n));
            (b, "giant length")
        }
        5 => {
            // An unknown type.
            let n = r.below(20);
            let mut p = vec![*r.pick(&[10u8, 11, 99, 128, 255])];
            p.extend(r.bytes(n));
            let mut b = (p.len() as u32).to_be_bytes().to_vec();
            b.extend(p);
            (b, "unknown type")
        }
        6 => {
            // Unknown error numbers.
            let p = [*r.pick(&[R_PARSE, R_DISPATCH]), *r.pick(&[8u8, 9, 60, 200, 255])];
            let mut b = 2u32.to_be_bytes().to_vec();
            b.extend(p);
            (b, "unknown error")
        }
        7 => {
            // Payloads of another length than their type's.
            let t = *r.pick(&[R_BOOL, R_FLOAT, R_INT, R_PARSE, R_DISPATCH]);
            let n = match t {
                R_BOOL | R_PARSE | R_DISPATCH => 0,
                _ => r.below(8),
            };
            let mut p = vec![t];
            p.extend(r.bytes(n));
            let mut b = (p.len() as u32).to_be_bytes().to_vec();
            b.extend(p);
            (b, "short payload")
        }
        8 => {
            // Text that isn't text.
            let s = gen::bad_text(r);
            let mut p = vec![R_STR];
            p.extend((s.len() as u32).to_be_bytes());
            p.extend(s);
            let mut b = (p.len() as u32).to_be_bytes().to_vec();
            b.extend(p);
            (b, "invalid text")
        }
        9 => (encode_reply(&Reply::Val(MVal::Int(*r.pick(&[8i64, 9, 255, 256, 257, 263, -1, -255, -256, i64::MIN, i64::MAX, 1 << 32, (1 << 32) + 3])))), "integer out of range"),
        10 => (encode_reply(&Reply::Err(r.below(8) as u8)), "error"),
        11 => (encode_reply(&Reply::Parse(r.below(6) as u8)), "parse error"),
        _ => (encode_reply(&Reply::Val(fitting(r))), "proper"),
    }
}

fn fault_call(r: &mut Rng) -> Call {
    let keys = vec![b"k".to_vec(), b"key two".to_vec(), vec![7; 300]];
    loop {
        let x = any_call(r, &keys, &Db::new());
        let q = x.req();
        if !unbuildable(&x, &q) && (!q.args.is_empty() || q.cmd == STATS) {
            return x;
        }
    }
}

fn out_matches(x: &Call, v: &MVal, got: &Out) -> bool {
    let Ok(g) = got else { return false };
    match (x, v, g) {
        (Call::Stats, MVal::Map(m), MVal::List(l)) => {
            let n = |k: &str| m.get(k.as_bytes()).and_then(|b| b.as_slice().try_into().ok()).map(i64::from_be_bytes).unwrap_or(0);
            let want: Vec<Vec<u8>> = ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"]
                .iter()
                .map(|k| n(k).to_be_bytes().to_vec())
                .collect();
            // Only what the server sent; what it didn't send, or sent in another size, is left open.
            let sent = |k: &str| m.get(k.as_bytes()).map_or(false, |b| b.len() == 8);
            l.len() == 4
                && ["commands_successful", "commands_errored", "sessions_started", "sessions_ended"]
                    .iter()
                    .enumerate()
                    .all(|(i, k)| !sent(k) || l[i] == want[i])
        }
        (_, MVal::Float(a), MVal::Float(b)) => a == b || (f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan()),
        (_, a, b) => a == b,
    }
}

/// The memory one failing call may take at most: what the server really sent, several times over.
const CALL_MEMORY: i64 = 64 << 20;

fn p20_single(r: &mut Rng, rt: &mut tokio::runtime::Runtime, x: &Call, sc: &Script, name: &str, lis: &TcpListener) {
    let addr = lis.local_addr().expect("addr");
    let sc2 = sc.clone();
    let l2 = lis.try_clone().expect("clone");
    let h = std::thread::spawn(move || match l2.accept() {
        Ok((s, _)) => serve(s, &sc2),
        Err(_) => 0,
    });
    let what = || format!("{x:?}\nthe server: {name}, {:?}, read {:?}, reply {} then {:?}", sc.at_once, sc.read, hex(&sc.reply), sc.end);
    describe(format!("{name} {x:?}"));
    let c = match block(rt, "P20", &what, Client::connect(addr)) {
        Ok(Ok(c)) => c,
        Ok(Err(_)) => {
            // Connecting may fail only when the server closes at once.
            if !sc.at_once {
                fail("P20: connecting to a listening server failed", what());
            }
            h.join().ok();
            return;
        }
        Err(p) => fail("P20: connecting panicked", format!("{p}\n{}", what())),
    };
    alloc::reset_peak();
    let base = alloc::live();
    let got = match block(rt, "P20", &what, call(&c, x)) {
        Ok(g) => g,
        Err(p) => fail("P20: a call panicked", format!("{p}\n{}", what())),
    };
    let peak = alloc::peak() - base;
    maxi("largest_memory_of_a_call", peak.max(0) as u64);
    if peak > CALL_MEMORY {
        fail("P20: a failing call took unbounded memory", format!("{peak} bytes\n{}", what()));
    }
    let reply = if sc.at_once || sc.read.is_some() { &[][..] } else { &sc.reply[..] };
    let told = decode_reply(reply);
    match (&told, &got) {
        (Ok(Some((Reply::Val(v), _))), Ok(_)) if fits(x, v) == Some(true) => {
            if !out_matches(x, v, &got) {
                fail("P20: a call reported a value that the server did not send", format!("sent {v:?}, got {got:?}\n{}", what()));
            }
        }
        (_, Ok(v)) => fail("P20: a call reported success that the server did not send", format!("{v:?}\n{}", what())),
        // A whole proper reply before the close is a reply (unless a reset discarded it).
        (Ok(Some((Reply::Val(v), n))), Err(e)) if fits(x, v) == Some(true) && *n == reply.len() && matches!(sc.end, End::Close) => {
            fail("P20: a call failed although it was answered", format!("{e:?}\n{}", what()))
        }
        (Ok(Some((Reply::Err(c), _))), Err(e)) if matches!(sc.end, End::Close) => {
            if *e != CErr::Dispatch(*c) && *c < 8 {
                fail("P20: a call reported another error than the server's", format!("{e:?}\n{}", what()));
            }
        }
        (_, Err(_)) => {}
    }
    // The connection is gone: every later call fails, too, and soon.
    h.join().ok();
    for _ in 0..r.range(1, 3) {
        let y = fault_call(r);
        match block(rt, "P20", &what, call(&c, &y)) {
            Ok(Ok(v)) => fail("P20: a call on a closed connection reported success", format!("{y:?} -> {v:?}\n{}", what())),
            Ok(Err(_)) => {}
            Err(p) => fail("P20: a call on a closed connection panicked", format!("{p} {y:?}\n{}", what())),
        }
    }
    eval(1);
    count(if got.is_ok() { "answered" } else { "errors" }, 1);
    distinct(&(name, x.req().cmd, x.req().kt, got.is_ok(), format!("{:?}", sc.end), sc.at_once, sc.read.is_some(), sc.reply.len().min(12)));
}

/// Several calls in flight on one client; the server answers some of them and then fails.
fn p20_many(r: &mut Rng, name: &str, lis: &TcpListener, sc: Script) {
    let addr = lis.local_addr().expect("addr");
    let l2 = lis.try_clone().expect("clone");
    let sc2 = sc.clone();
    let h = std::thread::spawn(move || match l2.accept() {
        Ok((s, _)) => serve(s, &sc2),
        Err(_) => 0,
    });
    // Another client, on a connection that works.
    let other = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let oaddr = other.local_addr().expect("addr");
    let healthy = Script { proper: usize::MAX, at_once: false, read: None, reply: vec![], piece: 1, end: End::Close };
    let oh = std::thread::spawn(move || if let Ok((s, _)) = other.accept() { serve(s, &healthy); });
    let n = r.range(2, 12);
    let threads = r.range(1, 4);
    let mut rt = if threads == 1 { rt() } else { rt_threads(threads) };
    let what = format!("{n} calls in flight, {} answered, then {name}: reply {} {:?} read {:?}", sc.proper, hex(&sc.reply), sc.end, sc.read);
    describe(what.clone());
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let w = what.clone();
    let res = rt.block_on(async {
        let f = async {
            let c = match Client::connect(addr).await {
                Ok(c) => Arc::new(c),
                Err(e) => fail("P20: connecting to a listening server failed", format!("{e:?} {what}")),
            };
            let o = Client::connect(oaddr).await.ok();
            let mut hs = vec![];
            for (i, s) in seeds.iter().enumerate() {
                let c = c.clone();
                let tag = format!("call {i} {s}").into_bytes();
                hs.push(tokio::spawn(async move {
                    let x = Call::Echo(tag.clone());
                    let got = call(&c, &x).await;
                    (tag, got)
                }));
            }
            let mut ok = 0;
            for h in hs {
                match h.await {
                    Ok((tag, Ok(v))) => {
                        if v != MVal::List(vec![tag.clone()]) {
                            fail("P20: a call reported a value that the server did not send", format!("{} -> {v:?}\n{what}", hex(&tag)));
                        }
                        ok += 1;
                    }
                    Ok((_, Err(_))) => {}
                    Err(e) => fail("P20: a call panicked", format!("{e:?}\n{what}")),
                }
            }
            if let Some(o) = o {
                match call(&o, &Call::Echo(b"other".to_vec())).await {
                    Ok(v) if v == MVal::List(vec![b"other".to_vec()]) => {}
                    got => fail("P20: another client was affected", format!("{got:?}\n{what}")),
                }
            }
            ok
        };
        tokio::time::timeout(NEVER, f).await
    });
    let ok = match res {
        Ok(x) => x,
        Err(_) => fail("P20: calls in flight never returned after the server closed", w),
    };
    drop(rt);
    let sent = h.join().unwrap_or(0);
    oh.join().ok();
    if ok > sent {
        fail("P20: more calls reported success than the server answered", format!("{ok} of {sent}\n{w}"));
    }
    if ok < sent.min(n) && matches!(sc.end, End::Close) {
        fail("P20: a call failed although it was answered", format!("{ok} of {sent}\n{w}"));
    }
    eval(n as u64);
    count("rounds_with_calls_in_flight", 1);
    distinct(&("many", n, sc.proper, name, threads, format!("{:?}", sc.end)));
}

/// A reply that can't be decoded, with something that looks like a reply inside, from a server
/// that then goes on properly: later calls fail or get their own replies.
fn p20_after(r: &mut Rng, rt: &mut tokio::runtime::Runtime, lis: &TcpListener) {
    let addr = lis.local_addr().expect("addr");
    let x = fault_call(r);
    let fake = format!("fake {}", r.below(1000)).into_bytes();
    let later: Vec<(Call, MVal)> = (0..r.range(1, 4))
        .map(|i| {
            let tag = format!("call {i} {}", r.below(1000)).into_bytes();
            match r.below(3) {
                0 => (Call::Delete(tag.clone()), MVal::Bytes(tag)),
                1 => (Call::Rename(tag.clone(), b"x".to_vec()), MVal::Bytes(tag)),
                _ => (Call::Echo(tag.clone()), MVal::List(vec![tag])),
            }
        })
        .collect();
    // The remains of the broken reply, if they are taken for one, fit the next call.
    let mut inner = vec![];
    for (_, v) in &later {
        inner.extend(encode_reply(&Reply::Val(if v.kind() == LIST { MVal::List(vec![fake.clone()]) } else { MVal::Bytes(fake.clone()) })));
        if r.chance(1, 2) {
            break;
        }
    }
    let (head, name): (Vec<u8>, &str) = match r.below(5) {
        0 => (vec![*r.pick(&[10u8, 11, 99, 128, 255])], "unknown type"),
        1 => (vec![R_DISPATCH, *r.pick(&[60u8, 200, 255])], "unknown error"),
        2 => (vec![R_PARSE, *r.pick(&[60u8, 200, 255])], "unknown parse error"),
        3 => {
            let t = gen::bad_text(r);
            ([vec![R_STR], (t.len() as u32).to_be_bytes().to_vec(), t].concat(), "invalid text")
        }
        _ => (vec![*r.pick(&[20u8, 100])], "type out of range"),
    };
    let n = head.len() + if r.chance(2, 3) { inner.len() } else { 0 };
    let mut reply = (n as u32).to_be_bytes().to_vec();
    reply.extend(head);
    reply.extend(inner);
    let l2 = lis.try_clone().expect("clone");
    let (sent, at_once) = (reply.clone(), r.chance(1, 2));
    let h = std::thread::spawn(move || {
        let Ok((mut s, _)) = l2.accept() else { return };
        s.set_nodelay(true).ok();
        s.set_read_timeout(Some(Duration::from_secs(10))).ok();
        let mut buf: Vec<u8> = vec![];
        let mut b = [0u8; 16384];
        let mut first = true;
        loop {
            while let Ok(Some((q, n))) = decode_req(&buf) {
                buf.drain(..n);
                let out = if first { sent.clone() } else { proper_reply(&q) };
                let pieces = if first && !at_once { 3 } else { out.len().max(1) };
                first = false;
                for p in out.chunks(pieces) {
                    if s.write_all(p).is_err() {
                        return;
                    }
                }
            }
            match s.read(&mut b) {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend_from_slice(&b[..n]),
            }
        }
    });
    let what = || format!("{x:?} answered with {name}: {}", hex(&reply));
    describe(what());
    let c = match block(rt, "P20", &what, Client::connect(addr)) {
        Ok(Ok(c)) => c,
        _ => fail("P20: connecting to a listening server failed", what()),
    };
    match block(rt, "P20", &what, call(&c, &x)) {
        Ok(Err(_)) => {}
        Ok(Ok(v)) => fail("P20: a call reported success that the server did not send", format!("{v:?}\n{}", what())),
        Err(p) => fail("P20: a call panicked", format!("{p}\n{}", what())),
    }
    let mut served = 0;
    for (y, v) in &later {
        let what = || format!("{y:?} after {}", what());
        match block(rt, "P20", &what, call(&c, y)) {
            Ok(Err(_)) => {}
            Ok(Ok(g)) if g == *v => served += 1,
            Ok(Ok(g)) => fail("P20: a call took the remains of a broken reply for its own", format!("{g:?}\n{}", what())),
            Err(p) => fail("P20: a call after a broken reply panicked", format!("{p}\n{}", what())),
        }
        eval(1);
    }
    drop(c);
    h.join().ok();
    count("connections_used_after_a_broken_reply", 1);
    distinct(&("after", name, x.req().cmd, later.len(), served));
}

pub fn p20() {
    let c = ctx();
    rule("an evaluation is one call against a scripted server that closes, resets, truncates at any byte or answers with malformed or mistyped replies; distinct by (fault, command, type, outcome, how the connection ended)");
    assume("a call that takes 30 s after the server closed the connection never returns");
    alloc::counting(true);
    let mut rt = rt();
    let mut r = c.rng(20_000);
    let lis = TcpListener::bind("127.0.0.1:0").expect("loopback");
    // No server at all.
    for _ in 0..3 {
        let dead = {
            let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
            l.local_addr().expect("addr")
        };
        match block(&mut rt, "P20", &|| "connect".into(), Client::connect(dead)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => fail("P20: connecting without a server succeeded", dead.to_string()),
            Err(p) => fail("P20: connecting without a server panicked", p),
        }
        eval(1);
    }
    // Every byte at which a reply of each kind can end.
    for t in 0..8u8 {
        let v = loop {
            let v = gen::value(&mut r, t, false);
            if encode_reply(&Reply::Val(v.clone())).len() < 60 {
                break v;
            }
        };
        let b = encode_reply(&Reply::Val(v.clone()));
        for n in 0..b.len() {
            if c.over_frac(0.4) && n % 4 != 0 {
                continue;
            }
            let x = Call::Get(b"k".to_vec(), if n % 2 == 0 { Some(t) } else { None }, false);
            let sc = Script { proper: 0, at_once: false, read: None, reply: b[..n].to_vec(), piece: 1000, end: if n % 5 == 4 { End::Reset } else { End::Close } };
            p20_single(&mut r, &mut rt, &x, &sc, "cut", &lis);
        }
    }
    // Every kind of call answered with a value of every type.
    let mut kinds = std::collections::BTreeMap::new();
    for _ in 0..3000 {
        let x = fault_call(&mut r);
        let q = x.req();
        let form = match &x {
            Call::AppendStr(_, _, b) | Call::Change(_, _, b) | Call::Exists(_, b) | Call::Is(_, _, b) | Call::Get(_, _, b) => *b as u8,
            Call::Set(_, _, b) => *b,
            Call::SetSet(..) | Call::SetMap(..) => 9,
            _ => 0,
        };
        if q.encode().len() < 5000 {
            kinds.insert((q.cmd, q.kt, form), x);
        }
    }
    let mut pairs: Vec<(&Call, u8)> = kinds.values().flat_map(|x| (0..8u8).map(move |t| (x, t))).collect();
    r.shuffle(&mut pairs);
    for (x, t) in pairs {
        let mut v = gen::value(&mut r, t, false);
        if let MVal::Map(m) = &mut v {
            m.retain(|k, _| k.len() < 256);
        }
        let sc = Script { proper: 0, at_once: false, read: None, reply: encode_reply(&Reply::Val(v)), piece: 100_000, end: End::Close };
        p20_single(&mut r, &mut rt, x, &sc, "any type", &lis);
        count("calls_by_reply_types", 1);
    }
    let mut first = true;
    while !c.over() || first {
        first = false;
        let x = fault_call(&mut r);
        let (reply, name) = faulty_reply(&mut r, &x);
        let big = x.req().encode().len();
        let sc = Script {
            proper: 0,
            at_once: r.chance(1, 15),
            read: if r.chance(1, 10) { Some(r.range(0, big.saturating_sub(1))) } else { None },
            reply,
            piece: *r.pick(&[1usize, 3, 17, 100_000]),
            end: if r.chance(1, 5) { End::Reset } else { End::Close },
        };
        p20_single(&mut r, &mut rt, &x, &sc, name, &lis);
        if r.chance(1, 4) {
            let x = Call::Echo(vec![]);
            let (mut reply, mut name) = faulty_reply(&mut r, &x);
            while name == "proper" || name == "error" || name == "parse error" {
                (reply, name) = faulty_reply(&mut r, &x);
            }
            let sc = Script {
                proper: r.below(6),
                at_once: false,
                read: if r.chance(1, 5) { Some(r.below(8)) } else { None },
                reply,
                piece: *r.pick(&[1usize, 100_000]),
                end: if r.chance(1, 4) { End::Reset } else { End::Close },
            };
            p20_many(&mut r, name, &lis, sc);
            p20_after(&mut r, &mut rt, &lis);
        }
    }
    sample(|| format!("{} calls failed with an error, {} were answered properly", get_count("errors"), get_count("answered")));
}
