//! Driving the engine in-process through its public entry point.
use crate::{common::*, model::Db, wire::*};
use hop_engine::{
    command::{
        request::{Context, Request, RequestBuilder},
        CommandId, DispatchError,
    },
    hop::Builder,
    state::{KeyType, Value},
    Hop,
};
use std::convert::TryFrom;

pub fn cid(c: u8) -> CommandId {
    CommandId::try_from(c).expect("known command")
}
pub fn kty(t: u8) -> KeyType {
    KeyType::try_from(t).expect("known type")
}
pub fn kty_no(t: KeyType) -> u8 {
    match t {
        KeyType::Bytes => BYTES,
        KeyType::Boolean => BOOL,
        KeyType::Float => FLOAT,
        KeyType::Integer => INT,
        KeyType::String => STR,
        KeyType::List => LIST,
        KeyType::Map => MAP,
        KeyType::Set => SETT,
    }
}
pub fn derr(e: DispatchError) -> u8 {
    match e {
        DispatchError::ArgumentRetrieval => E_ARG,
        DispatchError::KeyUnspecified => E_NOKEY,
        DispatchError::KeyTypeDifferent => E_TDIFF,
        DispatchError::KeyTypeUnexpected => E_TUNEXP,
        DispatchError::PreconditionFailed => E_PRECOND,
        DispatchError::KeyNonexistent => E_MISSING,
        DispatchError::KeyTypeRequired => E_TREQ,
        DispatchError::KeyTypeInvalid => E_TINV,
    }
}
pub fn mval(v: &Value) -> MVal {
    match v {
        Value::Boolean(b) => MVal::Bool(*b),
        Value::Bytes(b) => MVal::Bytes(b.clone()),
        Value::Float(f) => MVal::f(*f),
        Value::Integer(i) => MVal::Int(*i),
        Value::List(l) => MVal::List(l.clone()),
        Value::Map(m) => MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect()),
        Value::Set(s) => MVal::Set(s.iter().map(|r| r.key().clone()).collect()),
        Value::String(s) => MVal::Str(s.clone().into_bytes()),
    }
}
pub fn to_value(v: &MVal) -> Value {
    match v {
        MVal::Bool(b) => Value::Boolean(*b),
        MVal::Bytes(b) => Value::Bytes(b.clone()),
        MVal::Float(f) => Value::Float(f64::from_bits(*f)),
        MVal::Int(i) => Value::Integer(*i),
        MVal::List(l) => Value::List(l.clone()),
        MVal::Map(m) => Value::Map(m.clone().into_iter().collect()),
        MVal::Set(s) => Value::Set(s.clone().into_iter().collect()),
        MVal::Str(s) => Value::String(String::from_utf8(s.clone()).expect("text")),
    }
}

/// A fresh engine, made in one of the ways there are, or a clone of one.
pub fn hop() -> Hop {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    match N.fetch_add(1, Ordering::Relaxed) % 5 {
        0 => Hop::new(),
        1 => Builder::new().build(),
        2 => Hop::default(),
        3 => {
            let mut b = Builder::default();
            b.pubsub_enabled(true).sessions_active_max(usize::MAX);
            b.build()
        }
        _ => {
            let h = Hop::new();
            #[allow(clippy::redundant_clone)]
            h.clone()
        }
    }
}

pub fn dump(h: &Hop) -> Db {
    let mut d = Db::new();
    h.state().verif_for_each(|k, v| {
        d.insert(k.to_vec(), mval(v));
    });
    d
}

/// The request through the builder, if it can be built.
pub fn built(r: &Req) -> Option<Request<'static>> {
    if r.cmd == STATS && !r.args.is_empty() {
        return None;
    }
    let mut b = RequestBuilder::new_with_key_type(cid(r.cmd), r.kt.map(kty));
    for a in &r.args {
        b.bytes(a.as_slice()).ok()?;
    }
    Some(b.into_request())
}

/// Call `f` with the request as decoded from its bytes.
pub fn with_decoded<R>(r: &Req, f: impl FnOnce(&Request) -> R) -> Option<R> {
    let bytes = r.encode();
    let mut c = Context::new();
    match c.feed(&bytes) {
        Ok(Some(q)) => Some(f(&q)),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Builder,
    Wire,
}

pub struct Raw {
    pub res: Result<(), u8>,
    pub buf: Vec<u8>,
    pub via: Via,
}

/// Dispatch with a reply buffer that already holds `prefix`. Err: the engine panicked.
pub fn dispatch(h: &Hop, r: &Req, prefix: &[u8], via: Via) -> Result<Raw, String> {
    let mut buf = prefix.to_vec();
    if via == Via::Builder {
        if let Some(q) = built(r) {
            let res = cut(|| h.dispatch(&q, &mut buf).map_err(derr))?;
            return Ok(Raw { res, buf, via: Via::Builder });
        }
    }
    match cut(|| with_decoded(r, |q| h.dispatch(q, &mut buf).map_err(derr)))? {
        Some(res) => Ok(Raw { res, buf, via: Via::Wire }),
        None => Err("a valid request could not be decoded from its bytes".into()),
    }
}

/// Dispatch and decode. Err: panic, or a malformed reply.
pub fn run(h: &Hop, r: &Req, via: Via) -> Result<Reply, String> {
    let raw = dispatch(h, r, &[], via)?;
    reply_of(&raw.res, &raw.buf)
}

pub fn reply_of(res: &Result<(), u8>, buf: &[u8]) -> Result<Reply, String> {
    match res {
        Err(e) => {
            if !buf.is_empty() {
                return Err(format!("failed with error {} but wrote a reply: {}", err_name(*e), hex(buf)));
            }
            Ok(Reply::Err(*e))
        }
        Ok(()) => {
            let mut v = decode_all(buf)?;
            if v.len() != 1 {
                return Err(format!("{} replies written by one request", v.len()));
            }
            Ok(v.pop().unwrap())
        }
    }
}
