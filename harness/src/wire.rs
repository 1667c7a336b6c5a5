//! The wire format, written from its description and independent of the code under test.
use crate::common::hex;
use std::collections::{BTreeMap, BTreeSet};

pub const INCR: u8 = 0;
pub const DECR: u8 = 1;
pub const INCRBY: u8 = 2;
pub const DECRBY: u8 = 3;
pub const SET: u8 = 10;
pub const GET: u8 = 11;
pub const DELETE: u8 = 12;
pub const EXISTS: u8 = 13;
pub const IS: u8 = 14;
pub const RENAME: u8 = 15;
pub const TYPE: u8 = 16;
pub const APPEND: u8 = 20;
pub const LENGTH: u8 = 21;
pub const KEYS: u8 = 22;
pub const ECHO: u8 = 100;
pub const STATS: u8 = 101;
pub const ALL: [u8; 16] = [
    INCR, DECR, INCRBY, DECRBY, SET, GET, DELETE, EXISTS, IS, RENAME, TYPE, APPEND, LENGTH, KEYS, ECHO, STATS,
];

pub const BYTES: u8 = 0;
pub const BOOL: u8 = 1;
pub const FLOAT: u8 = 2;
pub const INT: u8 = 3;
pub const STR: u8 = 4;
pub const LIST: u8 = 5;
pub const MAP: u8 = 6;
pub const SETT: u8 = 7;

pub const E_ARG: u8 = 0;
pub const E_NOKEY: u8 = 1;
pub const E_TDIFF: u8 = 2;
pub const E_TUNEXP: u8 = 3;
pub const E_PRECOND: u8 = 4;
pub const E_MISSING: u8 = 5;
pub const E_TREQ: u8 = 6;
pub const E_TINV: u8 = 7;

pub fn cmd_name(c: u8) -> &'static str {
    match c {
        INCR => "increment",
        DECR => "decrement",
        INCRBY => "increment:by",
        DECRBY => "decrement:by",
        SET => "set",
        GET => "get",
        DELETE => "delete",
        EXISTS => "exists",
        IS => "is",
        RENAME => "rename",
        TYPE => "type",
        APPEND => "append",
        LENGTH => "length",
        KEYS => "keys",
        ECHO => "echo",
        STATS => "stats",
        _ => "?",
    }
}
pub fn type_name(t: u8) -> &'static str {
    ["bytes", "bool", "float", "int", "str", "list", "map", "set"]
        .get(t as usize)
        .copied()
        .unwrap_or("?")
}
pub fn err_name(e: u8) -> &'static str {
    [
        "ArgumentRetrieval",
        "KeyUnspecified",
        "KeyTypeDifferent",
        "KeyTypeUnexpected",
        "PreconditionFailed",
        "KeyNonexistent",
        "KeyTypeRequired",
        "KeyTypeInvalid",
    ]
    .get(e as usize)
    .copied()
    .unwrap_or("?")
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Req {
    pub cmd: u8,
    pub kt: Option<u8>,
    pub args: Vec<Vec<u8>>,
}

impl std::fmt::Debug for Req {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", cmd_name(self.cmd))?;
        if let Some(t) = self.kt {
            write!(f, ":{}", type_name(t))?;
        }
        for a in self.args.iter().take(12) {
            write!(f, " {}", hex(a))?;
        }
        if self.args.len() > 12 {
            write!(f, " ..({} args)", self.args.len())?;
        }
        Ok(())
    }
}

pub fn req<A: AsRef<[u8]>>(cmd: u8, kt: Option<u8>, args: &[A]) -> Req {
    Req { cmd, kt, args: args.iter().map(|a| a.as_ref().to_vec()).collect() }
}

impl Req {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.push(self.cmd | if self.kt.is_some() { 0x80 } else { 0 });
        if let Some(t) = self.kt {
            o.push(t);
        }
        if self.cmd == STATS {
            return o;
        }
        o.push(self.args.len() as u8);
        for a in &self.args {
            o.extend_from_slice(&(a.len() as u32).to_be_bytes());
            o.extend_from_slice(a);
        }
        o
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReqErr {
    Command,
    KeyType,
}

/// Ok(Some((request, length))), Ok(None) when more bytes are needed, or the parse error.
pub fn decode_req(b: &[u8]) -> Result<Option<(Req, usize)>, ReqErr> {
    let Some(&b0) = b.first() else { return Ok(None) };
    let cmd = b0 & 0x7f;
    if !ALL.contains(&cmd) {
        return Err(ReqErr::Command);
    }
    let mut i = 1;
    let mut kt = None;
    if b0 & 0x80 != 0 {
        let Some(&t) = b.get(i) else { return Ok(None) };
        if t > 7 {
            return Err(ReqErr::KeyType);
        }
        kt = Some(t);
        i += 1;
    }
    if cmd == STATS {
        return Ok(Some((Req { cmd, kt, args: vec![] }, i)));
    }
    let Some(&n) = b.get(i) else { return Ok(None) };
    i += 1;
    let mut args = Vec::new();
    for _ in 0..n {
        let Some(l) = b.get(i..i + 4) else { return Ok(None) };
        let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
        i += 4;
        let Some(a) = b.get(i..i.saturating_add(l)) else { return Ok(None) };
        args.push(a.to_vec());
        i += l;
    }
    Ok(Some((Req { cmd, kt, args }, i)))
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum MVal {
    Bytes(Vec<u8>),
    Bool(bool),
    /// The bits.
    Float(u64),
    Int(i64),
    Str(Vec<u8>),
    List(Vec<Vec<u8>>),
    Map(BTreeMap<Vec<u8>, Vec<u8>>),
    Set(BTreeSet<Vec<u8>>),
}
impl MVal {
    pub fn kind(&self) -> u8 {
        match self {
            MVal::Bytes(_) => BYTES,
            MVal::Bool(_) => BOOL,
            MVal::Float(_) => FLOAT,
            MVal::Int(_) => INT,
            MVal::Str(_) => STR,
            MVal::List(_) => LIST,
            MVal::Map(_) => MAP,
            MVal::Set(_) => SETT,
        }
    }
    pub fn f(x: f64) -> Self {
        MVal::Float(x.to_bits())
    }
    /// The arguments that set a key to this value.
    pub fn to_args(&self) -> Vec<Vec<u8>> {
        match self {
            MVal::Bytes(b) | MVal::Str(b) => vec![b.clone()],
            MVal::Bool(b) => vec![vec![*b as u8]],
            MVal::Float(x) => vec![x.to_be_bytes().to_vec()],
            MVal::Int(x) => vec![x.to_be_bytes().to_vec()],
            MVal::List(l) => l.clone(),
            MVal::Map(m) => m.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect(),
            MVal::Set(s) => s.iter().cloned().collect(),
        }
    }
    pub fn bytes_len(&self) -> usize {
        match self {
            MVal::Bytes(b) | MVal::Str(b) => b.len(),
            MVal::Bool(_) => 1,
            MVal::Float(_) | MVal::Int(_) => 8,
            MVal::List(l) => l.iter().map(|x| x.len() + 4).sum(),
            MVal::Map(m) => m.iter().map(|(k, v)| k.len() + v.len() + 5).sum(),
            MVal::Set(s) => s.iter().map(|x| x.len() + 2).sum(),
        }
    }
}
impl std::fmt::Debug for MVal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            MVal::Bytes(b) => write!(f, "bytes {}", hex(b)),
            MVal::Bool(b) => write!(f, "bool {b}"),
            MVal::Float(x) => write!(f, "float {} (bits {x:016x})", f64::from_bits(*x)),
            MVal::Int(i) => write!(f, "int {i}"),
            MVal::Str(b) => write!(f, "str {}", hex(b)),
            MVal::List(l) => {
                write!(f, "list({})[", l.len())?;
                for x in l.iter().take(12) {
                    write!(f, "{} ", hex(x))?;
                }
                write!(f, "]")
            }
            MVal::Map(l) => {
                write!(f, "map({}){{", l.len())?;
                for (k, x) in l.iter().take(8) {
                    write!(f, "{}={} ", hex(k), hex(x))?;
                }
                write!(f, "}}")
            }
            MVal::Set(l) => {
                write!(f, "set({}){{", l.len())?;
                for x in l.iter().take(12) {
                    write!(f, "{} ", hex(x))?;
                }
                write!(f, "}}")
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Reply {
    Val(MVal),
    Err(u8),
    Parse(u8),
}

// Numbers of the reply types.
pub const R_BOOL: u8 = 0;
pub const R_BYTES: u8 = 1;
pub const R_FLOAT: u8 = 2;
pub const R_INT: u8 = 3;
pub const R_LIST: u8 = 4;
pub const R_MAP: u8 = 5;
pub const R_SET: u8 = 6;
pub const R_STR: u8 = 7;
pub const R_PARSE: u8 = 8;
pub const R_DISPATCH: u8 = 9;

pub fn encode_reply(r: &Reply) -> Vec<u8> {
    let mut p = Vec::new();
    match r {
        Reply::Val(v) => match v {
            MVal::Bool(b) => p.extend([R_BOOL, *b as u8]),
            MVal::Bytes(b) => {
                p.push(R_BYTES);
                p.extend((b.len() as u32).to_be_bytes());
                p.extend(b);
            }
            MVal::Float(x) => {
                p.push(R_FLOAT);
                p.extend(x.to_be_bytes());
            }
            MVal::Int(x) => {
                p.push(R_INT);
                p.extend(x.to_be_bytes());
            }
            MVal::List(l) => {
                p.push(R_LIST);
                p.extend((l.len() as u16).to_be_bytes());
                for x in l {
                    p.extend((x.len() as u32).to_be_bytes());
                    p.extend(x);
                }
            }
            MVal::Map(m) => {
                p.push(R_MAP);
                p.extend((m.len() as u16).to_be_bytes());
                for (k, x) in m {
                    p.push(k.len() as u8);
                    p.extend(k);
                    p.extend((x.len() as u32).to_be_bytes());
                    p.extend(x);
                }
            }
            MVal::Set(l) => {
                p.push(R_SET);
                p.extend((l.len() as u16).to_be_bytes());
                for x in l {
                    p.extend((x.len() as u16).to_be_bytes());
                    p.extend(x);
                }
            }
            MVal::Str(b) => {
                p.push(R_STR);
                p.extend((b.len() as u32).to_be_bytes());
                p.extend(b);
            }
        },
        Reply::Err(e) => p.extend([R_DISPATCH, *e]),
        Reply::Parse(e) => p.extend([R_PARSE, *e]),
    }
    let mut o = (p.len() as u32).to_be_bytes().to_vec();
    o.extend(p);
    o
}

/// Decode one whole reply at the start of `b`: the reply and its length, or None if incomplete.
pub fn decode_reply(b: &[u8]) -> Result<Option<(Reply, usize)>, String> {
    let Some(h) = b.get(..4) else { return Ok(None) };
    let n = u32::from_be_bytes(h.try_into().unwrap()) as usize;
    let Some(p) = b.get(4..4 + n) else { return Ok(None) };
    let mut c = Cur(p, 0);
    let bad = |w: &str| format!("malformed reply ({w}): {}", hex(&b[..4 + n]));
    let t = c.take(1).ok_or_else(|| bad("empty"))?[0];
    let r = (|| -> Option<Reply> {
        Some(match t {
            R_BOOL => match c.take(1)?[0] {
                0 => Reply::Val(MVal::Bool(false)),
                1 => Reply::Val(MVal::Bool(true)),
                _ => return None,
            },
            R_BYTES => {
                let n = c.u32()?;
                Reply::Val(MVal::Bytes(c.take(n)?.to_vec()))
            }
            R_STR => {
                let n = c.u32()?;
                let s = c.take(n)?;
                std::str::from_utf8(s).ok()?;
                Reply::Val(MVal::Str(s.to_vec()))
            }
            R_FLOAT => Reply::Val(MVal::Float(u64::from_be_bytes(c.take(8)?.try_into().unwrap()))),
            R_INT => Reply::Val(MVal::Int(i64::from_be_bytes(c.take(8)?.try_into().unwrap()))),
            R_LIST => {
                let n = c.u16()?;
                let mut l = Vec::new();
                for _ in 0..n {
                    let n = c.u32()?;
                    l.push(c.take(n)?.to_vec());
                }
                Reply::Val(MVal::List(l))
            }
            R_MAP => {
                let n = c.u16()?;
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = c.take(1)?[0] as usize;
                    let k = c.take(k)?.to_vec();
                    let v = c.u32()?;
                    let v = c.take(v)?.to_vec();
                    if m.insert(k, v).is_some() {
                        return None;
                    }
                }
                Reply::Val(MVal::Map(m))
            }
            R_SET => {
                let n = c.u16()?;
                let mut l = BTreeSet::new();
                for _ in 0..n {
                    let n = c.u16()?;
                    if !l.insert(c.take(n)?.to_vec()) {
                        return None;
                    }
                }
                Reply::Val(MVal::Set(l))
            }
            R_PARSE => Reply::Parse(c.take(1)?[0]),
            R_DISPATCH => Reply::Err(c.take(1)?[0]),
            _ => return None,
        })
    })()
    .ok_or_else(|| bad("payload"))?;
    if c.1 != p.len() {
        return Err(bad("length doesn't match the payload"));
    }
    Ok(Some((r, 4 + n)))
}

struct Cur<'a>(&'a [u8], usize);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    fn u16(&mut self) -> Option<usize> {
        Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as usize)
    }
    fn u32(&mut self) -> Option<usize> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as usize)
    }
}

/// Decode everything in `b`, which has to be whole replies.
pub fn decode_all(b: &[u8]) -> Result<Vec<Reply>, String> {
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        match decode_reply(&b[i..])? {
            Some((r, n)) => {
                v.push(r);
                i += n;
            }
            None => return Err(format!("incomplete reply: {}", hex(&b[i..]))),
        }
    }
    Ok(v)
}
