//! Executable reference model of the database: what each request does and replies.
use crate::wire::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Db = BTreeMap<Vec<u8>, MVal>;

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Val(MVal),
    /// A list in any order.
    AnyOrder(Vec<Vec<u8>>),
    /// Equal as a number, or both NaN; the key then holds exactly what was replied.
    Float(Vec<u8>, f64),
    /// Any of these errors: each names a fault that the request has.
    Err(BTreeSet<u8>),
    /// The counters of the statistics, compared elsewhere.
    Stats,
    /// Nothing is claimed about this request.
    Open,
}

fn err(e: u8) -> Expect {
    Expect::Err([e].into())
}

pub fn internal(k: &[u8]) -> bool {
    k.starts_with(b"__hop__:")
}

pub fn is_read_only(cmd: u8) -> bool {
    matches!(cmd, GET | EXISTS | IS | TYPE | LENGTH | KEYS | ECHO | STATS)
}

fn num<const N: usize>(a: Option<&Vec<u8>>) -> Option<[u8; N]> {
    a?.get(..N)?.try_into().ok()
}

/// The value that a set with these arguments stores, or the fault of the arguments.
pub fn parse_set(kt: u8, args: &[Vec<u8>]) -> Result<MVal, u8> {
    let a = args.first().ok_or(E_ARG)?;
    Ok(match kt {
        BYTES => MVal::Bytes(a.clone()),
        STR => {
            std::str::from_utf8(a).map_err(|_| E_ARG)?;
            MVal::Str(a.clone())
        }
        BOOL => MVal::Bool(*a.first().ok_or(E_ARG)? > 0),
        FLOAT => MVal::Float(u64::from_be_bytes(num::<8>(Some(a)).ok_or(E_ARG)?)),
        INT => MVal::Int(i64::from_be_bytes(num::<8>(Some(a)).ok_or(E_ARG)?)),
        LIST => MVal::List(args.to_vec()),
        MAP => {
            if args.len() % 2 != 0 {
                return Err(E_ARG);
            }
            let mut m = BTreeMap::new();
            for p in args.chunks(2) {
                if p[0].len() > 255 {
                    return Err(E_PRECOND);
                }
                m.insert(p[0].clone(), p[1].clone());
            }
            MVal::Map(m)
        }
        _ => {
            if args.iter().any(|a| a.len() > 65535) {
                return Err(E_PRECOND);
            }
            MVal::Set(args.iter().cloned().collect())
        }
    })
}

pub fn length_of(v: &MVal) -> Option<i64> {
    Some(match v {
        MVal::Bytes(b) => b.len() as i64,
        MVal::Str(s) => String::from_utf8_lossy(s).chars().count() as i64,
        MVal::List(l) => l.len() as i64,
        MVal::Map(m) => m.len() as i64,
        MVal::Set(s) => s.len() as i64,
        _ => return None,
    })
}

/// Run a request on the model. Only successful writes change `db`.
pub fn apply(db: &mut Db, r: &Req) -> Expect {
    let key = r.args.first();
    let mut faults: BTreeSet<u8> = BTreeSet::new();
    let one = matches!(
        r.cmd,
        APPEND | DELETE | DECR | DECRBY | GET | INCR | INCRBY | KEYS | LENGTH | SET | TYPE | RENAME
    );
    if one {
        match key {
            None => {
                faults.insert(E_NOKEY);
            }
            Some(k) if k.is_empty() => {
                faults.insert(E_NOKEY);
            }
            Some(k) if internal(k) => {
                faults.insert(E_PRECOND);
            }
            _ => {}
        }
    }
    let no_type = |f: &mut BTreeSet<u8>| {
        if r.kt.is_some() {
            f.insert(E_TUNEXP);
        }
    };
    let have = key.and_then(|k| db.get(k));
    let have_kind = have.map(|v| v.kind());
    let fin = |f: BTreeSet<u8>, g: Expect| if f.is_empty() { g } else { Expect::Err(f) };
    match r.cmd {
        SET => {
            let kt = r.kt.or(have_kind).unwrap_or(BYTES);
            if r.args.len() < 2 {
                faults.insert(E_ARG);
                return Expect::Err(faults);
            }
            match parse_set(kt, &r.args[1..]) {
                Err(e) => {
                    faults.insert(e);
                    // Several arguments of a map may be at fault in different ways.
                    if kt == MAP {
                        if r.args.len() % 2 == 0 {
                            faults.insert(E_ARG);
                        }
                        if r.args[1..].iter().step_by(2).any(|a| a.len() > 255) {
                            faults.insert(E_PRECOND);
                        }
                    }
                    Expect::Err(faults)
                }
                Ok(v) => {
                    if !faults.is_empty() {
                        return Expect::Err(faults);
                    }
                    db.insert(key.unwrap().clone(), v.clone());
                    Expect::Val(v)
                }
            }
        }
        GET => {
            match have {
                None => {
                    faults.insert(E_MISSING);
                }
                Some(v) => {
                    if r.kt.is_some_and(|t| t != v.kind()) {
                        faults.insert(E_TDIFF);
                    }
                }
            }
            // A request without a usable key is only that.
            if one && !key_ok(key) {
                faults.remove(&E_MISSING);
            }
            let v = have.cloned();
            fin(faults, v.map(Expect::Val).unwrap_or(Expect::Open))
        }
        DELETE => {
            no_type(&mut faults);
            if key_ok(key) && have.is_none() {
                faults.insert(E_PRECOND);
            }
            if !faults.is_empty() {
                return Expect::Err(faults);
            }
            let k = key.unwrap().clone();
            db.remove(&k);
            Expect::Val(MVal::Bytes(k))
        }
        EXISTS => {
            no_type(&mut faults);
            if r.args.is_empty() {
                faults.insert(E_ARG);
                faults.insert(E_NOKEY);
            }
            fin(faults, Expect::Val(MVal::Bool(r.args.iter().all(|k| db.contains_key(k)))))
        }
        IS => {
            if r.kt.is_none() {
                faults.insert(E_TREQ);
            }
            if r.args.is_empty() {
                faults.insert(E_ARG);
                faults.insert(E_NOKEY);
            }
            let all = r.args.iter().all(|k| db.get(k).is_some_and(|v| Some(v.kind()) == r.kt));
            fin(faults, Expect::Val(MVal::Bool(all)))
        }
        RENAME => {
            no_type(&mut faults);
            if key_ok(key) && have.is_none() {
                faults.insert(E_MISSING);
            }
            match r.args.get(1) {
                None => {
                    faults.insert(E_ARG);
                }
                Some(d) if d.is_empty() => {
                    faults.insert(E_NOKEY);
                }
                Some(d) if internal(d) || db.contains_key(d) => {
                    faults.insert(E_PRECOND);
                }
                _ => {}
            }
            if !faults.is_empty() {
                return Expect::Err(faults);
            }
            let v = db.remove(key.unwrap()).unwrap();
            let d = r.args[1].clone();
            db.insert(d.clone(), v);
            Expect::Val(MVal::Bytes(d))
        }
        TYPE => {
            no_type(&mut faults);
            if key_ok(key) && have.is_none() {
                faults.insert(E_MISSING);
            }
            let k = have_kind.unwrap_or(0);
            fin(faults, Expect::Val(MVal::Int(k as i64)))
        }
        LENGTH => {
            let kt = r.kt.or(have_kind).unwrap_or(BYTES);
            if matches!(kt, BOOL | FLOAT | INT) {
                faults.insert(E_TINV);
            }
            if key_ok(key) {
                match have {
                    None => {
                        faults.insert(E_MISSING);
                    }
                    Some(v) if v.kind() != kt => {
                        faults.insert(E_TDIFF);
                    }
                    _ => {}
                }
            }
            let l = have.and_then(length_of);
            fin(faults, l.map(|l| Expect::Val(MVal::Int(l))).unwrap_or(Expect::Open))
        }
        KEYS => {
            let kt = r.kt.or(have_kind).unwrap_or(MAP);
            if kt != MAP {
                faults.insert(E_TINV);
            }
            if key_ok(key) {
                match have {
                    None => {
                        faults.insert(E_MISSING);
                    }
                    Some(v) if v.kind() != kt => {
                        faults.insert(E_TDIFF);
                    }
                    _ => {}
                }
            }
            let e = match have {
                Some(MVal::Map(m)) => Expect::AnyOrder(m.keys().cloned().collect()),
                _ => Expect::Open,
            };
            fin(faults, e)
        }
        APPEND => {
            let kt = r.kt.or(have_kind).unwrap_or(BYTES);
            if !matches!(kt, BYTES | LIST | STR) || (key_ok(key) && have_kind.is_some_and(|h| h != kt)) {
                faults.insert(E_TDIFF);
            }
            let args = r.args.get(1..).unwrap_or(&[]);
            if kt == STR && args.iter().any(|a| std::str::from_utf8(a).is_err()) {
                faults.insert(E_ARG);
            }
            if let (LIST, Some(MVal::List(l))) = (kt, have) {
                if l.len() + args.len() > 65535 {
                    faults.insert(E_PRECOND);
                }
            }
            if !faults.is_empty() {
                return Expect::Err(faults);
            }
            let v = db.entry(key.unwrap().clone()).or_insert_with(|| match kt {
                BYTES => MVal::Bytes(vec![]),
                STR => MVal::Str(vec![]),
                _ => MVal::List(vec![]),
            });
            match v {
                MVal::Bytes(b) | MVal::Str(b) => args.iter().for_each(|a| b.extend_from_slice(a)),
                MVal::List(l) => l.extend(args.iter().cloned()),
                _ => unreachable!(),
            }
            Expect::Val(v.clone())
        }
        INCR | DECR | INCRBY | DECRBY => {
            let neg = matches!(r.cmd, DECR | DECRBY);
            let by = matches!(r.cmd, INCRBY | DECRBY);
            if r.kt.is_some_and(|t| t != FLOAT && t != INT) {
                return Expect::Open;
            }
            let float = r.kt.or(have_kind) == Some(FLOAT);
            let raw = num::<8>(r.args.get(1));
            if by && raw.is_none() {
                faults.insert(E_ARG);
            }
            if key_ok(key) && have_kind.is_some_and(|h| h != if float { FLOAT } else { INT }) {
                faults.insert(E_TDIFF);
            }
            if !faults.is_empty() {
                return Expect::Err(faults);
            }
            let k = key.unwrap().clone();
            if float {
                let before = match have {
                    Some(MVal::Float(b)) => f64::from_bits(*b),
                    _ => 0.0,
                };
                let amount = if by { f64::from_be_bytes(raw.unwrap()) } else { 1.0 };
                let after = if neg { before - amount } else { before + amount };
                db.insert(k.clone(), MVal::f(after));
                Expect::Float(k, after)
            } else {
                let before = match have {
                    Some(MVal::Int(b)) => *b,
                    _ => 0,
                };
                let amount = if by { i64::from_be_bytes(raw.unwrap()) } else { 1 };
                let after = if neg { before.wrapping_sub(amount) } else { before.wrapping_add(amount) };
                db.insert(k, MVal::Int(after));
                Expect::Val(MVal::Int(after))
            }
        }
        ECHO => Expect::Val(MVal::List(r.args.clone())),
        STATS => {
            no_type(&mut faults);
            fin(faults, Expect::Stats)
        }
        _ => err(E_ARG),
    }
}

pub fn key_ok(k: Option<&Vec<u8>>) -> bool {
    k.is_some_and(|k| !k.is_empty() && !internal(k))
}

pub fn float_same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Compare a reply with what is expected; takes over what the model leaves to the engine.
pub fn check(db: &mut Db, e: &Expect, r: &Reply) -> Result<(), String> {
    let ok = match (e, r) {
        (Expect::Open, _) => true,
        (Expect::Val(v), Reply::Val(w)) => v == w,
        (Expect::AnyOrder(l), Reply::Val(MVal::List(w))) => {
            let (mut a, mut b) = (l.clone(), w.clone());
            a.sort();
            b.sort();
            a == b
        }
        (Expect::Float(k, f), Reply::Val(MVal::Float(b))) => {
            let ok = float_same(*f, f64::from_bits(*b));
            if ok {
                db.insert(k.clone(), MVal::Float(*b));
            }
            ok
        }
        (Expect::Err(es), Reply::Err(c)) => es.contains(c),
        (Expect::Stats, Reply::Val(MVal::Map(_))) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("expected {}, got {}", show_expect(e), show_reply(r)))
    }
}

pub fn show_expect(e: &Expect) -> String {
    match e {
        Expect::Err(s) => format!("error {}", s.iter().map(|e| err_name(*e)).collect::<Vec<_>>().join(" or ")),
        e => format!("{e:?}"),
    }
}
pub fn show_reply(r: &Reply) -> String {
    match r {
        Reply::Val(v) => format!("{v:?}"),
        Reply::Err(e) => format!("error {} ({e})", err_name(*e)),
        Reply::Parse(e) => format!("parse error {e}"),
    }
}
