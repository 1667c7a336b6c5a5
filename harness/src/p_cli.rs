//! P25: the command line - its parser, its processing of lines, and the real program.
use crate::{common::*, eng::*, gen, model, model::*, net::*, p_client::*, rng::Rng, wire::*};
use hop::{
    backend::{Backend, MemoryBackend, ServerBackend},
    Client,
};
use std::{
    collections::BTreeSet,
    io::{Read, Write},
    os::unix::process::CommandExt,
    process::{Command, Stdio},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

// ---- an independent reading of a line --------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum PErr {
    NoCommand,
    BadCommand(String),
    NoKey,
    MapHalf(String),
    BadArg(String, u8),
    Building,
}

const NAMES: &[(&str, u8)] = &[
    ("append", APPEND),
    ("decrement:by", DECRBY),
    ("decrement", DECR),
    ("delete", DELETE),
    ("echo", ECHO),
    ("exists", EXISTS),
    ("get", GET),
    ("increment:by", INCRBY),
    ("increment", INCR),
    ("is", IS),
    ("keys", KEYS),
    ("length", LENGTH),
    ("rename", RENAME),
    ("set", SET),
    ("stats", STATS),
    ("type", TYPE),
];
const TYPES: &[(&str, u8)] = &[
    ("boolean", BOOL),
    ("bool", BOOL),
    ("bytes", BYTES),
    ("float", FLOAT),
    ("integer", INT),
    ("int", INT),
    ("list", LIST),
    ("map", MAP),
    ("set", SETT),
    ("string", STR),
    ("str", STR),
];

/// The request that a line spells, or everything that is wrong with it.
fn read(line: &str) -> Result<Req, Vec<PErr>> {
    let mut toks = line.split(' ');
    let name = toks.next().unwrap_or("");
    if name.is_empty() {
        return Err(vec![PErr::NoCommand]);
    }
    let find = |n: &str| NAMES.iter().find(|x| x.0 == n).map(|x| x.1);
    let (cmd, kt) = match find(name) {
        Some(c) => (c, None),
        None => {
            let half = name.rfind(':').and_then(|i| Some((find(&name[..i])?, TYPES.iter().find(|x| x.0 == &name[i + 1..])?.1)));
            match half {
                Some((c, t)) => (c, Some(t)),
                None => return Err(vec![PErr::BadCommand(name.to_owned())]),
            }
        }
    };
    let kt = kt.or(match cmd {
        SET | APPEND => Some(BYTES),
        INCRBY | DECRBY => Some(INT),
        _ => None,
    });
    let rest: Vec<&str> = toks.collect();
    let keys = match cmd {
        ECHO | STATS => 0,
        RENAME => 2,
        EXISTS | IS => usize::MAX,
        _ => 1,
    };
    let mut bad = vec![];
    let mut args: Vec<Vec<u8>> = rest.iter().take(keys).map(|s| s.as_bytes().to_vec()).collect();
    if keys == 2 && rest.len() == 1 {
        bad.push(PErr::NoKey);
    }
    let vals = rest.get(keys.min(rest.len())..).unwrap_or(&[]);
    for v in vals {
        let b = match kt {
            Some(BOOL) => match *v {
                "true" => Some(vec![1]),
                "false" => Some(vec![0]),
                _ => None,
            },
            Some(INT) => integer(v).map(|i| i.to_be_bytes().to_vec()),
            Some(FLOAT) => v.parse::<f64>().ok().map(|f| f.to_be_bytes().to_vec()),
            _ => Some(v.as_bytes().to_vec()),
        };
        match b {
            Some(b) => args.push(b),
            None => bad.push(PErr::BadArg((*v).to_owned(), kt.unwrap())),
        }
    }
    if kt == Some(MAP) && vals.len() % 2 == 1 {
        bad.push(PErr::MapHalf(vals.last().unwrap().to_string()));
    }
    if rest.iter().any(|s| s.is_empty()) || rest.len() > 255 || (cmd == STATS && !rest.is_empty()) {
        bad.push(PErr::Building);
    }
    if bad.is_empty() {
        Ok(Req { cmd, kt, args })
    } else {
        Err(bad)
    }
}

fn integer(s: &str) -> Option<i64> {
    let (neg, d) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let d = d.trim_start_matches('0');
    if d.len() > 19 {
        return None;
    }
    let mut n: i128 = 0;
    for c in d.bytes() {
        n = n * 10 + (c - b'0') as i128;
    }
    i64::try_from(if neg { -n } else { n }).ok()
}

fn perr(e: &hop_cli::ParseError) -> PErr {
    use hop_cli::ParseError::*;
    match e {
        ArgumentInvalid { argument, key_type } => PErr::BadArg(argument.clone(), kty_no(*key_type)),
        BuildingRequest { .. } => PErr::Building,
        InvalidCommandType { provided_name } => PErr::BadCommand(provided_name.clone()),
        KeyUnspecified => PErr::NoKey,
        MapIncomplete { key } => PErr::MapHalf(key.clone()),
        NoCommandProvided => PErr::NoCommand,
    }
}

// ---- lines -----------------------------------------------------------------------------------

struct Pool {
    keys: Vec<String>,
}

fn word(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "true".into(),
        1 => "false".into(),
        2 => gen::int(r).to_string(),
        3 => format!("{}", gen::float(r)),
        4 => (*r.pick(&["1e308", "-0", "inf", "-inf", "NaN", ".5", "5.", "1e-400", "+7", "007", "1e400"])).into(),
        5 => (*r.pick(&["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "--1", "+", "-", "1_0", "0x1", "TRUE", "tru", "1,5"])).into(),
        6 => {
            let n = r.range(1, 12);
            String::from_utf8(gen::text(r, n)).unwrap().replace(' ', "_")
        }
        7 => (*r.pick(&["=", "a=b", ":", "get", "set:int", "\t", "\"q", "\u{a0}x", "\u{2028}", "\0"])).into(),
        8 => "x".repeat(*r.pick(&[255, 256, 300, 4096, 70_000])),
        _ => format!("w{}", r.below(30)),
    }
}

fn typed_word(r: &mut Rng, kt: Option<u8>) -> String {
    match kt {
        Some(BOOL) => (*r.pick(&["true", "false"])).into(),
        Some(INT) => match r.below(4) {
            0 => gen::int(r).to_string(),
            1 => format!("+{}", r.below(1000)),
            _ => (r.below(200) as i64 - 100).to_string(),
        },
        Some(FLOAT) => match r.below(4) {
            0 => format!("{:e}", gen::float(r)),
            1 => r.below(50).to_string(),
            _ => format!("{}", gen::float(r)),
        },
        _ => word(r),
    }
}

/// One character off.
fn near(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let with = if r.chance(1, 4) {
        *r.pick(&['\u{e9}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{661}', '\u{ff11}', '\t', '\r', '\0', '\u{1f600}'])
    } else {
        (b' ' + r.below(95) as u8) as char
    };
    // Mostly at an end.
    let i = match r.below(4) {
        0 => 0,
        1 => r.below(c.len() + 1),
        _ => c.len(),
    };
    match r.below(6) {
        0..=2 => c.insert(i, with),
        3 if i < c.len() => c[i] = with,
        4 if i < c.len() => {
            c.remove(i);
        }
        5 if i < c.len() => {
            c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        }
        _ => {
            if let Some(l) = c.last().copied() {
                c.push(l);
            }
        }
    }
    c.into_iter().collect()
}

fn line(r: &mut Rng, p: &Pool, db: &Db) -> String {
    if r.chance(1, 20) {
        let s = line(r, p, db);
        return match r.below(6) {
            0 => format!("{}{s}", r.pick(&[" ", "\t", "  ", "\u{a0}", "> "])),
            1 => format!("{s}{}", r.pick(&[" ", "\t", "  ", "\u{a0}", ";", "\0"])),
            _ => near(r, &s),
        };
    }
    if r.chance(1, 25) {
        // Not much of a line at all.
        return match r.below(8) {
            0 => String::new(),
            1 => " ".into(),
            2 => " get a".into(),
            3 => word(r),
            4 => format!("{} {}", word(r), word(r)),
            5 => {
                let n = r.range(1, 60);
                String::from_utf8(gen::text(r, n)).unwrap()
            }
            6 => format!("{}:{} a b", word(r), word(r)),
            _ => (*r.pick(&["get:", ":get", "get::int k", "get:int:int k", "increment:by:by k 1", "GET k", "Get k", "get:INT k", "set:str ", ":", "::", "increment:by:", "exit", "quit", "help"])).into(),
        };
    }
    let key = r.pick(&p.keys).clone();
    let held = db.get(key.as_bytes()).map(|v| v.kind());
    let (name, cmd) = *r.pick(NAMES);
    let (name, cmd) = if r.chance(1, 3) { *r.pick(&[("set", SET), ("get", GET), ("append", APPEND), ("increment:by", INCRBY)]) } else { (name, cmd) };
    let fits: Vec<&(&str, u8)> = TYPES
        .iter()
        .filter(|t| match cmd {
            APPEND => matches!(t.1, BYTES | LIST | STR),
            INCR | DECR | INCRBY | DECRBY => matches!(t.1, INT | FLOAT),
            LENGTH => !matches!(t.1, INT | FLOAT | BOOL),
            KEYS => t.1 == MAP,
            DELETE | RENAME | TYPE | EXISTS | STATS => false,
            _ => true,
        })
        .filter(|t| cmd == SET || held.is_none() || held == Some(t.1))
        .collect();
    let t = match r.below(10) {
        0 => Some(*r.pick(TYPES)),
        1..=3 => None,
        _ if fits.is_empty() => None,
        _ => Some(**r.pick(&fits)),
    };
    let kt = t.map(|t| t.1).or(match cmd {
        SET | APPEND => Some(BYTES),
        INCRBY | DECRBY => Some(INT),
        _ => None,
    });
    let mut s = name.to_owned();
    if let Some(t) = t {
        s.push(':');
        s.push_str(t.0);
    }
    if r.chance(1, 40) {
        s = near(r, &s);
    }
    let mut args: Vec<String> = vec![];
    match cmd {
        ECHO | STATS => {}
        EXISTS | IS => {
            for _ in 0..*r.pick(&[1, 1, 2, 3, 8]) {
                args.push(r.pick(&p.keys).clone());
            }
        }
        RENAME => {
            args.push(key);
            args.push(r.pick(&p.keys).clone());
        }
        _ => args.push(key),
    }
    let n = match cmd {
        STATS => usize::from(r.chance(1, 8)),
        GET | DELETE | TYPE | INCR | DECR | KEYS | LENGTH | RENAME => usize::from(r.chance(1, 12)),
        EXISTS | IS => 0,
        INCRBY | DECRBY => *r.pick(&[1, 1, 1, 1, 1, 1, 0, 2]),
        _ => match kt {
            Some(MAP) => 2 * *r.pick(&[1, 1, 2, 3, 10]) - usize::from(r.chance(1, 10)),
            Some(LIST) | Some(SETT) => *r.pick(&[1, 2, 3, 5, 20]),
            _ => *r.pick(&[1, 1, 1, 1, 2, 3, 0]),
        },
    };
    for _ in 0..n {
        args.push(match r.below(24) {
            0 | 1 => word(r),
            2 => {
                let w = typed_word(r, kt);
                near(r, &w)
            }
            _ => typed_word(r, kt),
        });
    }
    if r.chance(1, 60) {
        // Around the limit of arguments.
        let want = *r.pick(&[254usize, 255, 256, 257, 300]);
        while args.len() < want {
            args.push(typed_word(r, kt).chars().take(20).collect());
        }
    }
    if r.chance(1, 25) {
        args.truncate(r.below(args.len() + 1));
    }
    if r.chance(1, 30) {
        let i = r.below(args.len() + 1);
        args.insert(i, String::new());
    }
    for a in args {
        s.push(' ');
        s.push_str(&a);
    }
    s
}

fn check_parse(s: &str) -> Option<Req> {
    describe(format!("parse {}", hex(s.as_bytes())));
    let want = read(s);
    let shown = || hex(s.as_bytes());
    let got = cut(|| match hop_cli::parse(s) {
        Ok(q) => Ok((q.as_bytes().to_vec(), q.command_id(), q.key_type(), q.arg_count())),
        Err(e) => {
            let t = e.to_string();
            Err((perr(&e), t))
        }
    });
    eval(1);
    match (got, want) {
        (Err(p), _) => fail("P25: parsing a line panicked", format!("{}: {p}", shown())),
        (Ok(Ok((b, c, t, n))), Ok(w)) => {
            let same = b == w.encode() && c == cid(w.cmd) && t.map(kty_no) == w.kt && n as usize == w.args.len();
            if !same {
                fail(
                    "P25: a line became another request than it spells",
                    format!("{}\nspells {w:?}, parsed as {c:?} {t:?} with {n} arguments, bytes {}, expected {}", shown(), hex(&b), hex(&w.encode())),
                );
            }
            Some(w)
        }
        (Ok(Err((e, t))), Err(w)) => {
            if !w.contains(&e) || t.is_empty() {
                fail("P25: the error for a line names another problem", format!("{}\nreported {e:?} ({t}), wrong is {w:?}", shown()));
            }
            None
        }
        (Ok(Ok((b, ..))), Err(w)) => fail("P25: a line that spells no request became one", format!("{}\nwrong is {w:?}, parsed to {}", shown(), hex(&b))),
        (Ok(Err((e, t))), Ok(w)) => fail("P25: a line that spells a request was refused", format!("{}\nspells {w:?}, refused as {e:?} ({t})", shown())),
    }
}

// ---- processing ------------------------------------------------------------------------------

const TOO_FEW: &str = "Too few arguments were provided for this command.";
const DIFFERENT: &str = "The type of the key is different than specified by the command.";
const INVALID: &str = "A key type was provided that isn't supported by the command.";
const MIN_KEYS: &str = "A minimum of at least one key or more is required.";

/// The messages that name one of these faults.
fn messages(faults: &BTreeSet<u8>) -> Vec<&'static str> {
    let mut v = vec![];
    for f in faults {
        v.extend_from_slice(match *f {
            E_ARG => &[TOO_FEW, MIN_KEYS, "The destination key name is required.", "The source key name is required."][..],
            E_NOKEY => &["Specifying a key is required.", MIN_KEYS, "The destination key name is required.", "The source key name is required."],
            // Which of the two a command reports for a type that it can't use differs.
            E_TDIFF | E_TINV => &[DIFFERENT, INVALID],
            E_TUNEXP => &["A key type was specified when the command can't be given one."],
            E_PRECOND => &["A precondition failed, such as the key not existing."],
            E_MISSING => &["The specified key does not exist."],
            E_TREQ => &["A key type was required but one was not specified."],
            _ => &[],
        });
    }
    v
}

#[derive(Clone, Debug)]
enum POut {
    Text(String),
    Parse(PErr, String),
    Backend(CErr, String),
    Other(String),
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn sorted_lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    v.sort();
    v
}

/// Is this the printed form of the value?
fn prints(v: &MVal, cmd: u8, s: &str) -> bool {
    let any_order = |parts: Vec<String>| sorted_lines(&parts.join("\n")) == sorted_lines(s);
    match (cmd, v) {
        (TYPE, MVal::Int(k)) => s == type_name(*k as u8),
        (ECHO, MVal::List(l)) => s == l.iter().map(|b| lossy(b)).collect::<Vec<_>>().join(" "),
        (KEYS, MVal::List(l)) => any_order(l.iter().map(|b| lossy(b)).collect()),
        (_, MVal::List(l)) => s == l.iter().map(|b| lossy(b)).collect::<Vec<_>>().join("\n"),
        (_, MVal::Map(m)) => any_order(m.iter().map(|(k, v)| format!("{}={}", lossy(k), lossy(v))).collect()),
        (_, MVal::Set(m)) => any_order(m.iter().map(|k| lossy(k)).collect()),
        (_, MVal::Bool(b)) => s == if *b { "true" } else { "false" },
        (_, MVal::Int(i)) => s == i.to_string(),
        (_, MVal::Float(f)) => s == f64::from_bits(*f).to_string(),
        (_, MVal::Bytes(b)) | (_, MVal::Str(b)) => s == lossy(b),
    }
}

#[derive(Clone, Default, Debug)]
struct Counts {
    /// How many commands may have succeeded.
    ok: (u64, u64),
    err_max: u64,
    err_min: u64,
}

/// What processing a line printed, judged by the model of the database, which it changes.
fn judge(db: &mut Db, n: &mut Counts, s: &str, out: &POut, server: bool) -> Result<(), String> {
    let want = read(s);
    let q = match (&want, out) {
        (Err(w), POut::Parse(e, _)) if w.contains(e) => return Ok(()),
        (Err(w), o) => return Err(format!("the line is wrong ({w:?}) but it gave {o:?}")),
        (Ok(q), _) => q,
    };
    let before = db.clone();
    let (e, mut faults) = match model::apply(db, q) {
        Expect::Err(f) => (None, f),
        Expect::Open => {
            // A change of a type that has no numbers, possibly with more faults.
            let mut f: BTreeSet<u8> = [E_TINV].into();
            if q.args.is_empty() {
                f.insert(E_NOKEY);
            }
            if q.args.first().is_some_and(|k| model::internal(k)) {
                f.insert(E_PRECOND);
            }
            if q.args.len() < 2 {
                f.insert(E_ARG);
            }
            (None, f)
        }
        e => (Some(e), BTreeSet::new()),
    };
    if e.is_none() && q.cmd == APPEND && q.args.len() < 2 {
        // Appending nothing may be a fault of its own.
        faults.insert(E_ARG);
    }
    let accepted = match out {
        POut::Text(t) => messages(&faults).contains(&t.as_str()),
        POut::Backend(CErr::Dispatch(c), _) => server && (faults.contains(c) || (matches!(c, &E_TDIFF | &E_TINV) && (faults.contains(&E_TDIFF) || faults.contains(&E_TINV)))),
        _ => false,
    };
    let Some(e) = e else {
        if accepted {
            *db = before;
            n.err_max += 1;
            return Ok(());
        }
        return Err(format!("expected {}, got {out:?}", show_expect(&Expect::Err(faults))));
    };
    let POut::Text(t) = out else { return Err(format!("expected {}, got {out:?}", show_expect(&e))) };
    // Appending nothing may be refused.
    if q.cmd == APPEND && q.args.len() == 1 && t == TOO_FEW {
        *db = before;
        n.err_max += 1;
        return Ok(());
    }
    let fine = match &e {
        Expect::Val(v) => prints(v, q.cmd, t),
        Expect::AnyOrder(l) => prints(&MVal::List(l.clone()), KEYS, t),
        Expect::Float(k, f) => match t.parse::<f64>() {
            // The sign of zero and the payload of NaN are the engine's choice.
            Ok(g) if float_same(*f, g) && g.to_string() == *t => {
                let bits = if g.is_nan() { f.to_bits() } else { g.to_bits() };
                db.insert(k.clone(), MVal::Float(bits));
                true
            }
            _ => false,
        },
        Expect::Stats => {
            let num = |name: &str| -> Option<u64> { t.split('\n').find_map(|l| l.strip_prefix(name)).and_then(|l| l.strip_prefix(": ")).and_then(|l| l.parse().ok()) };
            let four = (num("Commands successful"), num("Commands errored"), num("Sessions started"), num("Sessions ended"));
            match four {
                (Some(o), Some(x), Some(0), Some(0)) if server || ((n.ok.0..=n.ok.1).contains(&o) && (n.err_min..=n.err_max).contains(&x)) => {
                    n.ok = (o, o);
                    n.err_min = x;
                    true
                }
                _ => return Err(format!("statistics that can't be right, between {n:?} are possible: {t:?}")),
            }
        }
        _ => false,
    };
    if !fine {
        return Err(format!("expected {} printed completely, got {out:?}", show_expect(&e)));
    }
    n.ok.1 += 1;
    // Echoing nothing may not need the database.
    n.ok.0 += u64::from(!(q.cmd == ECHO && q.args.is_empty()));
    Ok(())
}

fn process<B>(rt: &mut tokio::runtime::Runtime, c: &Client<B>, s: &str) -> POut
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify + std::error::Error,
{
    describe(format!("process {}", hex(s.as_bytes())));
    let r = cut(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), hop_cli::process(c, s)).await }));
    match r {
        Err(p) => fail("P25: processing a line panicked", format!("{}: {p}", hex(s.as_bytes()))),
        Ok(Err(_)) => fail("P25: processing a line never ended", hex(s.as_bytes())),
        Ok(Ok(Ok(t))) => POut::Text(t.into_owned()),
        Ok(Ok(Err(e))) => {
            let shown = e.to_string();
            match &e {
                hop_cli::ProcessError::ParsingInput { source } => POut::Parse(perr(source), shown),
                hop_cli::ProcessError::Backend { source } => POut::Backend(source.class(), shown),
                e => POut::Other(e.to_string()),
            }
        }
    }
}

fn pool(r: &mut Rng, prefix: &str) -> Pool {
    let mut keys: Vec<String> = (0..r.range(1, 6))
        .map(|i| match r.below(8) {
            0 => format!("ключ{i}"),
            1 => format!("k:{i}"),
            2 => format!("{i}"),
            3 => format!("\t{i}"),
            4 => format!("true{i}"),
            _ => format!("k{i}"),
        })
        .map(|k| format!("{prefix}{k}"))
        .collect();
    if r.chance(1, 8) {
        keys.push("__hop__:x".into());
    }
    Pool { keys }
}

fn sequence<B>(r: &mut Rng, rt: &mut tokio::runtime::Runtime, c: &Client<B>, server: bool, prefix: &str)
where
    B: Backend + Send + Sync + 'static,
    B::Error: Classify + std::error::Error,
{
    let p = pool(r, prefix);
    let mut db = Db::new();
    let mut n = Counts::default();
    let mut hist: Vec<String> = vec![];
    let steps = r.range(5, 70);
    for _ in 0..steps {
        if r.chance(1, 12) {
            // Values that no line can spell.
            let k = r.pick(&p.keys).as_bytes().to_vec();
            let kt = r.below(8) as u8;
            let mut v = gen::value(r, kt, false);
            if r.chance(1, 3) {
                v = MVal::List(vec![]);
            }
            let x = match &v {
                MVal::List(l) if l.is_empty() && !db.contains_key(&k) => Some(Call::AppendList(k.clone(), vec![])),
                MVal::Bytes(b) | MVal::Str(b) if b.is_empty() => None,
                MVal::List(l) if l.is_empty() || l.len() > 254 || l.iter().any(Vec::is_empty) => None,
                MVal::Map(m) if m.is_empty() || m.len() > 127 || m.iter().any(|(k, v)| k.is_empty() || v.is_empty()) => None,
                MVal::Set(m) if m.is_empty() || m.len() > 254 || m.iter().any(Vec::is_empty) => None,
                _ => Some(Call::Set(k.clone(), v.clone(), 0)),
            };
            if let (Some(x), true) = (x, key_ok(Some(&k))) {
                let got = cut(|| rt.block_on(call(c, &x)));
                let mut d = db.clone();
                let e = model::apply(&mut d, &x.req());
                if let (Ok(Ok(_)), Expect::Val(_)) = (&got, &e) {
                    n.ok = (n.ok.0 + 1, n.ok.1 + 1);
                    db = d;
                } else {
                    fail("P25: the database didn't take a value", format!("{x:?}: {got:?}"));
                }
                hist.push(format!("(client) {x:?}"));
            }
        }
        let s = line(r, &p, &db);
        let q = check_parse(&s);
        let out = process(rt, c, &s);
        let held = q.as_ref().and_then(|q| db.get(q.args.first()?)).map(|v| v.kind());
        if let Err(e) = judge(&mut db, &mut n, &s, &out, server) {
            fail(
                "P25: processing a line printed something else than its command gives",
                format!("{}\n{e}\nafter:\n{}", hex(s.as_bytes()), hist.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("\n")),
            );
        }
        eval(1);
        let kind = match &out {
            POut::Text(t) => {
                count("outputs", 1);
                let msgs: BTreeSet<u8> = [E_ARG, E_NOKEY, E_TDIFF, E_TUNEXP, E_PRECOND, E_MISSING, E_TREQ].into();
                messages(&msgs).iter().position(|m| m == t).unwrap_or(99)
            }
            POut::Parse(e, _) => {
                count("parse_errors", 1);
                200 + hash64(&std::mem::discriminant(e)) as usize % 1000
            }
            _ => 150,
        };
        distinct(&(q.as_ref().map(|q| (q.cmd, q.kt, q.args.len().min(260))), held, kind, server));
        hist.push(format!("{} -> {}", hex(s.as_bytes()), hex(format!("{out:?}").as_bytes())));
    }
    sample(|| hist.iter().take(12).cloned().collect::<Vec<_>>().join("\n"));
    count(if server { "sequences_through_a_server" } else { "sequences_in_memory" }, 1);
}

// ---- the real program ------------------------------------------------------------------------

/// Lines for the program, as bytes, with how each should be read.
fn input(r: &mut Rng) -> (Vec<u8>, Vec<String>) {
    let p = pool(r, "");
    let mut bytes = vec![];
    // A model of its own keeps the lines interesting.
    let mut db = Db::new();
    let n = r.range(1, 40);
    for i in 0..n {
        let mut l = line(r, &p, &db).into_bytes();
        if let Ok(q) = read(&lossy(&l)) {
            model::apply(&mut db, &q);
        }
        match r.below(14) {
            0 => l.extend_from_slice(b"\r"),
            1 => l.extend_from_slice(b"  "),
            2 => {
                let i = r.below(l.len() + 1);
                l.insert(i, *r.pick(&[0xff, 0xc3, 0x80, 0xfe]));
            }
            3 => l.clear(),
            _ => {}
        }
        bytes.extend_from_slice(&l);
        if i + 1 < n || r.chance(3, 4) {
            bytes.push(b'\n');
        }
    }
    let mut parts: Vec<&[u8]> = bytes.split(|c| *c == b'\n').collect();
    if parts.last().is_some_and(|l| l.is_empty()) {
        parts.pop();
    }
    let lines = parts.iter().map(|l| lossy(l).trim_end().to_owned()).collect();
    (bytes, lines)
}

fn program(r: &mut Rng, rt: &mut tokio::runtime::Runtime) {
    let c = ctx();
    let (bytes, lines) = input(r);
    // What every line should print, from the library, which the model judges.
    let local: Client<MemoryBackend> = Client::memory();
    let mut db = Db::new();
    let mut n = Counts::default();
    let mut want: Vec<(String, bool)> = vec![];
    for l in &lines {
        check_parse(l);
        let out = process(rt, &local, l);
        if let Err(e) = judge(&mut db, &mut n, l, &out, false) {
            fail("P25: processing a line printed something else than its command gives", format!("{}\n{e}", hex(l.as_bytes())));
        }
        let unordered = match read(l) {
            Ok(q) => q.cmd == KEYS || matches!(db.get(q.args.first().map_or(&[][..], |k| k)), Some(MVal::Map(_) | MVal::Set(_))),
            Err(_) => false,
        };
        want.push(match out {
            POut::Text(t) | POut::Parse(_, t) | POut::Backend(_, t) | POut::Other(t) => (t, unordered),
        });
    }
    let log = c.out.join("cli.err");
    let mut cmd = Command::new(&c.cli);
    cmd.env_clear()
        .env("RUST_BACKTRACE", "0")
        .current_dir(&c.out)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(std::fs::File::create(&log).expect("log"));
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => inconclusive(&format!("can't start the command line: {e}")),
    };
    let mut stdin = child.stdin.take().unwrap();
    let mut stdout = child.stdout.take().unwrap();
    let got = Arc::new(Mutex::new(Vec::<u8>::new()));
    let reader = {
        let got = got.clone();
        std::thread::spawn(move || {
            let mut b = [0; 65536];
            loop {
                match stdout.read(&mut b) {
                    Ok(0) | Err(_) => return,
                    Ok(n) => got.lock().unwrap().extend_from_slice(&b[..n]),
                }
            }
        })
    };
    // All at once, in pieces, or each line only after the previous one was answered.
    let mode = r.below(3);
    let mut broken = false;
    match mode {
        0 => broken = stdin.write_all(&bytes).is_err(),
        1 => {
            let mut i = 0;
            while i < bytes.len() && !broken {
                let most = *r.pick(&[1, 3, 50, 5000]);
                let n = r.range(1, most).min(bytes.len() - i);
                broken = stdin.write_all(&bytes[i..i + n]).is_err();
                i += n;
                if r.chance(1, 20) {
                    std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                }
            }
        }
        _ => {
            let mut end = "> ".len();
            let mut rest = &bytes[..];
            for (w, _) in &want {
                // The prompt, before there is anything to read.
                let t = Instant::now();
                while got.lock().unwrap().len() < end {
                    if t.elapsed() > Duration::from_secs(20) || child.try_wait().is_ok_and(|s| s.is_some()) {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(50));
                }
                let n = rest.iter().position(|c| *c == b'\n').map_or(rest.len(), |i| i + 1);
                broken |= stdin.write_all(&rest[..n]).is_err();
                rest = &rest[n..];
                end += w.len() + "\n> ".len();
            }
        }
    }
    drop(stdin);
    let t = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ if t.elapsed() > Duration::from_secs(40) => break None,
            _ => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    if status.is_none() {
        child.kill().ok();
        child.wait().ok();
    }
    reader.join().ok();
    let got = lossy(&got.lock().unwrap());
    let errors = lossy(&std::fs::read(&log).unwrap_or_default());
    let w = |i: usize, at: usize| {
        let mut a = at;
        while !got.is_char_boundary(a) {
            a -= 1;
        }
        let tail: String = got[a..].chars().take(600).collect();
        format!(
            "input, line {i} of {}: {}\nexpected there: {:?}\ngot from there: {tail:?}\nended: {status:?} {errors}\nlines before: {:?}",
            lines.len(),
            lines.get(i).map_or("-".into(), |l| hex(l.as_bytes())),
            want.get(i).map(|x| x.0.chars().take(600).collect::<String>()),
            lines[..i.min(lines.len())].iter().rev().take(20).rev().map(|l| hex(l.as_bytes())).collect::<Vec<_>>()
        )
    };
    let mut at = 0;
    for (i, (text, unordered)) in want.iter().enumerate() {
        let end = at + 2 + text.len() + 1;
        let piece = match got.get(at..end) {
            Some(p) if p.starts_with("> ") && p.ends_with('\n') => &p[2..p.len() - 1],
            _ => fail("P25: the command line didn't print what a line's command gives", w(i, at)),
        };
        if piece != text && !(*unordered && sorted_lines(piece) == sorted_lines(text)) {
            fail("P25: the command line didn't print what a line's command gives", w(i, at));
        }
        at = end;
    }
    if &got[at..] != "> " {
        fail("P25: the command line printed more than what its lines give", w(want.len(), at));
    }
    if broken || !status.is_some_and(|s| s.success()) {
        fail("P25: the command line didn't end with its input", w(want.len(), at));
    }
    eval(want.len() as u64);
    count("lines_through_the_program", want.len() as u64);
    count("runs_of_the_program", 1);
    distinct(&("program", mode, lines.len(), hash64(&bytes)));
}

pub fn p25() {
    let c = ctx();
    rule("an evaluation is one line parsed and compared with an independent reading of it, or processed against a database and its output compared with the printed reply of the model, or read from the real program's output; distinct by (command, type, number of arguments, type held by the key, kind of output) and by whole inputs of the program");
    let mut r = c.rng(25);
    let mut rt = rt();
    let srv = Server::start("p25", None, None);
    let mut remote: Client<ServerBackend> = rt
        .block_on(Client::connect(srv.addr))
        .unwrap_or_else(|e| inconclusive(&format!("can't connect: {e:?}")));
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        match i % 8 {
            0 | 4 => program(&mut r, &mut rt),
            3 => {
                sequence(&mut r, &mut rt, &remote, true, &format!("{i}/"));
                if i % 512 == 3 {
                    if let Ok(c) = rt.block_on(Client::connect(srv.addr)) {
                        remote = c;
                    }
                }
            }
            7 => {
                // Strings that are hardly lines.
                for _ in 0..200 {
                    let n = r.below(40);
                    let mut s = String::from_utf8(gen::text(&mut r, n)).unwrap();
                    for _ in 0..r.below(4) {
                        let i = (0..=s.len()).rev().find(|i| *i <= r.below(s.len() + 1) && s.is_char_boundary(*i)).unwrap_or(0);
                        s.insert_str(i, *r.pick(&[" ", ":", "  ", "get ", "set:", ":int", "increment:by:", "\n", "\u{0}", "stats", ":map "]));
                    }
                    check_parse(&s);
                }
            }
            _ => sequence(&mut r, &mut rt, &Client::<MemoryBackend>::memory(), false, ""),
        }
    }
    if get_count("sequences_in_memory") < 20 || get_count("runs_of_the_program") < 10 || get_count("sequences_through_a_server") < 5 {
        inconclusive("too few sequences");
    }
}
