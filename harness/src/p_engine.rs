//! P01-P07: the engine's commands against the reference model, one client.
use crate::{common::*, eng::*, gen, model, model::*, rng::Rng, wire::*};
use hop_engine::Hop;
use std::fmt::Write as _;

struct Hist {
    hop: Hop,
    db: Db,
    log: Vec<(Req, String)>,
    focus: &'static [u8],
    prop: String,
    fps: Vec<u64>,
    steps: u64,
    errs: u64,
    small: bool,
    dumps: u64,
    foreign: u64,
}

impl Hist {
    fn new(prop: &str, focus: &'static [u8]) -> Self {
        Hist {
            hop: crate::eng::hop(),
            db: Db::new(),
            log: vec![],
            focus,
            prop: prop.into(),
            fps: vec![],
            steps: 0,
            errs: 0,
            small: true,
            dumps: 0,
            foreign: 0,
        }
    }
    fn witness(&self, extra: &str) -> String {
        let mut s = String::new();
        let n = self.log.len();
        let from = n.saturating_sub(400);
        if from > 0 {
            let _ = writeln!(s, "... {from} earlier requests");
        }
        for (i, (r, o)) in self.log.iter().enumerate().skip(from) {
            let _ = writeln!(s, "{i}: {r:?} -> {o}");
        }
        let _ = writeln!(s, "{extra}");
        s
    }
    fn fail(&self, what: &str, extra: &str) -> ! {
        fail(&format!("{}: {what}", self.prop), self.witness(extra))
    }
    fn resync(&mut self) {
        self.foreign += 1;
        self.db = dump(&self.hop);
    }
    /// Run one request, compare with the model. Returns the reply.
    fn step(&mut self, r: &Req, via: Via) -> Reply {
        self.steps += 1;
        let kind = r.args.first().and_then(|k| self.db.get(k)).map(|v| v.kind());
        let exp = model::apply(&mut self.db, r);
        let in_focus = self.focus.contains(&r.cmd)
            || (self.prop == "P06" && matches!(exp, Expect::Err(_)));
        let got = run(&self.hop, r, via);
        let shape: Vec<usize> = r.args.iter().take(4).map(|a| a.len().min(300)).collect();
        self.fps.push(hash64(&(r.cmd, r.kt, kind, r.args.len(), shape, matches!(exp, Expect::Err(_)), self.db.len().min(8))));
        match got {
            Err(e) => {
                self.log.push((r.clone(), e.clone()));
                if in_focus || self.prop == "P06" {
                    self.fail("a request panicked or wrote a malformed reply", &e)
                }
                self.resync();
                Reply::Err(255)
            }
            Ok(rep) => {
                if matches!(rep, Reply::Err(_)) {
                    self.errs += 1;
                }
                self.log.push((r.clone(), show_reply(&rep)));
                let c = model::check(&mut self.db, &exp, &rep);
                if let Err(e) = c {
                    let p06 = self.prop == "P06" && matches!(rep, Reply::Err(_));
                    if in_focus || p06 {
                        self.fail("a reply differs from the reference model", &e)
                    }
                    self.resync();
                } else if matches!(exp, Expect::Open) {
                    self.db = dump(&self.hop);
                } else if self.small {
                    self.compare(in_focus, &r.args);
                }
                rep
            }
        }
    }
    /// The whole database equals the model's.
    fn compare(&mut self, in_focus: bool, named: &[Vec<u8>]) {
        self.dumps += 1;
        let d = dump(&self.hop);
        if d != self.db {
            // A stored value may only change by a command that names its key.
            let stray = self.prop == "P01" && self.db.iter().any(|(k, v)| !named.contains(k) && d.get(k) != Some(v));
            if in_focus || stray {
                let mut s = String::new();
                for (k, v) in &self.db {
                    if d.get(k) != Some(v) {
                        let _ = writeln!(s, "key {}: expected {v:?}, stored {:?}", hex(k), d.get(k));
                    }
                }
                for (k, v) in &d {
                    if !self.db.contains_key(k) {
                        let _ = writeln!(s, "key {}: expected missing, stored {v:?}", hex(k));
                    }
                }
                self.fail("the stored data differs from the reference model", &s)
            }
            self.foreign += 1;
            self.db = d;
        }
    }
    fn done(&mut self) {
        eval(self.steps as u64);
        distinct_many(&self.fps);
        count("requests", self.steps);
        count("error_replies", self.errs);
        count("database_comparisons", self.dumps);
        count("mismatches_of_other_properties", self.foreign);
        let n = self.log.len();
        if n > 3 {
            sample(|| {
                let mut s = String::new();
                for (r, o) in self.log.iter().take(6) {
                    let _ = write!(s, "{r:?} -> {o}; ");
                }
                format!("history of {n} requests: {s}")
            });
        }
    }
}

fn via(r: &mut Rng) -> Via {
    if r.chance(1, 2) {
        Via::Builder
    } else {
        Via::Wire
    }
}

/// Everything that can be asked about a key without changing it.
fn probe(h: &mut Hist, k: &[u8], r: &mut Rng) {
    let kind = h.db.get(k).map(|v| v.kind());
    h.step(&req(GET, None, &[k]), Via::Wire);
    h.step(&req(EXISTS, None, &[k]), Via::Builder);
    h.step(&req(TYPE, None, &[k]), Via::Wire);
    h.step(&req(LENGTH, None, &[k]), Via::Builder);
    let t = r.below(8) as u8;
    for t in [kind.unwrap_or(t), t] {
        h.step(&req(GET, Some(t), &[k]), Via::Builder);
        h.step(&req(IS, Some(t), &[k]), Via::Wire);
        h.step(&req(LENGTH, Some(t), &[k]), Via::Wire);
    }
}

const F01: &[u8] = &[SET, GET, DELETE, TYPE, IS, EXISTS, LENGTH];
const F02: &[u8] = &[INCR, DECR, INCRBY, DECRBY, GET];
const F03: &[u8] = &[APPEND, LENGTH, KEYS, GET];
const F04: &[u8] = &[RENAME, GET, TYPE, EXISTS];

fn random_history(prop: &str, focus: &'static [u8], r: &mut Rng, n: usize, nkeys: usize, big: bool, want: &[u8]) {
    let mut h = Hist::new(prop, focus);
    let keys = gen::keys(r, nkeys);
    h.small = !big && nkeys <= 12;
    for i in 0..n {
        let q = {
            let db = &h.db;
            let kinds = |k: &[u8]| db.get(k).map(|v| v.kind());
            let mut q = gen::any_req(r, &keys, &kinds, big);
            let mut tries = 0;
            while !want.is_empty() && !want.contains(&q.cmd) && tries < 3 {
                q = gen::any_req(r, &keys, &kinds, big);
                tries += 1;
            }
            q
        };
        let v = via(r);
        h.step(&q, v);
        if h.db.values().map(|v| v.bytes_len()).sum::<usize>() > 4_000_000 {
            h.hop = crate::eng::hop();
            h.db.clear();
        }
        if !h.small && i % 16 == 15 {
            h.compare(true, &[]);
        }
    }
    h.compare(true, &[]);
    for k in keys.iter().take(8) {
        probe(&mut h, k, r);
    }
    h.done();
}

fn histories(prop: &str, focus: &'static [u8], want: &[u8], stream: u64, frac: f64) {
    let c = ctx();
    let mut i = 0u64;
    while !c.over_frac(frac) || i < 40 {
        let mut r = c.rng(stream + i);
        let (n, k, big) = match r.below(10) {
            0..=4 => (r.range(20, 80), r.range(1, 4), false),
            5 | 6 => (r.range(60, 200), r.range(2, 8), false),
            7 => (r.range(40, 120), r.range(2, 6), true),
            8 => (r.range(300, 600), r.range(2, 10), false),
            _ => (r.range(200, 400), r.range(30, 120), false),
        };
        random_history(prop, focus, &mut r, n, k, big, want);
        i += 1;
    }
    count("random_histories", i);
}

/// One engine through more than 2^16 requests of each kind: they may not add up.
fn wear(prop: &str, focus: &'static [u8]) {
    let c = ctx();
    let mut h = Hist::new(prop, focus);
    h.small = false;
    let n = c.scale(67_000, 200_000);
    for &cmd in focus.iter().filter(|c| !matches!(**c, STATS)) {
        describe(format!("{prop}: wear by command {cmd}"));
        for k in ["by", "in", "li", "ma", "se", "st", "fl", "bo", "a", "b"] {
            h.step(&req(DELETE, None, &[k]), Via::Wire);
        }
        let pairs: [&[u8]; 5] = [b"ma", b"x", b"1", b"y", b"2"];
        h.step(&req(SET, Some(INT), &[&b"in"[..], &[0; 8]]), Via::Wire);
        h.step(&req(SET, Some(FLOAT), &[&b"fl"[..], &[0; 8]]), Via::Wire);
        h.step(&req(SET, Some(LIST), &[b"li", b"x1"]), Via::Wire);
        h.step(&req(SET, Some(MAP), &pairs), Via::Wire);
        h.step(&req(SET, Some(BYTES), &[&b"a"[..], b"moved"]), Via::Wire);
        for i in 0..n as i64 {
            if h.log.len() > 200 {
                h.log.clear();
                h.fps.truncate(5_000);
            }
            let b = i.to_be_bytes();
            let (from, to) = if i % 2 == 0 { (b"a", b"b") } else { (b"b", b"a") };
            let q = match cmd {
                SET => match i % 4 {
                    0 => req(SET, Some(INT), &[&b"in"[..], &b]),
                    1 => req(SET, Some(STR), &[&b"st"[..], i.to_string().as_bytes()]),
                    2 => req(SET, Some(BYTES), &[&b"by"[..], &b]),
                    _ => req(SET, Some(LIST), &[&b"li"[..], &b, b"x"]),
                },
                APPEND => {
                    if i % 50 == 0 {
                        h.step(&req(SET, Some(BYTES), &[&b"by"[..], b"."]), Via::Wire);
                    }
                    req(APPEND, None, &[&b"by"[..], &b[7..]])
                }
                INCRBY | DECRBY => req(cmd, Some(if i % 2 == 0 { INT } else { FLOAT }), &[if i % 2 == 0 { &b"in"[..] } else { b"fl" }, &if i % 2 == 0 { b } else { 0.5f64.to_be_bytes() }]),
                INCR | DECR => req(cmd, None, &[if i % 2 == 0 { b"in" } else { b"fl" }]),
                RENAME => req(RENAME, None, &[from, to]),
                DELETE => {
                    if i % 2 == 0 {
                        h.step(&req(SET, Some(BYTES), &[&b"by"[..], &b]), Via::Wire);
                    }
                    req(DELETE, None, &[b"by"])
                }
                EXISTS | IS => req(cmd, if cmd == IS { Some(INT) } else { None }, &[if i % 3 == 0 { &b"in"[..] } else { b"no" }]),
                ECHO => req(ECHO, None, &[&b]),
                KEYS => req(KEYS, None, &[b"ma"]),
                _ => req(cmd, None, &[if i % 5 == 0 { &b"no"[..] } else if i % 2 == 0 { b"li" } else { b"ma" }]),
            };
            h.step(&q, Via::Wire);
        }
        h.compare(true, &[]);
        count("requests_of_one_kind_on_one_engine", n as u64);
    }
    h.done();
}

pub fn p01() {
    let c = ctx();
    rule("a case is one history of requests on one database; a request is non-trivial and distinct by (command, stated type, type of the key before, argument count, argument lengths, error or not, number of keys)");
    let mut r = c.rng(1);
    // Every type overwritten by every type, typed and untyped, then deleted.
    for a in 0..8u8 {
        for b in 0..8u8 {
            for rep in 0..c.scale(2, 12) {
                let mut h = Hist::new("P01", F01);
                let ks = gen::keys(&mut r, 3);
                for (i, t) in [(0, a), (1, b), (2, a)] {
                    let q = gen::set_req(&mut r, &ks[i], t, true, rep > 0);
                    let v = via(&mut r);
                    h.step(&q, v);
                }
                probe(&mut h, &ks[0], &mut r);
                let q = gen::set_req(&mut r, &ks[0], b, rep % 2 == 0, rep > 0);
                let v = via(&mut r);
                h.step(&q, v);
                for k in &ks {
                    probe(&mut h, k, &mut r);
                }
                h.step(&req(EXISTS, None, &ks), Via::Wire);
                h.step(&req(IS, Some(b), &ks), Via::Wire);
                h.step(&req(DELETE, None, &[&ks[0]]), Via::Wire);
                for cmd in ALL {
                    if cmd != SET && cmd != APPEND && !matches!(cmd, INCR | INCRBY | DECR | DECRBY | ECHO | STATS) {
                        h.step(&req(cmd, if cmd == IS { Some(a) } else { None }, &[&ks[0], &ks[1]]), Via::Wire);
                    }
                }
                probe(&mut h, &ks[0], &mut r);
                h.step(&req(DELETE, None, &[&ks[0]]), Via::Wire);
                let q = gen::set_req(&mut r, &ks[0], b, false, false);
                h.step(&q, Via::Wire);
                probe(&mut h, &ks[0], &mut r);
                h.done();
            }
        }
    }
    // Boundary values: every special integer and float, every boundary length of key and value.
    {
        let mut h = Hist::new("P01", F01);
        for (i, x) in gen::INTS.iter().enumerate() {
            let k = format!("i{}", i % 5).into_bytes();
            h.step(&req(SET, Some(INT), &[k.clone(), x.to_be_bytes().to_vec()]), via(&mut r));
            h.step(&req(GET, Some(INT), &[&k]), Via::Wire);
        }
        for (i, x) in gen::floats().iter().enumerate() {
            let k = format!("f{}", i % 5).into_bytes();
            h.step(&req(SET, Some(FLOAT), &[k.clone(), x.to_be_bytes().to_vec()]), via(&mut r));
            h.step(&req(GET, Some(FLOAT), &[&k]), Via::Wire);
        }
        for b in 0..=255u8 {
            let k = vec![b];
            h.step(&req(SET, Some(BOOL), &[k.clone(), vec![b]]), via(&mut r));
            h.step(&req(GET, None, &[&k]), Via::Wire);
            h.step(&req(SET, Some(BYTES), &[k.clone(), vec![b]]), via(&mut r));
            h.step(&req(GET, None, &[&k]), Via::Wire);
        }
        h.done();
        for &l in gen::LENS.iter().chain(gen::BIG) {
            let mut h = Hist::new("P01", F01);
            for t in [BYTES, STR, LIST, MAP, SETT] {
                let k = gen::blob(&mut r, if t == BYTES { l } else { 3 });
                let x = if t == STR { gen::text(&mut r, l) } else { gen::blob(&mut r, l) };
                let a = match t {
                    MAP => vec![k.clone(), b"m".to_vec(), x],
                    _ => vec![k.clone(), x],
                };
                h.step(&Req { cmd: SET, kt: Some(t), args: a }, via(&mut r));
                probe(&mut h, &k, &mut r);
                h.step(&req(DELETE, None, &[&k]), via(&mut r));
                probe(&mut h, &k, &mut r);
            }
            h.done();
        }
        let mut h = Hist::new("P01", F01);
        for n in [1_000_000usize, 3_000_001, (1 << 24) + 9] {
            let x = gen::blob(&mut r, n);
            h.step(&req(SET, Some(BYTES), &[b"big".to_vec(), x]), Via::Wire);
            h.step(&req(GET, None, &[b"big"]), Via::Wire);
            h.step(&req(LENGTH, None, &[b"big"]), Via::Wire);
        }
        h.done();
    }
    // Every element count.
    for n in 1..=254usize {
        let mut h = Hist::new("P01", F01);
        for t in [LIST, SETT, MAP] {
            let m = if t == MAP { n.min(127) * 2 } else { n };
            let mut a = vec![vec![t]];
            for i in 0..m {
                a.push(format!("e{i}").into_bytes());
            }
            h.step(&Req { cmd: SET, kt: Some(t), args: a }, via(&mut r));
            h.step(&req(GET, Some(t), &[&[t]]), Via::Wire);
            h.step(&req(LENGTH, None, &[&[t]]), Via::Wire);
        }
        h.done();
    }
    // Many keys side by side.
    {
        let mut h = Hist::new("P01", F01);
        h.small = false;
        let n = c.scale(20_000, 200_000);
        for i in 0..n {
            let k = format!("many:{i}").into_bytes();
            let t = (i % 8) as u8;
            let q = if i % 50 == 0 {
                gen::set_req(&mut r, &k, t, true, false)
            } else {
                let x = match t {
                    INT | FLOAT => (i as i64).to_be_bytes().to_vec(),
                    BOOL => vec![(i / 8 % 2) as u8],
                    _ => format!("v{i}").into_bytes(),
                };
                let mut a = vec![k.clone(), x.clone()];
                if t == MAP {
                    a.push(x);
                }
                Req { cmd: SET, kt: Some(t), args: a }
            };
            h.log.clear();
            h.step(&q, Via::Builder);
        }
        h.compare(true, &[]);
        for i in 0..n {
            let k = format!("many:{i}").into_bytes();
            h.log.clear();
            match i % 4 {
                0 => h.step(&req(DELETE, None, &[&k]), Via::Wire),
                1 => h.step(&req(GET, None, &[&k]), Via::Wire),
                2 => h.step(&req(EXISTS, None, &[&k]), Via::Wire),
                _ => h.step(&req(TYPE, None, &[&k]), Via::Wire),
            };
        }
        h.compare(true, &[]);
        maxi("keys_at_once", n as u64);
        h.done();
    }
    // Questions about any number of keys, with all of them as asked, or all but one.
    for t in 0..8u8 {
        let mut h = Hist::new("P01", F01);
        h.small = false;
        let all: Vec<Vec<u8>> = (0..255).map(|i| format!("q{i}").into_bytes()).collect();
        for k in &all {
            let q = gen::set_req(&mut r, k, t, true, false);
            h.step(&q, Via::Builder);
        }
        let u = (t + 1 + r.below(7) as u8) % 8;
        let q = gen::set_req(&mut r, b"other", u, true, false);
        h.step(&q, Via::Builder);
        let ns: Vec<usize> = (1..=255).filter(|n| n % 8 == t as usize || [1, 2, 127, 128, 129, 254, 255].contains(n)).collect();
        for n in ns {
            let whole = all[..n].to_vec();
            let mut forms = vec![whole.clone()];
            for at in [0, n - 1, r.below(n)] {
                for odd in [&b"missing"[..], b"other", b""] {
                    let mut a = whole.clone();
                    a[at] = odd.to_vec();
                    forms.push(a);
                }
            }
            // Asking for the same key twice is no different.
            let mut a = whole;
            a[n - 1] = a[0].clone();
            forms.push(a);
            for a in forms {
                h.log.clear();
                h.step(&req(EXISTS, None, &a), Via::Wire);
                h.step(&req(IS, Some(t), &a), Via::Wire);
                count("questions_about_many_keys", 2);
            }
        }
        h.done();
    }
    wear("P01", &[SET, GET, DELETE, TYPE, IS, EXISTS]);
    histories("P01", F01, &[SET, GET, DELETE, TYPE, IS, EXISTS], 1000, 1.0);
}

pub fn p02() {
    let c = ctx();
    rule("a case is one history; distinct by (command, stated type, type of the key before, argument shape, error or not) plus every (value before, command, amount) triple of the arithmetic matrix");
    let mut r = c.rng(2);
    let fl = gen::floats();
    let mut h = Hist::new("P02", F02);
    let mut tri = vec![];
    for (bi, &b) in gen::INTS.iter().enumerate() {
        for &a in gen::INTS {
            for cmd in [INCRBY, DECRBY] {
                let typed = (bi ^ a as usize) & 1 == 0;
                h.log.clear();
                h.step(&req(SET, Some(INT), &[b"n".to_vec(), b.to_be_bytes().to_vec()]), Via::Builder);
                h.step(
                    &req(cmd, if typed { Some(INT) } else { None }, &[b"n".to_vec(), a.to_be_bytes().to_vec()]),
                    if typed { Via::Builder } else { Via::Wire },
                );
                h.step(&req(GET, None, &[b"n"]), Via::Wire);
                tri.push(hash64(&("i", b, cmd, a)));
            }
        }
        for cmd in [INCR, DECR] {
            for t in [None, Some(INT)] {
                h.log.clear();
                h.step(&req(SET, Some(INT), &[b"n".to_vec(), b.to_be_bytes().to_vec()]), Via::Builder);
                h.step(&req(cmd, t, &[b"n"]), Via::Builder);
                h.step(&req(GET, Some(INT), &[b"n"]), Via::Wire);
            }
        }
    }
    for &b in &fl {
        for &a in &fl {
            for cmd in [INCRBY, DECRBY] {
                let typed = (b.to_bits() ^ a.to_bits()) & 1 == 0;
                h.log.clear();
                h.step(&req(SET, Some(FLOAT), &[b"f".to_vec(), b.to_be_bytes().to_vec()]), Via::Builder);
                h.step(&req(cmd, if typed { Some(FLOAT) } else { None }, &[b"f".to_vec(), a.to_be_bytes().to_vec()]), Via::Wire);
                h.step(&req(GET, None, &[b"f"]), Via::Wire);
                tri.push(hash64(&("f", b.to_bits(), cmd, a.to_bits())));
            }
        }
        for cmd in [INCR, DECR] {
            for t in [None, Some(FLOAT)] {
                h.log.clear();
                h.step(&req(SET, Some(FLOAT), &[b"f".to_vec(), b.to_be_bytes().to_vec()]), Via::Builder);
                h.step(&req(cmd, t, &[b"f"]), Via::Builder);
                h.step(&req(GET, Some(FLOAT), &[b"f"]), Via::Wire);
            }
        }
    }
    distinct_many(&tri);
    h.done();
    // On missing keys and on keys of every type, with every stated type.
    for cmd in [INCR, DECR, INCRBY, DECRBY] {
        for st in [None, Some(INT), Some(FLOAT)] {
            for have in [None, Some(BYTES), Some(BOOL), Some(FLOAT), Some(INT), Some(STR), Some(LIST), Some(MAP), Some(SETT)] {
                for _ in 0..4 {
                    let mut h = Hist::new("P02", F02);
                    let k = gen::keys(&mut r, 1).pop().unwrap();
                    if let Some(t) = have {
                        let q = gen::set_req(&mut r, &k, t, true, false);
                        h.step(&q, Via::Builder);
                    }
                    let fl = st == Some(FLOAT) || (st.is_none() && have == Some(FLOAT));
                    for _ in 0..3 {
                        let mut a = vec![k.clone()];
                        if matches!(cmd, INCRBY | DECRBY) {
                            a.push(if fl { gen::float(&mut r).to_be_bytes() } else { gen::int(&mut r).to_be_bytes() }.to_vec());
                        }
                        h.step(&Req { cmd, kt: st, args: a }, via(&mut r));
                        h.step(&req(GET, None, &[&k]), Via::Wire);
                    }
                    // Deleting starts over from zero.
                    h.step(&req(DELETE, None, &[&k]), Via::Wire);
                    h.step(&req(cmd, st, &[k.clone(), 1.5f64.to_be_bytes().to_vec()]), Via::Wire);
                    h.step(&req(GET, None, &[&k]), Via::Wire);
                    h.done();
                }
            }
        }
    }
    // Long runs on one key, between other changes of it.
    for run_no in 0..c.scale(6, 40) {
        let mut h = Hist::new("P02", F02);
        let kt = if run_no % 2 == 0 { INT } else { FLOAT };
        for i in 0..c.scale(4000, 30_000) {
            if h.log.len() > 300 {
                h.log.clear();
            }
            let q = if r.chance(1, 400) {
                req(DELETE, None, &[b"run"])
            } else if r.chance(1, 200) {
                req(RENAME, None, &[&b"run"[..], b"walk"])
            } else if r.chance(1, 200) {
                req(RENAME, None, &[&b"walk"[..], b"run"])
            } else if i % 3 == 0 {
                req(INCR, Some(kt), &[b"run"])
            } else {
                gen::incr_req(&mut r, b"run", kt)
            };
            let v = via(&mut r);
            h.step(&q, v);
            maxi("longest_run_on_one_key", i as u64);
        }
        h.done();
    }
    wear("P02", F02);
    histories("P02", F02, &[INCR, INCRBY, DECR, DECRBY], 2000, 1.0);
}

pub fn p03() {
    let c = ctx();
    rule("a case is one history; distinct by (command, stated type, type of the key before, argument count, argument lengths, error or not, number of keys); growth runs reach the limits of a list, 16-bit lengths and multi-byte text");
    let mut r = c.rng(3);
    // Growing a value through its representable sizes.
    for t in [BYTES, STR, LIST] {
        for piece in [1usize, 100, 254] {
            let mut h = Hist::new("P03", F03);
            h.small = false;
            let n = match (t, piece) {
                (LIST, 254) => 262,
                (LIST, 100) => 300,
                _ => c.scale(300, 1500),
            };
            for i in 0..n {
                h.log.clear();
                let mut a = vec![b"grow".to_vec()];
                for j in 0..piece {
                    if a.len() < 255 {
                        a.push(match t {
                            STR => r.pick(&["a", "é", "漢", "😀"]).as_bytes().to_vec(),
                            _ => format!("{i}.{j}").into_bytes(),
                        });
                    }
                }
                h.step(&Req { cmd: APPEND, kt: if i % 3 == 0 { None } else { Some(t) }, args: if i == 0 { vec![b"grow".to_vec()] } else { a } }, via(&mut r));
                if i == 0 {
                    // Created empty with the default type; start over as the wanted type.
                    h.step(&req(DELETE, None, &[b"grow"]), Via::Wire);
                    h.step(&req(APPEND, Some(t), &[b"grow"]), Via::Wire);
                }
                h.step(&req(LENGTH, None, &[b"grow"]), Via::Wire);
                if i % 16 == 0 {
                    h.step(&req(GET, None, &[b"grow"]), Via::Wire);
                }
            }
            h.compare(true, &[]);
            maxi("largest_grown_value_bytes", h.db.values().map(|v| v.bytes_len()).max().unwrap_or(0) as u64);
            h.done();
        }
    }
    // Past the sizes that fit in three bytes.
    {
        let mut h = Hist::new("P03", F03);
        h.small = false;
        for t in [BYTES, STR] {
            let k = [b"huge", &[t][..]].concat();
            for n in [(1usize << 24) - 3, 2, 1, 1, 300] {
                h.log.clear();
                h.step(&Req { cmd: APPEND, kt: Some(t), args: vec![k.clone(), vec![b'h'; n]] }, Via::Builder);
                h.step(&req(LENGTH, Some(t), &[&k]), Via::Wire);
            }
            h.step(&req(DELETE, None, &[&k]), Via::Wire);
        }
        h.done();
    }
    // Up to the very last item of a list.
    {
        let mut h = Hist::new("P03", F03);
        h.small = false;
        let mut a = vec![b"l".to_vec()];
        a.extend((0..254).map(|i| vec![i as u8]));
        for _ in 0..258 {
            h.log.clear();
            h.step(&Req { cmd: APPEND, kt: Some(LIST), args: a.clone() }, Via::Builder);
        }
        for n in [4usize, 3, 2, 1, 1, 1] {
            let mut a = vec![b"l".to_vec()];
            a.extend((0..n).map(|i| vec![i as u8, 7]));
            h.step(&Req { cmd: APPEND, kt: None, args: a }, Via::Builder);
            h.step(&req(LENGTH, Some(LIST), &[b"l"]), Via::Wire);
        }
        h.compare(true, &[]);
        h.done();
    }
    // Every text boundary: characters split across pieces are refused, whole ones counted.
    for _ in 0..c.scale(200, 2000) {
        let mut h = Hist::new("P03", F03);
        for _ in 0..r.range(2, 10) {
            let mut q = gen::append_req(&mut r, b"s", STR, true, false);
            if r.chance(1, 6) && q.args.len() < 255 {
                let i = r.range(1, q.args.len());
                let b = gen::bad_text(&mut r);
                q.args.insert(i, b);
            }
            if r.chance(1, 6) {
                q.kt = None;
            }
            let v = via(&mut r);
            h.step(&q, v);
            h.step(&req(LENGTH, Some(STR), &[b"s"]), Via::Wire);
            h.step(&req(GET, None, &[b"s"]), Via::Wire);
        }
        h.done();
    }
    // Maps and sets of every size, with repeated and boundary-sized members.
    for n in 0..=127usize {
        let mut h = Hist::new("P03", F03);
        let mut a = vec![b"m".to_vec()];
        let mut b = vec![b"s".to_vec()];
        for i in 0..n.max(1) {
            let kl = *r.pick(&[1, 1, 2, 3, 10, 127, 128, 254, 255]);
            let mut k = if r.chance(1, 3) { format!("k{}", i / 2).into_bytes() } else { gen::blob(&mut r, kl) };
            k.truncate(255);
            b.push(k.clone());
            a.push(k);
            a.push(gen::blob(&mut r, 5));
        }
        h.step(&Req { cmd: SET, kt: Some(MAP), args: a }, via(&mut r));
        h.step(&Req { cmd: SET, kt: Some(SETT), args: b }, via(&mut r));
        for t in [None, Some(MAP)] {
            h.step(&req(KEYS, t, &[b"m"]), Via::Wire);
            h.step(&req(LENGTH, t, &[b"m"]), Via::Wire);
        }
        for t in [None, Some(SETT)] {
            h.step(&req(LENGTH, t, &[b"s"]), Via::Wire);
        }
        h.step(&req(GET, None, &[b"m"]), Via::Wire);
        h.step(&req(RENAME, None, &[b"m", b"n"]), Via::Wire);
        h.step(&req(KEYS, None, &[b"n"]), Via::Wire);
        h.step(&req(KEYS, None, &[b"m"]), Via::Wire);
        h.done();
    }
    // Larger maps and sets than one request can carry, stored by an embedding program.
    for n in [255usize, 256, 257, 300, 32_767, 32_768, 65_534, 65_535, 65_536, 70_001] {
        let mut h = Hist::new("P03", F03);
        h.small = false;
        // No reply can list more.
        let listed = n <= 65_535;
        let m = MVal::Map((0..n).map(|i| (format!("k{i}").into_bytes(), vec![i as u8; i % 3])).collect());
        let s = MVal::Set((0..n).map(|i| format!("m{i}").into_bytes()).collect());
        let l = MVal::List((0..n).map(|i| format!("l{i}").into_bytes()).collect());
        for (k, v) in [(&b"m"[..], m), (b"s", s), (b"l", l)] {
            h.hop.state().insert(k.to_vec(), to_value(&v));
            h.db.insert(k.to_vec(), v);
        }
        for k in [b"m", b"s", b"l"] {
            h.log.clear();
            h.step(&req(LENGTH, None, &[k]), Via::Wire);
            if listed {
                h.step(&req(KEYS, None, &[k]), Via::Wire);
                h.step(&req(GET, None, &[k]), Via::Wire);
            }
        }
        h.step(&req(LENGTH, Some(MAP), &[b"m"]), Via::Builder);
        h.step(&req(LENGTH, Some(SETT), &[b"s"]), Via::Builder);
        h.step(&req(LENGTH, Some(LIST), &[b"l"]), Via::Builder);
        if listed {
            h.step(&req(KEYS, Some(MAP), &[b"m"]), Via::Builder);
        }
        h.compare(true, &[]);
        count("embedded_large_values", 3);
        h.done();
    }
    // Appending to every type with every stated type.
    for st in [None, Some(BYTES), Some(BOOL), Some(FLOAT), Some(INT), Some(STR), Some(LIST), Some(MAP), Some(SETT)] {
        for have in [None, Some(BYTES), Some(BOOL), Some(FLOAT), Some(INT), Some(STR), Some(LIST), Some(MAP), Some(SETT)] {
            let mut h = Hist::new("P03", F03);
            if let Some(t) = have {
                let q = gen::set_req(&mut r, b"k", t, true, false);
                h.step(&q, Via::Builder);
            }
            for n in [1usize, 0, 3] {
                let mut a = vec![b"k".to_vec()];
                a.extend((0..n).map(|i| format!("p{i}").into_bytes()));
                h.step(&Req { cmd: APPEND, kt: st, args: a }, via(&mut r));
                probe(&mut h, b"k", &mut r);
                h.step(&req(KEYS, None, &[b"k"]), Via::Wire);
            }
            h.done();
        }
    }
    wear("P03", &[APPEND, LENGTH, KEYS]);
    histories("P03", F03, &[APPEND, LENGTH, KEYS, SET], 3000, 1.0);
}

pub fn p04() {
    let c = ctx();
    rule("a case is one history; distinct by (command, stated type, type of the key before, argument shape, error or not, number of keys)");
    let mut r = c.rng(4);
    for t in 0..8u8 {
        for rep in 0..c.scale(25, 200) {
            let mut h = Hist::new("P04", F04);
            let ks = gen::keys(&mut r, 5);
            let q = gen::set_req(&mut r, &ks[0], t, true, rep % 5 == 0);
            h.step(&q, Via::Builder);
            let t2 = r.below(8) as u8;
            let q = gen::set_req(&mut r, &ks[1], t2, true, false);
            h.step(&q, Via::Builder);
            let mv = |h: &mut Hist, a: usize, b: usize, r: &mut Rng| {
                let v = via(r);
                h.step(&req(RENAME, None, &[&ks[a], &ks[b]]), v);
                for k in [a, b] {
                    h.step(&req(GET, None, &[&ks[k]]), Via::Wire);
                    h.step(&req(TYPE, None, &[&ks[k]]), Via::Wire);
                    h.step(&req(EXISTS, None, &[&ks[k]]), Via::Wire);
                }
            };
            mv(&mut h, 0, 1, &mut r); // occupied
            mv(&mut h, 0, 0, &mut r); // itself
            mv(&mut h, 2, 3, &mut r); // missing
            mv(&mut h, 2, 0, &mut r); // missing onto occupied
            mv(&mut h, 2, 2, &mut r); // missing onto itself
            mv(&mut h, 0, 2, &mut r); // fine
            mv(&mut h, 0, 2, &mut r); // again
            mv(&mut h, 2, 0, &mut r); // back
            mv(&mut h, 0, 3, &mut r);
            mv(&mut h, 1, 0, &mut r); // into the vacated name
            mv(&mut h, 3, 4, &mut r);
            h.step(&req(DELETE, None, &[&ks[0]]), Via::Wire);
            mv(&mut h, 4, 0, &mut r); // into a deleted name
            // The moved value keeps working as what it is.
            let q = gen::append_req(&mut r, &ks[0], t, true, false);
            h.step(&q, Via::Builder);
            let q = gen::incr_req(&mut r, &ks[0], t);
            h.step(&q, Via::Builder);
            h.step(&req(RENAME, None, &[&ks[0], &ks[3], &ks[2]]), Via::Wire);
            probe(&mut h, &ks[3], &mut r);
            h.done();
        }
    }
    // Long chains and permutations through spare names among many keys.
    for i in 0..c.scale(60, 600) {
        let mut h = Hist::new("P04", F04);
        let n = if i % 10 == 0 { 60 } else { r.range(2, 12) };
        h.small = n <= 12;
        let ks = gen::keys(&mut r, n + 2);
        for k in &ks[..n] {
            let t = r.below(8) as u8;
            let q = gen::set_req(&mut r, k, t, true, false);
            h.step(&q, Via::Builder);
        }
        for _ in 0..200 {
            let (a, b) = (r.pick(&ks).clone(), r.pick(&ks).clone());
            let v = via(&mut r);
            h.step(&req(RENAME, None, &[&a, &b]), v);
        }
        h.compare(true, &[]);
        h.done();
    }
    wear("P04", &[RENAME]);
    histories("P04", F04, &[RENAME, SET, DELETE], 4000, 1.0);
}

/// P05 judges every request by the database and the reply buffer before and after alone.
pub fn p05() {
    let c = ctx();
    rule("a case is one dispatched request with the whole database and reply buffer captured before and after; distinct by (command, stated type, type of the key, argument shape, outcome, whether the buffer held anything)");
    assume("the observation hook State::verif_for_each visits every stored entry");
    let mut i = 0u64;
    let mut ok = 0u64;
    let mut bad = 0u64;
    while !c.over() || i < 300 {
        let mut r = c.rng(5000 + i);
        i += 1;
        let h = crate::eng::hop();
        let nk = r.range(2, 9);
        let keys = gen::keys(&mut r, nk);
        let mut log: Vec<String> = vec![];
        let mut before = dump(&h);
        let n = r.range(20, 60);
        let mut buf: Vec<u8> = vec![];
        for _ in 0..n {
            let q = if r.chance(1, 3) { faulty(&mut r, &keys) } else { gen::any_req(&mut r, &keys, &|k| before.get(k).map(|v| v.kind()), false) };
            // The reply buffer keeps growing, starts over, or begins with arbitrary bytes.
            match r.below(4) {
                0 => buf = vec![],
                1 => {
                    let n = r.range(1, 40);
                    buf = gen::blob(&mut r, n)
                }
                _ => {
                    if buf.len() > 100_000 {
                        buf.clear()
                    }
                }
            }
            let prefix = buf.clone();
            let v = via(&mut r);
            let raw = match dispatch(&h, &q, &prefix, v) {
                Ok(raw) => raw,
                Err(e) => fail("P05: a request panicked", format!("{}\n{q:?}: {e}", log.join("\n"))),
            };
            let after = dump(&h);
            log.push(format!("{q:?} -> {:?}", raw.res.map_err(err_name)));
            let w = |x: &str| format!("{}\n{x}", log.join("\n"));
            let kind = q.args.first().and_then(|k| before.get(k)).map(|v| v.kind());
            distinct(&(q.cmd, q.kt, kind, q.args.len().min(20), raw.res, prefix.is_empty()));
            eval(1);
            match raw.res {
                Err(_) => {
                    bad += 1;
                    if after != before {
                        fail("P05: a failed command changed the database", w(&diff(&before, &after)));
                    }
                    if raw.buf != prefix {
                        fail("P05: a failed command changed the reply buffer", w(&format!("before {} after {}", hex(&prefix), hex(&raw.buf))));
                    }
                }
                Ok(()) => {
                    ok += 1;
                    if !raw.buf.starts_with(&prefix) {
                        fail("P05: a success changed what the reply buffer already held", w(&format!("before {} after {}", hex(&prefix), hex(&raw.buf))));
                    }
                    match decode_all(&raw.buf[prefix.len()..]) {
                        Ok(v) if v.len() == 1 => {}
                        Ok(v) => fail("P05: a success didn't append exactly one reply", w(&format!("{} replies", v.len()))),
                        Err(e) => fail("P05: a success appended a malformed reply", w(&e)),
                    }
                    if model::is_read_only(q.cmd) {
                        if after != before {
                            fail("P05: a read-only command changed the database", w(&diff(&before, &after)));
                        }
                    } else {
                        let named: Vec<&Vec<u8>> = q.args.iter().take(if q.cmd == RENAME { 2 } else { 1 }).collect();
                        for (k, v) in before.iter().chain(after.iter()) {
                            if !named.contains(&k) && before.get(k) != after.get(k) {
                                fail("P05: a write changed a key that it doesn't name", w(&format!("key {} value {v:?}\n{}", hex(k), diff(&before, &after))));
                            }
                        }
                    }
                }
            }
            buf = raw.buf;
            before = after;
        }
        sample(|| log.iter().take(5).cloned().collect::<Vec<_>>().join("; "));
    }
    count("histories", i);
    count("successes_judged", ok);
    count("failures_judged", bad);
    // Failures in front of values at their limits.
    let h = crate::eng::hop();
    let mut a = vec![b"l".to_vec()];
    a.extend((0..254).map(|i| vec![i as u8]));
    let q = Req { cmd: APPEND, kt: Some(LIST), args: a };
    for _ in 0..258 {
        run(&h, &q, Via::Builder).ok();
    }
    let before = dump(&h);
    let raw = dispatch(&h, &q, b"abc", Via::Builder).unwrap_or_else(|e| fail("P05: panic", e));
    if raw.res.is_err() && (dump(&h) != before || raw.buf != b"abc") {
        fail("P05: a failed append to a full list changed something", format!("{q:?}"));
    }
}

fn diff(a: &Db, b: &Db) -> String {
    let mut s = String::new();
    for (k, v) in a {
        if b.get(k) != Some(v) {
            let _ = writeln!(s, "key {}: before {v:?}, after {:?}", hex(k), b.get(k));
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            let _ = writeln!(s, "key {}: before missing, after {v:?}", hex(k));
        }
    }
    s
}

/// A request that is likely wrong in some way.
fn faulty(r: &mut Rng, keys: &[Vec<u8>]) -> Req {
    let cmd = *r.pick(&ALL);
    let kt = if r.chance(1, 2) { None } else { Some(r.below(8) as u8) };
    let mut a: Vec<Vec<u8>> = vec![];
    if cmd != STATS {
        for _ in 0..r.below(5) {
            a.push(match r.below(10) {
                0..=4 => r.pick(keys).clone(),
                5 => gen::bad_text(r),
                6 => vec![],
                7 => b"__hop__:x".to_vec(),
                8 => {
                    let n = r.below(10);
                    r.bytes(n)
                }
                _ => {
                    let n = *r.pick(&[256usize, 300, 65536]);
                    gen::blob(r, n)
                }
            });
        }
    }
    if kt.is_some_and(|t| t != INT && t != FLOAT) && matches!(cmd, INCR | DECR | INCRBY | DECRBY) {
        return req(cmd, None, &a);
    }
    Req { cmd, kt, args: a }
}

pub fn p06() {
    let c = ctx();
    rule("a case is one request in one database state; the matrix is every command x stated type x state of the key x argument shape, then random histories rich in faults; distinct by (command, stated type, type of the key, argument count and lengths, error or not)");
    let mut r = c.rng(6);
    let mut cells = 0u64;
    for rep in 0..c.scale(1, 6) {
        for have in [None, Some(BYTES), Some(BOOL), Some(FLOAT), Some(INT), Some(STR), Some(LIST), Some(MAP), Some(SETT)] {
            let k: Vec<u8> = if rep == 0 { b"key".to_vec() } else { gen::keys(&mut r, 1).pop().unwrap() };
            let shapes: Vec<Vec<Vec<u8>>> = {
                let k = k.clone();
                vec![
                    vec![],
                    vec![k.clone()],
                    vec![vec![]],
                    vec![vec![], b"x".to_vec()],
                    vec![b"__hop__:k".to_vec()],
                    vec![b"__hop__:".to_vec(), b"x".to_vec()],
                    vec![k.clone(), vec![]],
                    vec![k.clone(), b"x".to_vec()],
                    vec![k.clone(), b"1234567".to_vec()],
                    vec![k.clone(), b"12345678".to_vec()],
                    vec![k.clone(), b"123456789".to_vec()],
                    vec![k.clone(), b"\xff\xfe".to_vec()],
                    vec![k.clone(), b"a".to_vec(), b"\xff".to_vec()],
                    vec![k.clone(), b"a".to_vec(), b"b".to_vec()],
                    vec![k.clone(), b"a".to_vec(), b"b".to_vec(), b"c".to_vec()],
                    vec![k.clone(), b"other".to_vec()],
                    vec![k.clone(), k.clone()],
                    vec![k.clone(), b"absent".to_vec()],
                    vec![k.clone(), b"__hop__:z".to_vec()],
                    vec![b"absent".to_vec(), k.clone()],
                    vec![b"absent".to_vec(), b"other".to_vec()],
                    vec![k.clone(), b"a".to_vec(), vec![]],
                    vec![k.clone(), vec![b'k'; 256], b"v".to_vec()],
                    vec![k.clone(), vec![b'k'; 255], b"v".to_vec()],
                    vec![k.clone(), vec![b'k'; 65536]],
                    vec![k.clone(), vec![b'k'; 65535]],
                    vec![k.clone(), b"a".to_vec(), b"b".to_vec(), vec![b'k'; 256], b"v".to_vec()],
                ]
            };
            for cmd in ALL {
                for kt in (0..9u8).map(|t| if t == 8 { None } else { Some(t) }) {
                    for a in &shapes {
                        if cmd == STATS && !a.is_empty() {
                            continue;
                        }
                        let mut h = Hist::new("P06", &[]);
                        h.small = false;
                        if let Some(t) = have {
                            let q = gen::set_req(&mut r, &k, t, true, false);
                            h.step(&q, Via::Builder);
                        }
                        h.step(&req(SET, Some(STR), &[&b"other"[..], b"o"]), Via::Builder);
                        let q = Req { cmd, kt, args: a.clone() };
                        h.step(&q, if rep % 2 == 0 { Via::Wire } else { Via::Builder });
                        h.compare(false, &[]);
                        cells += 1;
                        eval(1);
                        distinct_many(&h.fps);
                    }
                }
            }
        }
        if c.over_frac(0.7) {
            break;
        }
    }
    count("matrix_cells", cells);
    let mut i = 0u64;
    while !c.over() || i < 100 {
        let mut r = c.rng(6000 + i);
        i += 1;
        let mut h = Hist::new("P06", &[]);
        let n = r.range(1, 6);
        let keys = gen::keys(&mut r, n);
        h.small = false;
        for _ in 0..r.range(20, 120) {
            let q = if r.chance(1, 2) {
                faulty(&mut r, &keys)
            } else {
                let db = &h.db;
                gen::any_req(&mut r, &keys, &|k| db.get(k).map(|v| v.kind()), false)
            };
            let v = via(&mut r);
            h.step(&q, v);
        }
        h.done();
    }
    count("random_histories", i);
}

pub fn p07() {
    let c = ctx();
    rule("a case is one dispatched request; distinct by (command, stated type, type of the key, argument count, argument lengths, outcome)");
    assume("a dispatch that takes longer than 45 s on these small databases is a hang");
    let mut r = c.rng(7);
    let mut i = 0u64;
    let mut n_req = 0u64;
    let lens: &[usize] = &[0, 0, 1, 1, 2, 7, 8, 9, 100, 255, 256, 257, 65535, 65536, 70000];
    while !c.over() || i < 50 {
        i += 1;
        let h = crate::eng::hop();
        let nk = r.range(1, 6);
        let mut keys = gen::keys(&mut r, nk);
        keys.push(vec![]);
        keys.push(b"__hop__:".to_vec());
        keys.push(b"__hop__:foo".to_vec());
        let mut log: Vec<String> = vec![];
        let mut dec_kinds = dump(&h);
        for _ in 0..r.range(20, 150) {
            let q = match r.below(4) {
                0 => {
                    let big = r.chance(1, 10);
                    gen::any_req(&mut r, &keys, &|k| dec_kinds.get(k).map(|v| v.kind()), big)
                }
                1 => faulty(&mut r, &keys),
                _ => {
                    let cmd = *r.pick(&ALL);
                    let kt = if r.chance(1, 3) { None } else { Some(r.below(8) as u8) };
                    let n = match r.below(12) {
                        0..=6 => r.below(5),
                        7 => 255,
                        8 => 254,
                        9 => r.below(256),
                        _ => *r.pick(&[1, 2, 3, 127, 128, 129, 253]),
                    };
                    let mut a = vec![];
                    if cmd != STATS {
                        for j in 0..n {
                            a.push(if j < 2 && r.chance(4, 5) {
                                r.pick(&keys).clone()
                            } else {
                                let mut l = *r.pick(lens);
                                if n > 4 && l > 300 {
                                    l = 3;
                                }
                                if r.chance(1, 5) {
                                    gen::bad_text(&mut r)
                                } else {
                                    gen::blob(&mut r, l)
                                }
                            });
                        }
                    }
                    Req { cmd, kt, args: a }
                }
            };
            describe(format!("{q:?}"));
            let kind = q.args.first().and_then(|k| dec_kinds.get(k)).map(|v| v.kind());
            let v = via(&mut r);
            n_req += 1;
            eval(1);
            let got = dispatch(&h, &q, &[], v);
            let w = |log: &[String], x: &str| format!("{}\n{q:?} -> {x}", log.join("\n"));
            let raw = match got {
                Ok(raw) => raw,
                Err(e) => fail("P07: a request panicked", w(&log, &e)),
            };
            if raw.res.is_ok() {
                if let Err(e) = decode_all(&raw.buf) {
                    fail("P07: a reply can't be decoded", w(&log, &e));
                }
                own_decode(&raw.buf, &|e| w(&log, e));
            }
            let shape: Vec<usize> = q.args.iter().take(3).map(|a| a.len().min(300)).collect();
            distinct(&(q.cmd, q.kt, kind, q.args.len(), shape, raw.res));
            log.push(format!("{q:?} -> {:?}", raw.res.map_err(err_name)));
            dec_kinds = dump(&h);
            if dec_kinds.values().map(|v| v.bytes_len()).sum::<usize>() > 3_000_000 {
                break;
            }
        }
        // Whatever happened, every key and the database can be used.
        let d = dump(&h);
        let mut probes: Vec<Vec<u8>> = keys.iter().filter(|k| key_ok(Some(k))).cloned().collect();
        probes.extend(d.keys().filter(|k| key_ok(Some(k))).cloned());
        for k in &probes {
            let (lo, w) = (log.join("\n"), hex(k));
            let must = |q: Req, ok: &dyn Fn(&Reply) -> bool| {
                describe(format!("{q:?}"));
                match run(&h, &q, Via::Wire) {
                    Ok(rep) if ok(&rep) => {}
                    other => fail("P07: a key or the database can't be used anymore", format!("{lo}\nkey {w}: {q:?} -> {other:?}")),
                }
            };
            let had = d.get(k).is_some();
            must(req(EXISTS, None, &[k]), &|r| *r == Reply::Val(MVal::Bool(had)));
            must(req(GET, None, &[k]), &|r| matches!(r, Reply::Val(_)) == had);
            must(req(SET, Some(LIST), &[&k[..], b"a", b"b"]), &|r| matches!(r, Reply::Val(MVal::List(l)) if l.len() == 2));
            must(req(APPEND, None, &[&k[..], b"c"]), &|r| matches!(r, Reply::Val(MVal::List(l)) if l.len() == 3));
            must(req(DELETE, None, &[k]), &|r| matches!(r, Reply::Val(_)));
            must(req(INCR, None, &[k]), &|r| *r == Reply::Val(MVal::Int(1)));
        }
        sample(|| log.iter().take(5).cloned().collect::<Vec<_>>().join("; "));
    }
    count("histories", i);
    count("requests", n_req);
    // Values as large as requests can make them, in all commands that read them.
    let h = crate::eng::hop();
    let full: Vec<Vec<u8>> = (0..254).map(|i| vec![b'a' + (i % 26) as u8; 300 + i]).collect();
    let mut sets = vec![];
    for t in [LIST, SETT, MAP] {
        let mut a = vec![vec![b'k', t]];
        for (j, x) in full.iter().enumerate() {
            let mut x = x.clone();
            if t == MAP && j % 2 == 0 {
                x.truncate(200);
                x[0] = j as u8;
            }
            a.push(x);
        }
        sets.push(Req { cmd: SET, kt: Some(t), args: a });
    }
    let mut a = vec![b"b".to_vec(), vec![7; 5_000_000]];
    sets.push(Req { cmd: SET, kt: Some(BYTES), args: a.clone() });
    a[0] = b"s".to_vec();
    sets.push(Req { cmd: SET, kt: Some(STR), args: a });
    for q in &sets {
        let k = q.args[0].clone();
        for q in [q.clone(), req(GET, None, &[&k]), req(LENGTH, None, &[&k]), req(KEYS, None, &[&k]), req(APPEND, None, &[&k[..], b"x"]), req(TYPE, None, &[&k])] {
            describe(format!("{q:?}"));
            match dispatch(&h, &q, &[], Via::Wire) {
                Err(e) => fail("P07: a request panicked", format!("{q:?}: {e}")),
                Ok(raw) => {
                    if let (Ok(()), Err(e)) = (raw.res, decode_all(&raw.buf)) {
                        fail("P07: a reply can't be decoded", format!("{q:?}: {e}"));
                    }
                }
            }
            n_req += 1;
        }
    }
    // The limits of growth: a full list, and a long life of one key.
    let mut a = vec![b"grow".to_vec()];
    a.extend((0..254).map(|i| vec![i as u8]));
    let q = Req { cmd: APPEND, kt: Some(LIST), args: a };
    for _ in 0..262 {
        match run(&h, &q, Via::Builder) {
            Ok(_) => {}
            Err(e) => fail("P07: growing a list panicked or made an undecodable reply", format!("{q:?}: {e}")),
        }
        if let Err(e) = run(&h, &req(GET, None, &[b"grow"]), Via::Builder) {
            fail("P07: a long list can't be read", e);
        }
    }
    // Every size of an append around the last item that fits.
    for first in [65_532usize, 65_533, 65_534, 65_535] {
        for n in [1usize, 2, 3, 4, 5, 254] {
            for kt in [None, Some(LIST)] {
                let h = crate::eng::hop();
                h.state().insert(b"edge".to_vec(), to_value(&MVal::List(vec![vec![1]; first])));
                let mut a = vec![b"edge".to_vec()];
                a.extend((0..n).map(|i| vec![i as u8]));
                let q = Req { cmd: APPEND, kt, args: a };
                for q in [q, req(GET, None, &[b"edge"]), req(LENGTH, None, &[b"edge"])] {
                    n_req += 1;
                    if let Err(e) = run(&h, &q, Via::Builder) {
                        fail("P07: growing a list around its limit panicked or made an undecodable reply", format!("a list of {first} items, {n} appended: {q:?}: {e}"));
                    }
                }
                eval(1);
            }
        }
    }
    for i in 0..c.scale(30_000, 300_000) {
        let q = match i % 3 {
            0 => req(INCR, None, &[b"n"]),
            1 => req(DECRBY, None, &[b"n".to_vec(), i64::MIN.to_be_bytes().to_vec()]),
            _ => req(INCRBY, None, &[b"n".to_vec(), i64::MAX.to_be_bytes().to_vec()]),
        };
        if let Err(e) = run(&h, &q, Via::Builder) {
            fail("P07: arithmetic panicked", format!("{q:?} (repetition {i}): {e}"));
        }
    }
}

/// The reply can be read back by the engine's own decoder.
fn own_decode(b: &[u8], w: &dyn Fn(&str) -> String) {
    use hop_engine::command::response::{Context, Instruction};
    let r = cut(|| {
        let mut c = Context::new();
        match c.feed(b) {
            Ok(Instruction::Concluded(_)) => Ok(()),
            other => Err(format!("{other:?}")),
        }
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail("P07: a reply can't be decoded", w(&e)),
        Err(e) => fail("P07: decoding a reply panicked", w(&e)),
    }
}
