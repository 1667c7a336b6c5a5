//! P08-P10: many threads on one database. Histories are recorded at the request boundary and judged afterwards.
use crate::{alloc, common::*, eng::*, model, model::*, rng::Rng, wire::*};
use hop_engine::{command::request::Request, Hop};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fmt::Write as _,
    sync::atomic::{AtomicU64, AtomicUsize, Ordering},
};

/// Rendezvous that releases all threads at nearly the same instant.
pub struct Gate {
    n: usize,
    arrived: AtomicUsize,
    round: AtomicUsize,
}
impl Gate {
    pub fn new(n: usize) -> Self {
        Gate { n, arrived: AtomicUsize::new(0), round: AtomicUsize::new(0) }
    }
    pub fn wait(&self) {
        let r = self.round.load(Ordering::Acquire);
        if self.arrived.fetch_add(1, Ordering::AcqRel) + 1 == self.n {
            self.arrived.store(0, Ordering::Release);
            self.round.store(r + 1, Ordering::Release);
        } else {
            let mut i = 0u32;
            while self.round.load(Ordering::Acquire) == r {
                i += 1;
                if i > 2000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Noise {
    /// Delay at one in this many allocations.
    pub den: u32,
    /// Interrupt each thread this often.
    pub ns: u64,
}
impl Noise {
    pub fn pick(r: &mut Rng) -> Self {
        Noise { den: *r.pick(&[0, 0, 4, 8, 20, 60]), ns: *r.pick(&[0, 0, 0, 80_000, 150_000, 400_000]) }
    }
}

/// Run `f` on `n` threads and return what each returned.
pub fn parallel<R: Send>(n: usize, seed: u64, noise: Noise, f: impl Fn(usize, &mut Rng, &Gate) -> R + Sync) -> Vec<R> {
    let gate = Gate::new(n);
    let (f, gate) = (&f, &gate);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    let mut r = Rng::new(seed, t as u64 + 1);
                    alloc::perturb(r.next(), noise.den);
                    let p = alloc::Preempt::new(noise.ns);
                    let v = body(|| f(t, &mut r, gate));
                    drop(p);
                    alloc::perturb(1, 0);
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness thread")).collect()
    })
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

#[derive(Clone, Debug)]
pub struct Event {
    pub thread: usize,
    pub req: Req,
    pub call: u64,
    /// u64::MAX: never answered.
    pub ret: u64,
    pub reply: Option<Reply>,
}

pub fn show_history(h: &[Event]) -> String {
    let mut v: Vec<&Event> = h.iter().collect();
    v.sort_by_key(|e| e.call);
    let base = v.first().map_or(0, |e| e.call);
    let mut s = String::new();
    for e in v {
        let ret = if e.ret == u64::MAX { "never".into() } else { (e.ret - base).to_string() };
        let _ = writeln!(
            s,
            "thread {} [{}..{}] {:?} -> {}",
            e.thread,
            e.call - base,
            ret,
            e.req,
            e.reply.as_ref().map_or("no reply".into(), show_reply)
        );
    }
    s
}

/// Is there one order of all operations on one key that respects real time and explains every reply?
/// None: the search was cut short.
pub fn linearizable(init: &Db, h: &[Event]) -> Option<bool> {
    assert!(h.len() <= 60);
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut stack: Vec<(u64, Db)> = vec![(0, init.clone())];
    // Operations without a reply may or may not have taken effect.
    let need: u64 = h.iter().enumerate().filter(|(_, e)| e.reply.is_some()).fold(0, |m, (i, _)| m | 1 << i);
    let mut steps = 0u64;
    while let Some((mask, db)) = stack.pop() {
        if mask & need == need {
            return Some(true);
        }
        if !seen.insert((mask, hash64(&db))) {
            continue;
        }
        steps += 1;
        if steps > 2_000_000 {
            return None;
        }
        // The earliest return among the operations still to be placed.
        let first = h.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if mask >> i & 1 == 1 || e.call > first {
                continue;
            }
            let mut d = db.clone();
            let exp = model::apply(&mut d, &e.req);
            let ok = match &e.reply {
                Some(rep) => model::check(&mut d, &exp, rep).is_ok(),
                None => true,
            };
            if ok {
                stack.push((mask | 1 << i, d));
            }
        }
    }
    Some(false)
}

static UNIQ: AtomicU64 = AtomicU64::new(1);
pub fn uniq() -> u64 {
    UNIQ.fetch_add(1, Ordering::Relaxed)
}

/// A value that no other write of the run writes (except booleans).
pub fn unique_value(r: &mut Rng, kt: u8) -> MVal {
    let id = uniq();
    let s = |j: usize| format!("{id}.{j}").into_bytes();
    let n = *r.pick(&[1, 1, 2, 3, 5, 12]);
    match kt {
        BYTES => MVal::Bytes(if r.chance(1, 6) { s(0).repeat(200) } else { s(0) }),
        STR => MVal::Str(if r.chance(1, 6) { s(0).repeat(200) } else { s(0) }),
        BOOL => MVal::Bool(r.chance(1, 2)),
        INT => MVal::Int(id as i64 * 1000),
        FLOAT => MVal::f(id as f64 * 1000.0),
        LIST => MVal::List((0..n).map(s).collect()),
        MAP => MVal::Map((0..n).map(|j| (format!("k{j}").into_bytes(), s(j))).collect()),
        _ => MVal::Set((0..n).map(s).collect()),
    }
}

pub fn set_of(key: &[u8], v: &MVal, typed: bool) -> Req {
    let mut a = vec![key.to_vec()];
    a.extend(v.to_args());
    Req { cmd: SET, kt: if typed { Some(v.kind()) } else { None }, args: a }
}

/// One command on `key`. `ty`: all values of the round have this type, so untyped requests are fine too.
pub fn conc_op(r: &mut Rng, key: &[u8], ty: Option<u8>, bias: usize) -> Req {
    let t = ty.unwrap_or_else(|| r.below(8) as u8);
    let un = ty.is_some() && r.chance(1, 4);
    let kt = if un { None } else { Some(t) };
    let roll = match bias {
        // Mostly writes, mostly creation and deletion, or everything.
        0 => *r.pick(&[0, 1, 2, 5, 8, 9, 10, 11]),
        1 => *r.pick(&[0, 3, 3, 4, 8, 9, 10]),
        _ => r.below(14),
    };
    match roll {
        0..=2 => {
            let v = unique_value(r, t);
            // A set that names no type on a new key stores bytes.
            set_of(key, &v, true)
        }
        3 => req(DELETE, None, &[key]),
        4 => req(EXISTS, None, &[key]),
        5 | 6 => req(GET, kt, &[key]),
        7 => match r.below(3) {
            0 => req(TYPE, None, &[key]),
            1 => req(IS, Some(t), &[key]),
            _ => req(LENGTH, Some(t), &[key]),
        },
        8 | 9 if matches!(t, INT | FLOAT) => {
            let cmd = *r.pick(&[INCR, DECR, INCRBY, DECRBY]);
            let mut a = vec![key.to_vec()];
            if matches!(cmd, INCRBY | DECRBY) {
                let x = r.range(1, 99);
                a.push(if t == INT { (x as i64).to_be_bytes().to_vec() } else { (x as f64).to_be_bytes().to_vec() });
            }
            Req { cmd, kt: Some(t), args: a }
        }
        10 | 11 | 8 | 9 if matches!(t, BYTES | STR | LIST) => {
            let id = uniq();
            let n = *r.pick(&[0, 1, 1, 2, 3]);
            let mut a = vec![key.to_vec()];
            for j in 0..n {
                a.push(format!("<{id}.{j}>").into_bytes());
            }
            Req { cmd: APPEND, kt: Some(t), args: a }
        }
        _ => {
            if r.chance(1, 2) {
                req(GET, kt, &[key])
            } else {
                set_of(key, &unique_value(r, t), true)
            }
        }
    }
}

/// Dispatch for real, remembering when. A panic ends the run.
fn go(h: &Hop, q: &Request, r: &Req, buf: &mut Vec<u8>, prop: &str) -> (u64, u64, Result<(), u8>) {
    buf.clear();
    let call = tick();
    let res = cut(|| h.dispatch(q, buf).map_err(derr));
    let ret = tick();
    match res {
        Ok(x) => (call, ret, x),
        Err(e) => fail(&format!("{prop}: a concurrent request panicked"), format!("{r:?}: {e}")),
    }
}

struct Round {
    init: Vec<Req>,
    keys: Vec<Vec<u8>>,
    ops: Vec<Vec<Req>>,
}

pub fn p08() {
    let c = ctx();
    rule("a case is one round: 2-5 threads run 2-6 commands each on 1-2 keys of a shared database, released together, under random preemption and allocation delays; non-trivial when at least two commands on a key overlapped in time; distinct by the order of all calls and returns with their commands and kinds of reply");
    assume("schedules are perturbed (preemption timers, delays at allocations), not enumerated");
    let mut batch = 0u64;
    let (mut rounds, mut overlapped, mut nops, mut cut_short) = (0u64, 0u64, 0u64, 0u64);
    while !c.over() || batch < 10 {
        batch += 1;
        let mut r = c.rng(8000 + batch);
        let noise = Noise::pick(&mut r);
        let n = r.range(2, 5);
        let hop = crate::eng::hop();
        let rs: Vec<Round> = (0..c.scale(120, 120))
            .map(|i| {
                let nk = r.range(1, 2);
                let keys: Vec<Vec<u8>> = (0..nk).map(|k| format!("r{i}.{k}").into_bytes()).collect();
                let ty = if r.chance(3, 5) { Some(r.below(8) as u8) } else { None };
                let bias = r.below(4);
                let init = keys
                    .iter()
                    .filter_map(|k| {
                        if r.chance(1, 2) {
                            let t = ty.unwrap_or_else(|| r.below(8) as u8);
                            Some(set_of(k, &unique_value(&mut r, t), true))
                        } else {
                            None
                        }
                    })
                    .collect();
                let per = if n > 3 { 4 } else { 6 };
                let ops = (0..n)
                    .map(|_| {
                        let m = r.range(2, per);
                        (0..m)
                            .map(|_| {
                                let k = r.pick(&keys).clone();
                                conc_op(&mut r, &k, ty, bias)
                            })
                            .collect()
                    })
                    .collect();
                Round { init, keys, ops }
            })
            .collect();
        describe(format!("batch {batch} of concurrent rounds"));
        let out = parallel(n, r.next(), noise, |t, _, gate| {
            let mut evs: Vec<Vec<Event>> = vec![];
            let mut buf = Vec::with_capacity(4096);
            for rd in &rs {
                let qs: Vec<Request> = rd.ops[t].iter().map(|q| built(q).expect("builds")).collect();
                if t == 0 {
                    for q in &rd.init {
                        if !matches!(run(&hop, q, Via::Builder), Ok(Reply::Val(_))) {
                            fail("P08: storing the first value of a round failed", format!("{q:?}"));
                        }
                    }
                }
                gate.wait();
                let mut ev = vec![];
                for (q, rq) in qs.iter().zip(&rd.ops[t]) {
                    let (call, ret, res) = go(&hop, q, rq, &mut buf, "P08");
                    let reply = match reply_of(&res, &buf) {
                        Ok(r) => r,
                        Err(e) => fail("P08: a reply isn't one complete message", format!("{rq:?}: {e}")),
                    };
                    ev.push(Event { thread: t, req: rq.clone(), call, ret, reply: Some(reply) });
                }
                gate.wait();
                evs.push(ev);
            }
            evs
        });
        let fin = dump(&hop);
        let mut fps = vec![];
        for (i, rd) in rs.iter().enumerate() {
            rounds += 1;
            eval(1);
            let mut sig: Vec<(u64, usize, bool, u8)> = vec![];
            let mut any = false;
            for k in &rd.keys {
                let mut h: Vec<Event> =
                    out.iter().flat_map(|t| t[i].iter().filter(|e| &e.req.args[0] == k).cloned()).collect();
                nops += h.len() as u64;
                any |= h.iter().any(|a| h.iter().any(|b| a.thread < b.thread && a.call < b.ret && b.call < a.ret));
                for e in &h {
                    let kind = match e.reply.as_ref().unwrap() {
                        Reply::Val(v) => v.kind(),
                        Reply::Err(x) => 16 + x,
                        _ => 99,
                    };
                    sig.push((e.call, e.thread, false, e.req.cmd));
                    sig.push((e.ret, e.thread, true, kind));
                }
                let mut init = Db::new();
                for q in rd.init.iter().filter(|q| &q.args[0] == k) {
                    model::apply(&mut init, q);
                }
                // What the key holds afterwards has to be explained as well.
                let t = tick();
                let last = match fin.get(k) {
                    Some(v) => Event { thread: 99, req: req(GET, None, &[k]), call: t, ret: tick(), reply: Some(Reply::Val(v.clone())) },
                    None => Event { thread: 99, req: req(GET, None, &[k]), call: t, ret: tick(), reply: Some(Reply::Err(E_MISSING)) },
                };
                h.push(last);
                match linearizable(&init, &h) {
                    Some(true) => {}
                    Some(false) => fail(
                        "P08: no single order of the concurrent requests explains the replies",
                        format!("before: {init:?}\n{}", show_history(&h)),
                    ),
                    None => cut_short += 1,
                }
            }
            if any {
                overlapped += 1;
                sig.sort();
                let s: Vec<(usize, bool, u8)> = sig.iter().map(|x| (x.1, x.2, x.3)).collect();
                fps.push(hash64(&s));
            }
            if any && i == 7 {
                sample(|| out.iter().flat_map(|t| t[i].iter()).map(|e| format!("t{} {:?}", e.thread, e.req)).collect::<Vec<_>>().join(" | "));
            }
        }
        distinct_many(&fps);
    }
    count("rounds", rounds);
    count("rounds_with_overlap", overlapped);
    count("operations", nops);
    count("searches_cut_short", cut_short);
    count("preemptions", alloc::PREEMPTIONS.load(Ordering::Relaxed));
    if overlapped < 20 {
        inconclusive("too few rounds had overlapping requests");
    }
}

// ---- P09 ------------------------------------------------------------------------------------

fn int_of(r: &Reply) -> Option<i64> {
    match r {
        Reply::Val(MVal::Int(i)) => Some(*i),
        _ => None,
    }
}

/// Counters: positive amounts, so the replies themselves tell the order.
fn counters(r: &mut Rng, rounds: usize, n: usize, per: usize, noise: Noise) {
    let hop = crate::eng::hop();
    struct Rd {
        key: Vec<u8>,
        start: Option<i64>,
        float: bool,
        neg: bool,
        ops: Vec<Vec<(Req, i64)>>,
    }
    let rs: Vec<Rd> = (0..rounds)
        .map(|i| {
            let key = format!("c{i}").into_bytes();
            let float = r.chance(1, 3);
            let start = if r.chance(1, 4) { Some(r.below(1000) as i64) } else { None };
            let neg = r.chance(1, 3);
            let ones = r.chance(1, 2);
            let untyped = r.chance(1, 3) && (!float || start.is_some());
            let ops = (0..n)
                .map(|_| {
                    (0..per)
                        .map(|_| {
                            let x = if ones { 1 } else { r.range(1, 50) as i64 };
                            let by = x != 1 || r.chance(1, 3);
                            let kt = if untyped && r.chance(1, 2) { None } else { Some(if float { FLOAT } else { INT }) };
                            let mut a = vec![key.clone()];
                            // Adding a negative amount is subtracting.
                            let flip = by && r.chance(1, 4);
                            if by {
                                let y = if flip { -x } else { x };
                                a.push(if float { (y as f64).to_be_bytes().to_vec() } else { y.to_be_bytes().to_vec() });
                            }
                            let cmd = match (neg != flip, by) {
                                (false, false) => INCR,
                                (true, false) => DECR,
                                (false, true) => INCRBY,
                                (true, true) => DECRBY,
                            };
                            (Req { cmd, kt, args: a }, x)
                        })
                        .collect()
                })
                .collect();
            Rd { key, start, float, neg, ops }
        })
        .collect();
    let out = parallel(n, r.next(), noise, |t, _, gate| {
        let mut all = vec![];
        let mut buf = vec![];
        for rd in &rs {
            let qs: Vec<Request> = rd.ops[t].iter().map(|(q, _)| built(q).expect("builds")).collect();
            if t == 0 {
                if let Some(s) = rd.start {
                    let v = if rd.float { MVal::f(s as f64) } else { MVal::Int(s) };
                    run(&hop, &set_of(&rd.key, &v, true), Via::Builder).ok();
                }
            }
            gate.wait();
            let mut v = Vec::with_capacity(qs.len());
            for (q, (rq, _)) in qs.iter().zip(&rd.ops[t]) {
                let (_, _, res) = go(&hop, q, rq, &mut buf, "P09");
                v.push(reply_of(&res, &buf));
            }
            gate.wait();
            all.push(v);
        }
        all
    });
    for (i, rd) in rs.iter().enumerate() {
        eval(1);
        let sign = if rd.neg { -1 } else { 1 };
        let start = rd.start.unwrap_or(0);
        let mut got: Vec<(i64, i64, usize)> = vec![];
        let w = |x: &str| {
            let mut s = format!("{x}\nkey {} start {:?} float {} noise {noise:?}\n", hex(&rd.key), rd.start, rd.float);
            for t in 0..n {
                for (j, (q, _)) in rd.ops[t].iter().enumerate().take(60) {
                    let _ = writeln!(s, "thread {t}: {q:?} -> {:?}", out[t][i][j]);
                }
            }
            s
        };
        let mut order = vec![];
        for t in 0..n {
            let mut last = start;
            for (j, (_, x)) in rd.ops[t].iter().enumerate() {
                let v = match &out[t][i][j] {
                    Ok(Reply::Val(MVal::Float(b))) if rd.float && f64::from_bits(*b).fract() == 0.0 => f64::from_bits(*b) as i64,
                    Ok(rep) if !rd.float && int_of(rep).is_some() => int_of(rep).unwrap(),
                    _ => fail("P09: a concurrent increment failed or replied something else", w("")),
                };
                if (v - last) * sign <= 0 {
                    fail("P09: one client's replies don't progress", w(""));
                }
                last = v;
                got.push((v * sign, *x, t));
            }
        }
        got.sort();
        let mut sum = start * sign;
        for (v, x, t) in &got {
            sum += x;
            order.push(*t);
            if *v != sum {
                fail("P09: an update was lost or applied twice", w(&format!("replies in order don't add up: expected {}, got {}", sum * sign, v * sign)));
            }
        }
        let want = if rd.float { MVal::f((sum * sign) as f64) } else { MVal::Int(sum * sign) };
        match run(&hop, &req(GET, None, &[&rd.key]), Via::Builder) {
            Ok(Reply::Val(v)) if v == want || matches!((&v, &want), (MVal::Float(a), MVal::Float(b)) if f64::from_bits(*a) == f64::from_bits(*b)) => {}
            other => fail("P09: the final number isn't the sum of all amounts", w(&format!("expected {want:?}, got {other:?}"))),
        }
        count("updates_accounted", got.len() as u64);
        // The order in which the threads took effect.
        if order.windows(2).filter(|p| p[0] != p[1]).count() >= n {
            count("counter_rounds_interleaved", 1);
            distinct(&(rd.float, rd.start.is_some(), &order[..order.len().min(40)]));
        }
    }
}

/// Pieces appended by everyone to one value.
fn appends(r: &mut Rng, rounds: usize, n: usize, per: usize, noise: Noise) {
    let hop = crate::eng::hop();
    struct Rd {
        key: Vec<u8>,
        kt: u8,
        start: bool,
        ops: Vec<Vec<Req>>,
    }
    let rs: Vec<Rd> = (0..rounds)
        .map(|i| {
            let key = format!("a{i}").into_bytes();
            let kt = *r.pick(&[BYTES, STR, LIST]);
            let start = r.chance(1, 3);
            let ops = (0..n)
                .map(|t| {
                    (0..per)
                        .map(|j| {
                            let mut a = vec![key.clone()];
                            let m = *r.pick(&[1, 1, 1, 2, 4, 9]);
                            for p in 0..m {
                                let pad = "é".repeat(*r.pick(&[0, 0, 1, 7, 30]));
                                a.push(format!("<{t},{j},{p},{m},{pad}>").into_bytes());
                            }
                            // Without a type the type of the key is used, and bytes for a new key.
                            let un = (start || kt == BYTES) && r.chance(1, 3);
                            Req { cmd: APPEND, kt: if un { None } else { Some(kt) }, args: a }
                        })
                        .collect()
                })
                .collect();
            Rd { key, kt, start, ops }
        })
        .collect();
    let out = parallel(n, r.next(), noise, |t, _, gate| {
        let mut all = vec![];
        let mut buf = vec![];
        for rd in &rs {
            let qs: Vec<Request> = rd.ops[t].iter().map(|q| built(q).expect("builds")).collect();
            if t == 0 && rd.start {
                let v = match rd.kt {
                    BYTES => MVal::Bytes(b"<start>".to_vec()),
                    STR => MVal::Str(b"<start>".to_vec()),
                    _ => MVal::List(vec![b"<start>".to_vec()]),
                };
                run(&hop, &set_of(&rd.key, &v, true), Via::Builder).ok();
            }
            gate.wait();
            let mut v = Vec::with_capacity(qs.len());
            for (q, rq) in qs.iter().zip(&rd.ops[t]) {
                let (_, _, res) = go(&hop, q, rq, &mut buf, "P09");
                v.push(reply_of(&res, &buf));
            }
            gate.wait();
            all.push(v);
        }
        all
    });
    fn pieces(v: &MVal) -> Vec<Vec<u8>> {
        match v {
            MVal::List(l) => l.clone(),
            MVal::Bytes(b) | MVal::Str(b) => b.split_inclusive(|c| *c == b'>').map(|x| x.to_vec()).collect(),
            _ => vec![],
        }
    }
    for (i, rd) in rs.iter().enumerate() {
        eval(1);
        let w = |x: &str| {
            let mut s = format!("{x}\nkey {} {} start {} noise {noise:?}\n", hex(&rd.key), type_name(rd.kt), rd.start);
            for t in 0..n {
                for (j, q) in rd.ops[t].iter().enumerate().take(40) {
                    let _ = writeln!(s, "thread {t}: {q:?} -> {:?}", out[t][i][j]);
                }
            }
            s
        };
        let fin = match run(&hop, &req(GET, None, &[&rd.key]), Via::Builder) {
            Ok(Reply::Val(v)) if v.kind() == rd.kt => v,
            other => fail("P09: the appended key has no value of its type", w(&format!("{other:?}"))),
        };
        let fp = pieces(&fin);
        // Exactly the pieces of every request, whole, each client's in order.
        let mut next = vec![0usize; n];
        let mut k = 0;
        let mut order = vec![];
        let mut place: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        if rd.start {
            if fp.first().map(|x| &x[..]) != Some(b"<start>") {
                fail("P09: the value before the appends was lost", w(&format!("final {fin:?}")));
            }
            k = 1;
        }
        while k < fp.len() {
            let t = (0..n).find(|t| rd.ops[*t].get(next[*t]).is_some_and(|q| q.args[1] == fp[k]));
            let Some(t) = t else {
                fail("P09: appended pieces were lost, duplicated, torn or reordered", w(&format!("at piece {k} {} of the final value {fin:?}", hex(&fp[k]))))
            };
            let q = &rd.ops[t][next[t]];
            let m = q.args.len() - 1;
            if fp.get(k..k + m) != Some(&q.args[1..]) {
                fail("P09: the pieces of one append were torn apart", w(&format!("at piece {k} of the final value {fin:?}")));
            }
            k += m;
            place.insert((t, next[t]), k);
            order.push(t);
            next[t] += 1;
        }
        if (0..n).any(|t| next[t] != rd.ops[t].len()) {
            fail("P09: acknowledged pieces are missing from the final value", w(&format!("final {fin:?}")));
        }
        for t in 0..n {
            for (j, rep) in out[t][i].iter().enumerate() {
                match rep {
                    Ok(Reply::Val(v)) if v.kind() == rd.kt => {
                        let p = pieces(v);
                        if fp.get(..p.len()) != Some(&p[..]) || place[&(t, j)] != p.len() {
                            fail("P09: an append's reply isn't the value that it made", w(&format!("thread {t} append {j}")));
                        }
                    }
                    _ => fail("P09: a concurrent append failed", w(&format!("thread {t} append {j}"))),
                }
            }
        }
        count("pieces_accounted", fp.len() as u64);
        if order.windows(2).filter(|p| p[0] != p[1]).count() >= n {
            count("append_rounds_interleaved", 1);
            distinct(&(rd.kt, rd.start, &order[..order.len().min(40)]));
        }
    }
}

/// Whole values written over each other while others look.
fn rewrites(r: &mut Rng, rounds: usize, n: usize, per: usize, noise: Noise) {
    let hop = crate::eng::hop();
    struct Rd {
        key: Vec<u8>,
        init: Option<MVal>,
        mixed: bool,
        ops: Vec<Vec<Option<MVal>>>,
    }
    let rs: Vec<Rd> = (0..rounds)
        .map(|i| {
            let kt = r.below(8) as u8;
            let mixed = r.chance(1, 3);
            let init = if r.chance(2, 3) { Some(unique_value(r, kt)) } else { None };
            let ops = (0..n)
                .map(|t| {
                    (0..per)
                        .map(|_| {
                            if t > 0 && r.chance(1, 2) {
                                None
                            } else {
                                let k = if mixed { r.below(8) as u8 } else { kt };
                                Some(unique_value(r, k))
                            }
                        })
                        .collect()
                })
                .collect();
            Rd { key: format!("w{i}").into_bytes(), init, mixed, ops }
        })
        .collect();
    let out = parallel(n, r.next(), noise, |t, r, gate| {
        let mut all = vec![];
        let mut buf = vec![];
        for rd in &rs {
            let ops: Vec<Req> = rd.ops[t]
                .iter()
                .map(|o| match o {
                    Some(v) => set_of(&rd.key, v, true),
                    None => {
                        if rd.mixed || r.chance(1, 2) {
                            req(GET, None, &[&rd.key])
                        } else {
                            let k = rd.init.as_ref().or(rd.ops[0][0].as_ref()).unwrap().kind();
                            req(GET, Some(k), &[&rd.key])
                        }
                    }
                })
                .collect();
            let qs: Vec<Request> = ops.iter().map(|q| built(q).expect("builds")).collect();
            if t == 0 {
                if let Some(v) = &rd.init {
                    run(&hop, &set_of(&rd.key, v, true), Via::Builder).ok();
                }
            }
            gate.wait();
            let mut v = Vec::with_capacity(qs.len());
            for (q, rq) in qs.iter().zip(&ops) {
                let (call, ret, res) = go(&hop, q, rq, &mut buf, "P09");
                v.push((rq.clone(), call, ret, reply_of(&res, &buf)));
            }
            gate.wait();
            all.push(v);
        }
        all
    });
    for (i, rd) in rs.iter().enumerate() {
        eval(1);
        let all: Vec<&MVal> = rd.ops.iter().flatten().flatten().chain(rd.init.iter()).collect();
        let known: HashSet<&MVal> = all.iter().copied().collect();
        let w = |x: &str| {
            let mut s = format!("{x}\nkey {} init {:?} noise {noise:?}\n", hex(&rd.key), rd.init);
            for t in 0..n {
                for (q, a, b, rep) in out[t][i].iter().take(40) {
                    let _ = writeln!(s, "thread {t} [{a}..{b}] {q:?} -> {rep:?}");
                }
            }
            s
        };
        let first_write = if rd.init.is_some() { 0 } else { out.iter().flat_map(|t| t[i].iter()).filter(|e| e.0.cmd == SET).map(|e| e.2).min().unwrap_or(u64::MAX) };
        let mut kinds = 0usize;
        for t in 0..n {
            let mut wrote = false;
            for (j, (q, call, _, rep)) in out[t][i].iter().enumerate() {
                match rep {
                    Ok(Reply::Val(v)) => {
                        if q.cmd == SET {
                            wrote = true;
                            if Some(v) != rd.ops[t][j].as_ref() {
                                fail("P09: a set replied something other than its value", w(""));
                            }
                        } else {
                            kinds += 1;
                            if !known.contains(v) {
                                fail("P09: a reader saw a value that no client wrote", w(&format!("thread {t} request {j}: {v:?}")));
                            }
                        }
                    }
                    Ok(Reply::Err(E_MISSING)) if q.cmd == GET && !wrote && *call < first_write => {}
                    _ => fail("P09: a key under rewriting was missing, of another type, or couldn't be written", w(&format!("thread {t} request {j}"))),
                }
            }
        }
        let fin = run(&hop, &req(GET, None, &[&rd.key]), Via::Builder);
        let lasts: Vec<&MVal> = (0..n).filter_map(|t| rd.ops[t].iter().flatten().last()).collect();
        match &fin {
            Ok(Reply::Val(v)) if lasts.contains(&v) => {}
            _ => fail("P09: the final value isn't one client's last complete value", w(&format!("final {fin:?}"))),
        }
        count("reads_of_rewritten_keys", kinds as u64);
        distinct(&(i, kinds, rd.mixed, lasts.len(), out[0][i][0].1 % 64));
    }
}

/// Appends that race for the last places of a list, of which a reply can hold 65,535 items.
fn last_places(r: &mut Rng, n: usize, noise: Noise) {
    let hop = crate::eng::hop();
    let free = r.range(0, 6);
    let full = u16::MAX as usize;
    let key = b"full".to_vec();
    hop.state().insert(key.clone(), hop_engine::state::Value::List(vec![b"-".to_vec(); full - free]));
    let done: Vec<Vec<Vec<u8>>> = parallel(n, r.next(), noise, |t, r, gate| {
        let (mut buf, mut done) = (vec![], vec![]);
        gate.wait();
        for j in 0..4 {
            let items: Vec<Vec<u8>> = (0..r.range(1, 3)).map(|i| format!("{t}.{j}.{i}").into_bytes()).collect();
            let mut a = vec![key.clone()];
            a.extend(items.iter().cloned());
            let q = Req { cmd: APPEND, kt: None, args: a };
            let b = built(&q).expect("builds");
            match go(&hop, &b, &q, &mut buf, "P09").2 {
                Ok(()) => done.extend(items),
                Err(E_PRECOND) => {}
                Err(e) => fail("P09: a concurrent update failed", format!("append to an almost full list -> {}", err_name(e))),
            }
        }
        done
    });
    let acked: usize = done.iter().map(|d| d.len()).sum();
    let len = match dump(&hop).get(&key) {
        Some(MVal::List(l)) => l.len(),
        other => fail("P09: a list is gone", format!("{:?}", other.map(|v| v.kind()))),
    };
    eval(1);
    count("updates_accounted", acked as u64);
    count("races_for_the_last_places", 1);
    distinct(&("last", free, &done));
    if len > full || len != full - free + acked {
        fail("P09: a list was grown past what fits, or its appends don't add up", format!("{len} items: {} and {acked} acknowledged ones, {noise:?}", full - free));
    }
}

pub fn p09() {
    let c = ctx();
    rule("a case is one round in which 2-6 threads update one key (many rounds on fresh keys, some long ones): counters checked by replaying the replies in order, appends by locating every piece of every request in the final value and every reply as its prefix, rewrites by membership; distinct by the order in which the threads' updates took effect");
    assume("schedules are perturbed (preemption timers, delays at allocations), not enumerated");
    let mut i = 0u64;
    while !c.over() || i < 12 {
        i += 1;
        let mut r = c.rng(9000 + i);
        let noise = Noise::pick(&mut r);
        let n = r.range(2, 6);
        let (rounds, per) = *r.pick(&[(300, 2), (300, 1), (150, 5), (20, 60), (2, 600)]);
        describe(format!("batch {i}: {n} threads, {rounds} rounds of {per}, {noise:?}"));
        match i % 4 {
            0 | 1 => counters(&mut r, rounds, n, if rounds == 2 { 3000 } else { per }, noise),
            2 => appends(&mut r, rounds, n, per.min(150), noise),
            _ => rewrites(&mut r, rounds, n, per.max(3), noise),
        }
        count("batches", 1);
    }
    let mut r = c.rng(99);
    for _ in 0..c.scale(60, 600) {
        let noise = Noise::pick(&mut r);
        let n = r.range(2, 6);
        last_places(&mut r, n, noise);
    }
    // Long runs on several keys while the table itself grows.
    let mut r = c.rng(9);
    for _ in 0..c.scale(2, 20) {
        let noise = Noise::pick(&mut r);
        let hop = crate::eng::hop();
        let n = 6;
        let per = 4000usize;
        describe(format!("growth run {noise:?}"));
        parallel(n, r.next(), noise, |t, r, gate| {
            let mut buf = vec![];
            gate.wait();
            for j in 0..per {
                let k = format!("n{}", r.below(4)).into_bytes();
                for q in [req(INCR, None, &[k]), set_of(format!("grow{t}.{j}").as_bytes(), &MVal::Int(j as i64), true)] {
                    let b = built(&q).expect("builds");
                    let (_, _, res) = go(&hop, &b, &q, &mut buf, "P09");
                    if let Err(e) = res {
                        fail("P09: a concurrent update failed", format!("{q:?} -> {}", err_name(e)));
                    }
                }
            }
        });
        eval(1);
        let d = dump(&hop);
        let sum: i64 = (0..4).map(|k| match d.get(format!("n{k}").as_bytes()) { Some(MVal::Int(i)) => *i, _ => 0 }).sum();
        if sum != (n * per) as i64 {
            fail("P09: increments were lost while the database grew", format!("{sum} of {} with {noise:?}", n * per));
        }
        for t in 0..n {
            for j in 0..per {
                if d.get(format!("grow{t}.{j}").as_bytes()) != Some(&MVal::Int(j as i64)) {
                    fail("P09: an acknowledged write to its own key was lost", format!("grow{t}.{j}: {:?} with {noise:?}", d.get(format!("grow{t}.{j}").as_bytes())));
                }
            }
        }
        count("updates_accounted", (2 * n * per) as u64);
    }
    count("preemptions", alloc::PREEMPTIONS.load(Ordering::Relaxed));
}

// ---- P10 ------------------------------------------------------------------------------------

pub fn p10() {
    let c = ctx();
    rule("a case is one round of racing renames, deletes or appends to rename destinations over a few keys with unique values; the values stored before and after are compared as multisets and every success is accounted for; distinct by scenario, success pattern and final placement");
    assume("schedules are perturbed (preemption timers, delays at allocations), not enumerated");
    let mut i = 0u64;
    while !c.over() || i < 20 {
        i += 1;
        let mut r = c.rng(10_000 + i);
        let noise = Noise::pick(&mut r);
        let n = r.range(2, 6);
        describe(format!("batch {i}: {n} threads, {noise:?}"));
        batch10(&mut r, i, n, noise);
    }
    count("batches", i);
    count("preemptions", alloc::PREEMPTIONS.load(Ordering::Relaxed));
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sc {
    /// Everyone moves another key to one vacant destination.
    OneDestination,
    /// Everyone moves one key, to different destinations.
    OneSource,
    /// Random moves between few keys.
    Shuffle,
    /// Opposite and circular moves.
    Cycle,
    /// Random moves and deletes.
    Deletes,
    /// Everyone deletes the same keys.
    DeleteRace,
    /// Appends create the destination that others move to.
    AppendDest,
    /// Increments create the destination that others move to.
    IncrDest,
}

fn batch10(r: &mut Rng, b: u64, n: usize, noise: Noise) {
    let hop = crate::eng::hop();
    let sc = [Sc::OneDestination, Sc::OneSource, Sc::Shuffle, Sc::Cycle, Sc::Deletes, Sc::DeleteRace, Sc::AppendDest, Sc::IncrDest][(b % 8) as usize];
    struct Rd {
        init: Vec<(Vec<u8>, MVal)>,
        ops: Vec<Vec<Req>>,
        prefix: String,
    }
    let rs: Vec<Rd> = (0..120)
        .map(|i| {
            let prefix = format!("{sc:?}{i}.");
            let key = |x: usize| format!("{prefix}{x}").into_bytes();
            let val = |r: &mut Rng, ty: Option<u8>| loop {
                let k = ty.unwrap_or_else(|| r.below(8) as u8);
                if k != BOOL {
                    return unique_value(r, k);
                }
            };
            let mut init = vec![];
            let mut ops: Vec<Vec<Req>> = vec![vec![]; n];
            let mv = |a: usize, b: usize| req(RENAME, None, &[key(a), key(b)]);
            match sc {
                Sc::OneDestination => {
                    for t in 0..n {
                        init.push((key(t), val(r, None)));
                        ops[t].push(mv(t, 100));
                    }
                }
                Sc::OneSource => {
                    init.push((key(0), val(r, None)));
                    for t in 0..n {
                        ops[t].push(mv(0, t + 1));
                    }
                }
                Sc::Shuffle | Sc::Deletes => {
                    let nk = r.range(2, 5);
                    for x in 0..nk {
                        if r.chance(1, 2) || x == 0 {
                            init.push((key(x), val(r, None)));
                        }
                    }
                    for o in ops.iter_mut() {
                        for _ in 0..r.range(2, 6) {
                            let (a, b) = (r.below(nk), r.below(nk));
                            o.push(if sc == Sc::Deletes && r.chance(1, 3) { req(DELETE, None, &[key(a)]) } else { mv(a, b) });
                        }
                    }
                }
                Sc::Cycle => {
                    let m = r.range(2, 3);
                    for x in 0..r.range(1, m) {
                        init.push((key(x), val(r, None)));
                    }
                    for (t, o) in ops.iter_mut().enumerate() {
                        for j in 0..r.range(2, 8) {
                            let a = (t + j) % m;
                            o.push(if t % 2 == 0 { mv(a, (a + 1) % m) } else { mv((a + 1) % m, a) });
                        }
                    }
                }
                Sc::DeleteRace => {
                    for x in 0..3 {
                        init.push((key(x), val(r, None)));
                    }
                    for o in ops.iter_mut() {
                        let mut xs = [0, 1, 2];
                        r.shuffle(&mut xs);
                        for x in xs {
                            o.push(req(DELETE, None, &[key(x)]));
                        }
                    }
                }
                Sc::AppendDest => {
                    let t = *r.pick(&[BYTES, STR, LIST]);
                    for x in 0..r.range(1, 2) {
                        let v = format!("<v{}>", uniq()).into_bytes();
                        init.push((key(x), match t { BYTES => MVal::Bytes(v), STR => MVal::Str(v), _ => MVal::List(vec![v]) }));
                    }
                    for (j, o) in ops.iter_mut().enumerate() {
                        if j % 2 == 0 {
                            o.push(mv(j / 2 % 2, 100));
                        } else {
                            for _ in 0..r.range(1, 2) {
                                o.push(req(APPEND, Some(t), &[key(100), format!("<{}>", uniq()).into_bytes()]));
                            }
                        }
                    }
                }
                Sc::IncrDest => {
                    init.push((key(0), MVal::Int(1_000_000)));
                    for (j, o) in ops.iter_mut().enumerate() {
                        if j == 0 {
                            o.push(mv(0, 100));
                        } else {
                            o.push(req(INCR, Some(INT), &[key(100)]));
                            o.push(req(INCR, Some(INT), &[key(100)]));
                        }
                    }
                }
            }
            // A bystander that nobody names.
            init.push((key(999), val(r, None)));
            Rd { init, ops, prefix }
        })
        .collect();
    let out = parallel(n, r.next(), noise, |t, _, gate| {
        let mut all = vec![];
        let mut buf = vec![];
        for rd in &rs {
            let qs: Vec<Request> = rd.ops[t].iter().map(|q| built(q).expect("builds")).collect();
            if t == 0 {
                for (k, v) in &rd.init {
                    run(&hop, &set_of(k, v, true), Via::Builder).ok();
                }
            }
            gate.wait();
            let mut v = Vec::with_capacity(qs.len());
            for (q, rq) in qs.iter().zip(&rd.ops[t]) {
                let (call, ret, res) = go(&hop, q, rq, &mut buf, "P10");
                let reply = match reply_of(&res, &buf) {
                    Ok(r) => r,
                    Err(e) => fail("P10: a reply isn't one complete message", format!("{rq:?}: {e}")),
                };
                v.push(Event { thread: t, req: rq.clone(), call, ret, reply: Some(reply) });
            }
            gate.wait();
            all.push(v);
        }
        all
    });
    let d = dump(&hop);
    for (i, rd) in rs.iter().enumerate() {
        eval(1);
        let evs: Vec<Event> = out.iter().flat_map(|t| t[i].iter().cloned()).collect();
        let fin: BTreeMap<&Vec<u8>, &MVal> = d.iter().filter(|(k, _)| k.starts_with(rd.prefix.as_bytes())).collect();
        let w = |x: &str| {
            format!("{x}\nscenario {sc:?} noise {noise:?}\nbefore: {:?}\n{}after: {:?}", rd.init.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>(), show_history(&evs), fin.iter().map(|(k, v)| (hex(k), v)).collect::<Vec<_>>())
        };
        // Each reply is one that the command can give.
        let mut moved = 0u64;
        let mut deleted = 0u64;
        for e in &evs {
            let ok = match (e.req.cmd, e.reply.as_ref().unwrap()) {
                (RENAME, Reply::Val(MVal::Bytes(b))) => {
                    moved += 1;
                    *b == e.req.args[1] && e.req.args[0] != e.req.args[1]
                }
                (RENAME, Reply::Err(x)) => *x == E_MISSING || *x == E_PRECOND,
                (DELETE, Reply::Val(MVal::Bytes(b))) => {
                    deleted += 1;
                    *b == e.req.args[0]
                }
                (DELETE, Reply::Err(x)) => *x == E_PRECOND,
                (APPEND | INCR, Reply::Val(_)) => true,
                _ => false,
            };
            if !ok {
                fail("P10: a reply that the command can't give", w(&format!("{:?} -> {:?}", e.req, e.reply)));
            }
        }
        let ok_of = |cmd: u8| evs.iter().filter(|e| e.req.cmd == cmd && matches!(e.reply, Some(Reply::Val(_)))).count();
        match sc {
            Sc::OneDestination | Sc::OneSource => {
                if ok_of(RENAME) != 1 {
                    fail("P10: not exactly one of the racing renames succeeded", w(&format!("{} succeeded", ok_of(RENAME))));
                }
                let e = evs.iter().find(|e| matches!(e.reply, Some(Reply::Val(_)))).unwrap();
                let v = rd.init.iter().find(|(k, _)| *k == e.req.args[0]).map(|(_, v)| v);
                if fin.get(&e.req.args[1]).copied() != v || fin.contains_key(&e.req.args[0]) {
                    fail("P10: the winning rename didn't move its value", w(""));
                }
                let want = if sc == Sc::OneDestination { E_PRECOND } else { E_MISSING };
                if evs.iter().any(|e| matches!(e.reply, Some(Reply::Err(x)) if x != want)) {
                    fail("P10: a losing rename got another error", w(&format!("expected {}", err_name(want))));
                }
            }
            _ => {}
        }
        if sc == Sc::DeleteRace {
            for (k, _) in rd.init.iter().take(3) {
                let won = evs.iter().filter(|e| &e.req.args[0] == k && matches!(e.reply, Some(Reply::Val(_)))).count();
                if won != 1 || fin.contains_key(k) {
                    fail("P10: a value wasn't removed by exactly one delete", w(&hex(k)));
                }
            }
        }
        if matches!(sc, Sc::AppendDest | Sc::IncrDest) {
            // Nobody else takes the source of a rename that is the only one of its source.
            for e in evs.iter().filter(|e| e.req.cmd == RENAME && matches!(e.reply, Some(Reply::Err(E_MISSING)))) {
                let src = &e.req.args[0];
                if rd.init.iter().any(|(k, _)| k == src) && evs.iter().filter(|x| x.req.cmd == RENAME && &x.req.args[0] == src).count() == 1 {
                    fail("P10: a rename didn't find a source that nobody else took", w(&format!("{:?}", e.req)));
                }
            }
            if sc == Sc::AppendDest {
                // Every piece ever stored or acknowledged is stored exactly once.
                let mut want: Vec<Vec<u8>> = rd.init.iter().rev().skip(1).flat_map(|(_, v)| v.to_args()).collect();
                want.extend(evs.iter().filter(|e| e.req.cmd == APPEND).map(|e| e.req.args[1].clone()));
                let mut have: Vec<Vec<u8>> = vec![];
                for (k, v) in &fin {
                    if !k.ends_with(b".999") {
                        for x in v.to_args() {
                            have.extend(x.split_inclusive(|c| *c == b'>').map(|x| x.to_vec()));
                        }
                    }
                }
                want.sort();
                have.sort();
                if want != have {
                    fail("P10: a rename lost, duplicated or overwrote data that was being appended", w(""));
                }
            } else {
                let sum: i64 = fin.iter().filter(|(k, _)| !k.ends_with(b".999")).map(|(_, v)| match v { MVal::Int(i) => *i, _ => i64::MIN / 4 }).sum();
                let want = 1_000_000 + evs.iter().filter(|e| e.req.cmd == INCR).count() as i64;
                if sum != want {
                    fail("P10: a rename lost or overwrote a value that was being incremented", w(&format!("sum {sum}, expected {want}")));
                }
            }
        } else {
            let before: BTreeSet<String> = rd.init.iter().map(|(_, v)| format!("{v:?}")).collect();
            let after: Vec<String> = fin.values().map(|v| format!("{v:?}")).collect();
            let uniq: BTreeSet<String> = after.iter().cloned().collect();
            if uniq.len() != after.len() {
                fail("P10: a value was duplicated", w(""));
            }
            if !uniq.is_subset(&before) {
                fail("P10: a value was altered", w(""));
            }
            if before.len() as u64 - uniq.len() as u64 != deleted {
                fail("P10: values were lost, or deletes removed other than one value each", w(&format!("{deleted} deletes succeeded, {} values before, {} after", before.len(), uniq.len())));
            }
        }
        let (bk, bv) = rd.init.last().unwrap();
        if fin.get(bk).copied() != Some(bv) {
            fail("P10: a key that no request names changed", w(""));
        }
        count("successful_renames", moved);
        count("successful_deletes", deleted);
        count("operations", evs.len() as u64);
        let pat: Vec<bool> = evs.iter().map(|e| matches!(e.reply, Some(Reply::Val(_)))).collect();
        let place: Vec<&[u8]> = fin.keys().map(|k| &k[rd.prefix.len()..]).collect();
        let mut order: Vec<(u64, usize)> = evs.iter().flat_map(|e| [(e.call, e.thread), (e.ret, e.thread)]).collect();
        order.sort();
        distinct(&(format!("{sc:?}"), pat, place, order.iter().map(|x| x.1).collect::<Vec<_>>()));
        if i == 3 {
            sample(|| format!("{sc:?}: {}", show_history(&evs).replace('\n', "; ")));
        }
    }
}
