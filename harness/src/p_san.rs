//! P26: the workloads that run under ThreadSanitizer, AddressSanitizer with LeakSanitizer, and Miri,
//! and the heap and deadlock monitors on the plain build.
use crate::{alloc, common::*, eng::*, gen, p_conc::*, hooks, rng::Rng, wire::*};
use hop_engine::{command::request::Request, metrics::Metric, session::SessionId, Hop};
use std::{
    collections::BTreeMap,
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

// Only plain atomics and thread-local data are shared here besides the engine, so that every lock that
// orders two accesses to the engine's data is the engine's own.
static OPS: AtomicU64 = AtomicU64::new(0);
static REPLIES: AtomicU64 = AtomicU64::new(0);
static ERRORS: AtomicU64 = AtomicU64::new(0);
static UPDATES: AtomicU64 = AtomicU64::new(0);

/// A piece that shows whether it is whole: its length and then one byte again and again.
fn piece(r: &mut Rng, most: usize) -> Vec<u8> {
    let n = r.range(1, most);
    vec![b'a' + (n % 26) as u8; n]
}
fn whole(b: &[u8]) -> bool {
    b.is_empty() || (b.iter().all(|c| *c == b[0]) && b[0] == b'a' + (b.len() % 26) as u8)
}
/// A value of any type, made of whole pieces.
fn pieces(r: &mut Rng, kt: u8, most: usize) -> MVal {
    let n = r.range(1, 6);
    match kt {
        BYTES => MVal::Bytes(piece(r, most)),
        STR => MVal::Str(piece(r, most)),
        BOOL => MVal::Bool(r.chance(1, 2)),
        INT => MVal::Int(r.below(1000) as i64),
        FLOAT => MVal::f(r.below(1000) as f64),
        LIST => MVal::List((0..n).map(|_| piece(r, most)).collect()),
        MAP => MVal::Map((0..n).map(|_| (piece(r, most.min(200)), piece(r, most))).collect::<BTreeMap<_, _>>()),
        _ => MVal::Set((0..n).map(|_| piece(r, most)).collect()),
    }
}
/// Appends of bytes and strings make pieces touch, so only the other types are checked for wholeness.
fn torn(v: &MVal) -> bool {
    match v {
        MVal::Bytes(b) | MVal::Str(b) => b.iter().any(|c| !c.is_ascii_lowercase()),
        MVal::List(l) => !l.iter().all(|b| whole(b)),
        MVal::Map(m) => !m.iter().all(|(k, v)| whole(k) && whole(v)),
        MVal::Set(s) => !s.iter().all(|b| whole(b)),
        MVal::Bool(_) | MVal::Float(_) | MVal::Int(_) => false,
    }
}

fn any_op(r: &mut Rng, keys: &[&[u8]], most: usize) -> Req {
    let k = *r.pick(keys);
    let kt = r.below(8) as u8;
    match r.below(16) {
        // A number is only sent with its type: its bytes are no piece.
        0..=3 => set_of(k, &pieces(r, kt, most), matches!(kt, BOOL | INT | FLOAT) || r.chance(9, 10)),
        4 | 5 => req(GET, if r.chance(1, 2) { Some(kt) } else { None }, &[k]),
        6 => req(DELETE, None, &[k]),
        7 => req(RENAME, None, &[k, *r.pick(keys)]),
        8 | 9 => {
            let mut a = vec![k.to_vec()];
            for _ in 0..r.below(4) {
                a.push(piece(r, most));
            }
            Req { cmd: APPEND, kt: *r.pick(&[None, Some(BYTES), Some(LIST), Some(STR)]), args: a }
        }
        10 => {
            let cmd = *r.pick(&[INCR, DECR, INCRBY, DECRBY]);
            Req { cmd, kt: *r.pick(&[None, Some(INT), Some(FLOAT)]), args: vec![k.to_vec(), 5i64.to_be_bytes().to_vec()] }
        }
        11 => req(*r.pick(&[EXISTS, TYPE]), None, &[k]),
        12 => req(IS, Some(kt), &[k, *r.pick(keys)]),
        13 => req(LENGTH, None, &[k]),
        14 => req(KEYS, None, &[k]),
        _ => {
            if r.chance(1, 2) {
                req::<&[u8]>(STATS, None, &[])
            } else {
                req(ECHO, None, &[k])
            }
        }
    }
}

fn step(h: &Hop, q: &Req, buf: &mut Vec<u8>) {
    buf.clear();
    let Some(b): Option<Request> = built(q) else { return };
    let res = match cut(|| h.dispatch(&b, buf).map_err(derr)) {
        Ok(x) => x,
        Err(e) => fail("P26: a concurrent request panicked", format!("{q:?}: {e}")),
    };
    OPS.fetch_add(1, Ordering::Relaxed);
    match reply_of(&res, buf) {
        Ok(Reply::Val(v)) => {
            REPLIES.fetch_add(1, Ordering::Relaxed);
            // Names of keys and counters are no pieces.
            if matches!(q.cmd, GET | SET | APPEND) && torn(&v) {
                fail("P26: a reply holds bytes that nobody wrote", format!("{q:?}: {v:?}"));
            }
        }
        Ok(_) => {
            ERRORS.fetch_add(1, Ordering::Relaxed);
        }
        Err(e) => fail("P26: a reply is malformed", format!("{q:?}: {e}")),
    }
}

/// Sends or receives through a subscription, giving up when nobody is at the other end yet.
fn carry(r: &mut Rng, s: &hop_engine::pubsub::Subscription, most: usize) {
    use hop_engine::{pubsub::KeyUpdate, state::Value};
    let got = match r.below(if cfg!(miri) { 1 } else { 4 }) {
        0 => s.receiver().try_receive().ok(),
        1 => {
            let rx = s.receiver();
            let mut f = std::pin::pin!(rx.receive());
            let mut got = crate::p_sub::once(f.as_mut());
            if got.is_pending() {
                // Somebody may send meanwhile.
                std::thread::yield_now();
                got = crate::p_sub::once(f.as_mut());
            }
            match got {
                std::task::Poll::Ready(x) => x,
                std::task::Poll::Pending => None,
            }
        }
        _ => {
            let v = match r.below(3) {
                0 => Value::Bytes(piece(r, most)),
                1 => Value::List((0..r.below(4)).map(|_| piece(r, most)).collect()),
                _ => Value::String(String::from_utf8(piece(r, most)).expect("text")),
            };
            let u = if r.chance(1, 2) { KeyUpdate::Updated(v) } else { KeyUpdate::Deleted(v) };
            let tx = s.sender();
            let mut f = std::pin::pin!(tx.send(u));
            for _ in 0..r.range(1, 8) {
                if let std::task::Poll::Ready(x) = crate::p_sub::once(f.as_mut()) {
                    UPDATES.fetch_add(x.is_ok() as u64, Ordering::Relaxed);
                    break;
                }
                std::thread::yield_now();
            }
            None
        }
    };
    if let Some(KeyUpdate::Updated(v) | KeyUpdate::Deleted(v)) = got {
        let v = mval(&v);
        if torn(&v) {
            fail("P26: an update holds bytes that nobody sent", format!("{v:?}"));
        }
    }
}

/// All parts of the engine at once, on few keys.
fn mix(r: &mut Rng, seed: u64, nt: usize, per: usize, most: usize, noise: Noise) {
    let h = crate::eng::hop();
    let names: Vec<Vec<u8>> = (0..r.range(1, 4)).map(|i| format!("k{i}").into_bytes()).collect();
    let keys: Vec<&[u8]> = names.iter().map(|k| k.as_slice()).collect();
    let focus = r.below(4);
    parallel(nt, seed, noise, |t, r, gate| {
        // A handle of its own, dropped at some time while others go on.
        let mut mine = h.clone();
        let mut sessions = h.sessions().clone();
        let ps = h.pubsub().clone();
        let reader = h.metrics();
        let mut ids: Vec<u32> = vec![];
        let mut buf = vec![];
        gate.wait();
        for i in 0..per {
            let roll = if focus == 3 { r.range(8, 19) } else { r.below(20) };
            match roll {
                14 => {
                    let id = match cut(|| *sessions.add([t as u8; 32]).key()) {
                        Ok(id) => id,
                        Err(e) => fail("P26: adding a session panicked", e),
                    };
                    ids.push(id);
                    if ids.len() > 3 {
                        let id = ids.swap_remove(0);
                        if let Err(e) = cut(|| sessions.remove(id)) {
                            fail("P26: removing a session panicked", e);
                        }
                    }
                }
                15 | 16 => {
                    let id = SessionId::verif_new(r.below(3) as u32);
                    let k = *r.pick(&keys);
                    let x = cut(|| match r.below(6) {
                        0..=2 => {
                            if let Some(s) = ps.subscribe(k.to_vec(), id).and_then(|w| w.upgrade()) {
                                carry(r, &s, most);
                            }
                        }
                        3 => {
                            ps.unsubscribe(k, id);
                        }
                        4 => {
                            if let Some(s) = ps.get(k, id).and_then(|w| w.upgrade()) {
                                carry(r, &s, most);
                            }
                        }
                        _ => {
                            ps.remove_session(id);
                        }
                    });
                    if let Err(e) = x {
                        fail("P26: a subscription call panicked", e);
                    }
                }
                17 => {
                    let _ = reader.counter(&Metric::CommandsSuccessful);
                    let _ = reader.gauge(&Metric::CommandsErrored);
                }
                18 => {
                    // Everything that is stored, read in place.
                    let mut bad = None;
                    let x = cut(|| {
                        mine.state().verif_for_each(|k, v| {
                            let v = mval(v);
                            if torn(&v) {
                                bad = Some((k.to_vec(), v));
                            }
                        })
                    });
                    if x.is_err() || bad.is_some() {
                        fail("P26: the stored data holds bytes that nobody wrote", format!("{bad:?} {x:?}"));
                    }
                }
                19 => {
                    if r.chance(1, 4) {
                        let n = match cut(|| format!("{mine:?}").len()) {
                            Ok(n) => n,
                            Err(e) => fail("P26: printing the engine panicked", e),
                        };
                        std::hint::black_box(n);
                    }
                    mine = h.clone();
                }
                _ => step(&mine, &any_op(r, &keys, most), &mut buf),
            }
            if i % 64 == 63 {
                std::thread::yield_now();
            }
        }
    });
    eval((nt * per) as u64);
    count("rounds", 1);
    distinct(&("mix", seed));
}

/// Metrics that are dropped while writers and readers go on.
fn dropping(r: &mut Rng, seed: u64, nt: usize, per: usize, noise: Noise) {
    let m: hop_internal_metrics::Metrics<u32> = Default::default();
    let slot = std::sync::Mutex::new(Some(m));
    let (w, rd) = {
        let g = slot.lock().unwrap();
        (g.as_ref().unwrap().writer(), g.as_ref().unwrap().reader())
    };
    let at = r.below(per);
    parallel(nt, seed, noise, |t, r, gate| {
        let (w, rd) = (w.clone(), rd.clone());
        gate.wait();
        for i in 0..per {
            let k = r.below(5) as u32;
            match r.below(4) {
                0 => {
                    w.increment(k);
                }
                1 => {
                    w.gauge(k, i as u64);
                }
                2 => {
                    let _ = rd.counter(&k);
                }
                _ => {
                    let _ = (rd.gauge(&k), rd.valid());
                }
            }
            if t == 0 && i == at {
                drop(slot.lock().unwrap().take());
            }
        }
    });
    eval((nt * per) as u64);
    count("rounds_dropping_metrics", 1);
    distinct(&("drop", seed));
}

/// One thread: every kind of value created, grown, replaced and dropped, large and small.
fn churn(r: &mut Rng, n: usize) {
    let h = crate::eng::hop();
    let keys = gen::keys(r, 3);
    let mut buf = vec![];
    for _ in 0..n {
        let kinds = |_: &[u8]| None;
        let big = r.chance(1, 20);
        let q = gen::any_req(r, &keys, &kinds, big);
        let Some(b) = built(&q) else { continue };
        if !r.chance(1, 3) {
            buf.clear();
        }
        if let Err(e) = cut(|| h.dispatch(&b, &mut buf).map_err(derr)) {
            fail("P26: a request panicked", format!("{q:?}: {e}"));
        }
        OPS.fetch_add(1, Ordering::Relaxed);
        if buf.len() > 4_000_000 {
            buf = vec![];
        }
    }
    // The decoders, on what the engine wrote and on parts of it.
    let mut i = 0;
    let mut c = hop_engine::command::response::Context::new();
    while i < buf.len() {
        let n = r.range(1, 400).min(buf.len() - i);
        let _ = cut(|| {
            let _ = c.feed(&buf[i..i + n]);
        });
        if r.chance(1, 30) {
            c = hop_engine::command::response::Context::new();
        }
        i += n;
    }
    for _ in 0..20 {
        let q = gen::any_req(r, &keys, &|_| None, false);
        let mut b = q.encode();
        if !b.is_empty() {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        let mut c = hop_engine::command::request::Context::new();
        let _ = cut(|| {
            for p in b.chunks(r.range(1, 9)) {
                if !matches!(c.feed(p), Ok(None)) {
                    break;
                }
            }
        });
    }
    eval(n as u64);
    count("rounds_of_one_thread", 1);
    distinct(&("churn", r.next()));
}

/// Timers, whose reading of the clock is the only unsafe code of the repository.
fn timers(r: &mut Rng) {
    use hop_internal_timer::Timer;
    for _ in 0..20 {
        let mut t = Timer::new();
        let mut ended = None;
        for _ in 0..r.range(1, 6) {
            match r.below(5) {
                0 | 1 => {
                    t.start();
                }
                2 => ended = t.stop().or(ended),
                3 => t = t.clone(),
                _ => {
                    t.reset();
                    ended = None;
                }
            }
            // The clock fills in what it is given, and never runs backwards.
            match (t.duration(), ended) {
                (a, b) if a == b => {}
                x => fail("P26: a timer's reading changed", format!("{x:?}")),
            }
        }
        if ended.map_or(false, |d| d.as_secs() > 900) {
            fail("P26: a timer read something else than the clock", format!("{ended:?}"));
        }
    }
    count("timers", 20);
}

fn finish() {
    count("commands", OPS.load(Ordering::Relaxed));
    count("replies_checked", REPLIES.load(Ordering::Relaxed));
    count("error_replies", ERRORS.load(Ordering::Relaxed));
    count("updates_carried", UPDATES.load(Ordering::Relaxed));
}

#[cfg(lsan)]
extern "C" {
    fn __lsan_do_recoverable_leak_check() -> libc::c_int;
}
/// Anything that nothing points to any more?
fn leaks() {
    #[cfg(lsan)]
    {
        if std::env::var_os("HOP_NO_LSAN").is_none() {
            let n = unsafe { __lsan_do_recoverable_leak_check() };
            if n != 0 {
                fail("P26: memory was leaked", "LeakSanitizer's report is in the log".into());
            }
            count("leak_checks", 1);
        }
    }
}

pub fn sanitized(under: &str) {
    let c = ctx();
    rule("a case is one round of 2-8 threads using all parts of one engine (commands of every kind on few keys, statistics, sessions, subscriptions, iteration, handles cloned and dropped), one round of metrics dropped under use, or one of a single thread creating, growing, replacing and dropping values of every type, under the sanitizer; distinct by seed of the round");
    let mut r = c.rng(26);
    let miri = under == "miri";
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        let s = r.next();
        let noise = Noise { den: if miri { 0 } else { *r.pick(&[0, 0, 5, 20]) }, ns: 0 };
        match i % 6 {
            0 => dropping(&mut r, s, if miri { 3 } else { 4 }, if miri { 15 } else { 200 }, noise),
            3 if under == "asan" || i % 30 == 3 => churn(&mut r, if miri { 20 } else { 400 }),
            _ => {
                let nt = r.range(2, if miri { 3 } else { 8 });
                let per = if miri { 12 } else { r.range(20, 400) };
                let most = if miri { 6 } else { *r.pick(&[3, 40, 300, 5000]) };
                mix(&mut r, s, nt, per, most, noise);
            }
        }
        timers(&mut r);
        if under == "asan" && i % 20 == 0 {
            leaks();
        }
        if miri && i >= c.scale(10, 300) as u64 {
            break;
        }
    }
    leaks();
    finish();
    if get_count("rounds") < 2 {
        inconclusive("too few rounds");
    }
}

// ---- the heap, and locks -----------------------------------------------------------------------

/// One cycle leaves the engine as empty as before.
fn cycle(h: &Hop, id: u64, seed: u64, nt: usize, per: usize) {
    parallel(nt, seed, Noise { den: 0, ns: 0 }, |t, r, gate| {
        let mut buf = vec![];
        let mut sessions = h.sessions().clone();
        gate.wait();
        for i in 0..per {
            let a = format!("c{id}.{t}.{i}").into_bytes();
            let b = format!("d{id}.{t}.{i}").into_bytes();
            let kt = r.below(8) as u8;
            let (v, w) = (pieces(r, kt, 300), r.below(8) as u8);
            let w = pieces(r, w, 300);
            let plan = [
                set_of(&a, &v, true),
                req(GET, None, &[&a]),
                Req { cmd: APPEND, kt: None, args: vec![a.clone(), piece(r, 100), piece(r, 100)] },
                req(INCR, Some(*r.pick(&[INT, FLOAT])), &[&a]),
                // Fails: the value stays.
                set_of(&a, &MVal::Map([(vec![b'x'; 300], vec![b'y'; 300])].into()), true),
                req(RENAME, None, &[&a, &b]),
                req(RENAME, None, &[&a, &b]),
                set_of(&b, &w, true),
                req(KEYS, None, &[&b]),
                req(DELETE, None, &[&a]),
            ];
            for q in &plan {
                step(h, q, &mut buf);
            }
            let s = *sessions.add([1; 32]).key();
            let sid = SessionId::verif_new(s);
            let k: &[u8] = [b"p".as_slice(), b"q", b"r"][i % 3];
            let sub = h.pubsub().subscribe(k.to_vec(), sid);
            if i % 3 == 0 {
                h.pubsub().unsubscribe(k, sid);
            }
            drop(sub);
            h.pubsub().remove_session(sid);
            sessions.remove(s);
            step(h, &req(DELETE, None, &[&b]), &mut buf);
        }
    });
    eval((nt * per) as u64);
}

/// Keys that depend on each other's locks: every command that takes several, in every direction.
fn crossing(r: &mut Rng, seed: u64, nt: usize, per: usize) {
    let h = crate::eng::hop();
    let n = r.range(2, 6);
    let names: Vec<Vec<u8>> = (0..n).map(|i| format!("x{i}").into_bytes()).collect();
    let keys: Vec<&[u8]> = names.iter().map(|k| k.as_slice()).collect();
    let noise = Noise::pick(r);
    parallel(nt, seed, noise, |_, r, gate| {
        let mut buf = vec![];
        gate.wait();
        for _ in 0..per {
            let (a, b) = (*r.pick(&keys), *r.pick(&keys));
            let q = match r.below(10) {
                0..=3 => req(RENAME, None, &[a, b]),
                4 | 5 => req(EXISTS, None, &[a, b, *r.pick(&keys)]),
                6 => req(IS, Some(INT), &[b, a, *r.pick(&keys)]),
                7 => req(DELETE, None, &[a]),
                8 => req::<&[u8]>(STATS, None, &[]),
                _ => any_op(r, &keys, 20),
            };
            step(&h, &q, &mut buf);
            if r.chance(1, 40) {
                let mut n = 0;
                if let Err(e) = cut(|| h.state().verif_for_each(|_, _| n += 1)) {
                    fail("P26: reading everything panicked", e);
                }
                if n > keys.len() {
                    fail("P26: there are more values than keys", format!("{n} values under {} keys", keys.len()));
                }
            }
        }
    });
    eval((nt * per) as u64);
    count("rounds_of_crossing_locks", 1);
    distinct(&("cross", seed));
}

pub fn heap() {
    let c = ctx();
    rule("a case is one cycle that creates, grows, renames, replaces and deletes thousands of values, sessions and subscriptions and leaves the engine empty, with the live heap measured after it; one whole engine filled and dropped; or one round of threads whose commands take several locks in every order, each of which must return; distinct by round");
    let mut r = c.rng(27);
    alloc::counting(true);
    let (nt, per) = (6, c.scale(120, 300));
    // The same engine again and again.
    let h = crate::eng::hop();
    let mut after: Vec<i64> = Vec::with_capacity(100_000);
    let mut id = 0u64;
    let cycles_until = 0.4;
    while !c.over_frac(cycles_until) || id < 24 {
        id += 1;
        cycle(&h, id, r.next(), nt, per);
        let mut left = 0;
        h.state().verif_for_each(|_, _| left += 1);
        if left > 0 || hooks::sessions(h.sessions()).is_some_and(|s| !s.is_empty()) {
            fail("P26: deleted values or removed sessions are still stored", format!("{left} values"));
        }
        after.push(alloc::live());
        distinct(&("cycle", id));
        if id >= 24 && id % 8 == 0 {
            let n = after.len();
            let early = *after[n / 3..n / 3 + n / 6].iter().max().unwrap();
            let late = *after[n - n / 6..].iter().min().unwrap();
            if late - early > 192 * 1024 {
                fail(
                    "P26: the heap grows although everything stored was deleted again",
                    format!("live heap after each of {n} cycles, in bytes: {:?}", after.iter().step_by((n / 24).max(1)).collect::<Vec<_>>()),
                );
            }
        }
    }
    count("cycles", id);
    maxi("heap_after_first_cycle", after[0].max(0) as u64);
    maxi("heap_after_last_cycle", after[after.len() - 1].max(0) as u64);
    sample(|| format!("live heap after cycles of {} values: {:?}", nt * per, after.iter().step_by((after.len() / 12).max(1)).collect::<Vec<_>>()));
    drop(h);
    // Whole engines, dropped while full.
    let mut left: Vec<i64> = Vec::with_capacity(100_000);
    let mut n = 0;
    while !c.over_frac(0.6) || n < 12 {
        n += 1;
        let h = crate::eng::hop();
        let (s, k) = (r.next(), r.clone());
        let _ = k;
        parallel(3, s, Noise { den: 0, ns: 0 }, |t, r, gate| {
            let h = h.clone();
            let mut buf = vec![];
            let mut sessions = h.sessions().clone();
            gate.wait();
            for i in 0..100 {
                let kt = r.below(8) as u8;
                let v = pieces(r, kt, 400);
                step(&h, &set_of(format!("e{t}.{i}").as_bytes(), &v, true), &mut buf);
                let s = *sessions.add([2; 32]).key();
                h.pubsub().subscribe(vec![b'p', t as u8], SessionId::verif_new(s));
            }
        });
        let rd = h.metrics();
        drop(h);
        if rd.valid() {
            fail("P26: a dropped engine is still alive", "its metrics can still be read".into());
        }
        drop(rd);
        left.push(alloc::live());
        distinct(&("engine", n));
        if n >= 12 && n % 4 == 0 {
            let grown = left[left.len() - 1] - left[4];
            if grown > 96 * 1024 {
                fail("P26: a dropped engine leaves memory behind", format!("live heap after each: {:?}", left.iter().step_by((left.len() / 24).max(1)).collect::<Vec<_>>()));
            }
        }
    }
    count("engines_dropped", n);
    alloc::counting(false);
    let t = Instant::now();
    while !c.over() {
        let s = r.next();
        let nt = r.range(2, 8);
        let per = r.range(50, 1500);
        describe("P26 crossing locks".into());
        crossing(&mut r, s, nt, per);
    }
    count("ms_of_crossing_locks", t.elapsed().as_millis() as u64);
    finish();
}
