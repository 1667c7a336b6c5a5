//! P31: what an engine, a client and the codecs keep in memory is what is stored.
use crate::{alloc, common::*, eng::*, gen, net::Server, p_client, p_conc::*, rng::Rng, wire::*};
use hop::{
    backend::{Backend, ServerBackend},
    Client,
};
use hop_engine::{
    command::{request, response, Response},
    metrics::Metric,
    pubsub::Subscription,
    session::SessionId,
    state::Value,
    Hop,
};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc,
};

static NAMES: AtomicU64 = AtomicU64::new(1);
/// A name that was never used before.
fn fresh(what: &str) -> Vec<u8> {
    format!("{what}.{:012}", NAMES.fetch_add(1, Ordering::Relaxed)).into_bytes()
}
fn session() -> SessionId {
    SessionId::verif_new(NAMES.fetch_add(1, Ordering::Relaxed) as u32)
}

fn run(h: &Hop, q: &Req) -> Option<Reply> {
    let b = built(q)?;
    let mut buf = vec![];
    let res = match cut(|| h.dispatch(&b, &mut buf).map_err(derr)) {
        Ok(x) => x,
        Err(e) => fail("P31: a request panicked", format!("{q:?}: {e}")),
    };
    match reply_of(&res, &buf) {
        Ok(r) => Some(r),
        Err(e) => fail("P31: a reply is malformed", format!("{q:?}: {e}")),
    }
}
fn ok(h: &Hop, q: Req) {
    match run(h, &q) {
        Some(Reply::Err(e)) => fail("P31: a request that should succeed failed", format!("{q:?}: {}", err_name(e))),
        Some(_) => {}
        None => fail("P31: a request couldn't be built", format!("{q:?}")),
    }
}
fn refused(h: &Hop, q: Req) {
    if let Some(r) = run(h, &q) {
        if !matches!(r, Reply::Err(_)) {
            fail("P31: a request that should fail succeeded", format!("{q:?}: {r:?}"));
        }
    }
}

/// What one activity works on. The activity leaves it as it found it.
struct Place {
    h: Hop,
    r: Rng,
    rq: request::Context,
    rs: response::Context,
    held: Option<Arc<Subscription>>,
    /// A session that lives on.
    sid: SessionId,
}

type Act = (&'static str, fn(&mut Place));

fn val(p: &mut Place, kt: u8) -> MVal {
    loop {
        let v = gen::value(&mut p.r, kt, false);
        // Only what a set can carry.
        if built(&set_of(b"k", &v, true)).is_some() && !matches!(&v, MVal::Map(m) if m.keys().any(|k| k.len() > 255)) {
            return v;
        }
    }
}
fn store(p: &mut Place, kt: u8) {
    let k = fresh("set");
    let v = val(p, kt);
    ok(&p.h, set_of(&k, &v, true));
    ok(&p.h, req(GET, None, &[&k]));
    ok(&p.h, req(DELETE, None, &[&k]));
}

/// Everything that a user of an engine may do again and again.
fn acts() -> Vec<Act> {
    vec![
        ("setting and deleting bytes", |p| store(p, BYTES)),
        ("setting and deleting booleans", |p| store(p, BOOL)),
        ("setting and deleting floats", |p| store(p, FLOAT)),
        ("setting and deleting integers", |p| store(p, INT)),
        ("setting and deleting strings", |p| store(p, STR)),
        ("setting and deleting lists", |p| store(p, LIST)),
        ("setting and deleting maps", |p| store(p, MAP)),
        ("setting and deleting sets", |p| store(p, SETT)),
        ("replacing values by others of any type", |p| {
            let k = fresh("rep");
            for _ in 0..4 {
                let kt = p.r.below(8) as u8;
                let v = val(p, kt);
                ok(&p.h, set_of(&k, &v, true));
            }
            ok(&p.h, req(DELETE, None, &[&k]));
        }),
        ("appending", |p| {
            let k = fresh("app");
            let kt = *p.r.pick(&[BYTES, LIST, STR]);
            for _ in 0..4 {
                ok(&p.h, req(APPEND, Some(kt), &[k.as_slice(), b"0123456789abcdef0123456789abcdef"]));
            }
            ok(&p.h, req(LENGTH, None, &[&k]));
            ok(&p.h, req(DELETE, None, &[&k]));
        }),
        ("incrementing", |p| {
            let k = fresh("inc");
            let kt = *p.r.pick(&[INT, FLOAT]);
            ok(&p.h, req(INCR, Some(kt), &[&k]));
            ok(&p.h, req(DECR, None, &[&k]));
            let by = if kt == INT { 7i64.to_be_bytes() } else { 7f64.to_be_bytes() };
            ok(&p.h, req(INCRBY, Some(kt), &[k.as_slice(), &by]));
            ok(&p.h, req(DECRBY, Some(kt), &[k.as_slice(), &by]));
            ok(&p.h, req(DELETE, None, &[&k]));
        }),
        ("renaming", |p| {
            let (a, b, c) = (fresh("ren"), fresh("ren"), fresh("ren"));
            let kt = p.r.below(8) as u8;
            let v = val(p, kt);
            ok(&p.h, set_of(&a, &v, true));
            ok(&p.h, req(RENAME, None, &[&a, &b]));
            ok(&p.h, req(RENAME, None, &[&b, &c]));
            refused(&p.h, req(RENAME, None, &[&c, &c]));
            refused(&p.h, req(RENAME, None, &[&a, &c]));
            ok(&p.h, req(DELETE, None, &[&c]));
        }),
        ("renaming onto keys that exist", |p| {
            let (a, b) = (fresh("ren"), fresh("ren"));
            ok(&p.h, req(SET, Some(BYTES), &[a.as_slice(), b"0123456789abcdef0123456789abcdef"]));
            ok(&p.h, req(SET, Some(LIST), &[b.as_slice(), b"x", b"y"]));
            refused(&p.h, req(RENAME, None, &[&a, &b]));
            refused(&p.h, req(RENAME, None, &[&b, &a]));
            ok(&p.h, req(DELETE, None, &[&a]));
            ok(&p.h, req(DELETE, None, &[&b]));
        }),
        ("reading keys that don't exist", |p| {
            let k = fresh("none");
            for c in [GET, TYPE, LENGTH, KEYS, DELETE] {
                refused(&p.h, req(c, None, &[&k]));
            }
            ok(&p.h, req(EXISTS, None, &[&k]));
            ok(&p.h, req(IS, Some(p.r.below(8) as u8), &[&k, &k]));
            refused(&p.h, req(RENAME, None, &[k.as_slice(), b"elsewhere"]));
        }),
        ("requests that fail", |p| {
            let k = fresh("bad");
            let big: &[u8] = &[b'x'; 300];
            refused(&p.h, req(SET, Some(MAP), &[k.as_slice(), big, b"v"]));
            refused(&p.h, req(SET, Some(MAP), &[k.as_slice(), b"odd"]));
            refused(&p.h, req(SET, Some(INT), &[k.as_slice(), b"short"]));
            refused(&p.h, req(SET, Some(STR), &[k.as_slice(), b"\xff\xfe"]));
            refused(&p.h, req(SET, None, &[&k]));
            refused(&p.h, req(SET, Some(BYTES), &[b"__hop__:x".as_slice(), big]));
            refused(&p.h, req(APPEND, Some(STR), &[k.as_slice(), b"\xff"]));
            refused(&p.h, req(APPEND, Some(INT), &[k.as_slice(), b"12345678"]));
            refused(&p.h, req(INCRBY, Some(INT), &[k.as_slice(), b"1"]));
            ok(&p.h, req(SET, Some(BYTES), &[k.as_slice(), big]));
            refused(&p.h, req(GET, Some(INT), &[&k]));
            refused(&p.h, req(INCR, None, &[&k]));
            refused(&p.h, req(APPEND, Some(LIST), &[k.as_slice(), big]));
            refused(&p.h, req(KEYS, None, &[&k]));
            ok(&p.h, req(DELETE, None, &[&k]));
        }),
        ("statistics and echoes", |p| {
            ok(&p.h, req::<&[u8]>(STATS, None, &[]));
            ok(&p.h, req(ECHO, None, &[fresh("echo"), vec![b'e'; 700]]));
            let m = p.h.metrics();
            let _ = (m.counter(&Metric::CommandsSuccessful), m.gauge(&Metric::CommandsErrored), m.valid());
        }),
        ("adding and removing sessions", |p| {
            let mut s = p.h.sessions().clone();
            let id = match cut(|| *s.add([3; 32]).key()) {
                Ok(id) => id,
                Err(e) => fail("P31: adding a session panicked", e),
            };
            if !s.remove(id) || s.remove(id) {
                fail("P31: a session couldn't be removed once", format!("{id}"));
            }
        }),
        ("subscribing to new keys and unsubscribing", |p| {
            let (k, id) = (fresh("sub"), p.sid);
            let ps = p.h.pubsub();
            match cut(|| (ps.subscribe(k.clone(), id).is_some(), ps.subscribe(k.clone(), id).is_some(), ps.unsubscribe(&k, id), ps.unsubscribe(&k, id), ps.get(&k, id).is_some())) {
                Ok((true, false, true, false, false)) => {}
                x => fail("P31: a subscription call failed", format!("{x:?}")),
            }
        }),
        ("subscribing with new sessions that are removed", |p| {
            let (k, l, id, other) = (fresh("sub"), fresh("sub"), session(), session());
            let ps = p.h.pubsub();
            let x = cut(|| {
                let a = ps.subscribe(k.clone(), id).is_some() && ps.subscribe(l.clone(), id).is_some() && ps.subscribe(k.clone(), other).is_some();
                a && ps.remove_session(id) && !ps.remove_session(id) && ps.remove_session(other)
            });
            if !matches!(x, Ok(true)) {
                fail("P31: a subscription call failed", format!("{x:?}"));
            }
        }),
        ("keeping a subscription beyond its session", |p| {
            let (k, id) = (fresh("sub"), session());
            let ps = p.h.pubsub();
            let s = match cut(|| ps.subscribe(k, id).and_then(|w| w.upgrade())) {
                Ok(Some(s)) => s,
                _ => fail("P31: a subscription call failed", String::new()),
            };
            let _ = (s.receiver(), s.sender());
            if !ps.remove_session(id) {
                fail("P31: a subscription call failed", "remove_session".into());
            }
            p.held = Some(s);
            p.held = None;
        }),
        ("looking up what isn't subscribed", |p| {
            let (k, id) = (fresh("nosub"), session());
            let ps = p.h.pubsub();
            let x = cut(|| ps.get(&k, id).is_some() || ps.unsubscribe(&k, id) || ps.remove_session(id) || ps.unsubscribe(&k, p.sid) || ps.get(&k, p.sid).is_some());
            if !matches!(x, Ok(false)) {
                fail("P31: a subscription call failed", format!("{x:?}"));
            }
        }),
        ("looking up sessions that never subscribed", |p| {
            let (k, id) = (fresh("nosub"), session());
            let ps = p.h.pubsub();
            let x = cut(|| ps.get(&k, id).is_some() || ps.unsubscribe(&k, id));
            if !matches!(x, Ok(false)) {
                fail("P31: a subscription call failed", format!("{x:?}"));
            }
        }),
        ("removing sessions without subscriptions left", |p| {
            let (k, id) = (fresh("sub"), session());
            let ps = p.h.pubsub();
            let x = cut(|| (ps.remove_session(id), ps.subscribe(k.clone(), id).is_some(), ps.unsubscribe(&k, id), ps.remove_session(id)));
            if !matches!(x, Ok((false, true, true, _))) {
                fail("P31: a subscription call failed", format!("{x:?}"));
            }
        }),
        ("using the state directly", |p| {
            let k = fresh("emb");
            let kt = p.r.below(8) as u8;
            let v = val(p, kt);
            let s = p.h.state();
            let x = cut(|| {
                s.insert(k.clone(), to_value(&v));
                s.insert(k.clone(), to_value(&v));
                drop(s.key_mut(&k).map(|mut m| *m.value_mut() = Value::Bytes(vec![1; 900])));
                drop(s.key_or_insert_with(&k, Value::list));
                let n = (s.contains_key(&k), s.key_type(&k).is_some(), s.key_ref(&k).is_some());
                (n, s.remove(&k).is_some(), s.remove(&k).is_some())
            });
            if !matches!(x, Ok(((true, true, true), true, false))) {
                fail("P31: a state call failed", format!("{x:?}"));
            }
        }),
        ("cloning and dropping handles", |p| {
            let h = p.h.clone();
            let (a, b, c, d) = (h.metrics(), h.pubsub().clone(), h.sessions().clone(), h.state().clone());
            p.h = h;
            let n = cut(|| format!("{:?}", p.h.config()).len());
            drop((a, b, c, d, n));
        }),
        ("decoding requests with one decoder", |p| {
            let kt = p.r.below(8) as u8;
            let v = val(p, kt);
            let b = set_of(&fresh("wire"), &v, true).encode();
            let cut_at = p.r.below(b.len());
            if !matches!(p.rq.feed(&b[..cut_at]), Ok(None)) {
                fail("P31: a part of a request was taken for a request", hex(&b));
            }
            match p.rq.feed(&b) {
                Ok(Some(q)) => drop(q.into_owned_bytes()),
                x => fail("P31: a request wasn't decoded", format!("{x:?}: {}", hex(&b))),
            }
        }),
        ("decoding replies with one decoder", |p| {
            let kt = p.r.below(8) as u8;
            let v = val(p, kt);
            let b = Response::from_value(to_value(&v));
            let _ = p.rs.feed(&b[..b.len() / 2]);
            match p.rs.feed(&b) {
                Ok(response::Instruction::Concluded(_)) => {}
                x => fail("P31: a reply wasn't decoded", format!("{x:?}: {}", hex(&b))),
            }
        }),
    ]
}

trait Bytes {
    fn into_owned_bytes(self) -> Vec<u8>;
}
impl Bytes for request::Request<'_> {
    fn into_owned_bytes(self) -> Vec<u8> {
        let b = self.as_bytes().to_vec();
        let _ = self.into_bytes();
        b
    }
}
trait FromValue {
    fn from_value(v: Value) -> Vec<u8>;
}
impl FromValue for Response {
    fn from_value(v: Value) -> Vec<u8> {
        Response::Value(v).as_bytes()
    }
}

/// Growth that goes on is a leak; a table or buffer that found its size is none.
fn judge(kind: &str, what: &str, after: &[i64], from: usize, slack: i64) {
    let lowest = *after[after.len() - 3..].iter().min().unwrap();
    let highest = *after[..=from].iter().max().unwrap();
    alloc::unseen(|| {
        maxi(kind, (lowest - highest).max(0) as u64);
        if get_count("series_measured") % 12 == 0 {
            sample(|| format!("{what}: bytes in use after equal batches: {after:?}"));
        }
        count("series_measured", 1);
    });
    if lowest - highest > slack {
        fail(
            "P31: memory grows although nothing stays stored",
            format!("{what}: bytes in use after each of {} equal batches: {after:?}", after.len()),
        );
    }
}

/// Let every table of the engine find a size that it doesn't outgrow afterwards.
fn widen(h: &Hop, sid: Option<SessionId>, n: usize) {
    let mut s = h.sessions().clone();
    let names: Vec<Vec<u8>> = (0..n).map(|_| fresh("widen")).collect();
    let mut ids = vec![];
    let all: Vec<SessionId> = names.iter().map(|_| session()).collect();
    for (i, k) in names.iter().enumerate() {
        ids.push(*s.add([0; 32]).key());
        h.state().insert(k.clone(), Value::Boolean(true));
        h.pubsub().subscribe(k.clone(), sid.unwrap_or(all[0]));
        if i < n / 4 {
            h.pubsub().subscribe(k.clone(), all[i]);
        }
    }
    for (i, k) in names.iter().enumerate() {
        h.state().remove(k);
        h.pubsub().unsubscribe(k, sid.unwrap_or(all[0]));
        h.pubsub().remove_session(all[i]);
        s.remove(ids[i]);
    }
}

/// One activity again and again, with ever new names.
fn repeated(r: &mut Rng, a: &Act, per: usize) {
    describe(format!("P31 {}", a.0));
    let before = alloc::mine();
    let mut p = Place { h: hop(), r: Rng::new(r.next(), 3), rq: Default::default(), rs: Default::default(), held: None, sid: session() };
    // A session that is subscribed all along, and a value of another key.
    p.h.pubsub().subscribe(b"always".to_vec(), p.sid);
    ok(&p.h, req(SET, Some(LIST), &[b"always".as_slice(), b"stored"]));
    widen(&p.h, Some(p.sid), 1500);
    let kinds = dump(&p.h);
    let mut after: Vec<i64> = Vec::with_capacity(64);
    for _ in 0..16 {
        for _ in 0..per {
            (a.1)(&mut p);
        }
        after.push(alloc::mine());
    }
    eval(16 * per as u64);
    judge("growth_of_activities", a.0, &after, 4, (per as i64) * 8);
    if dump(&p.h) != kinds {
        fail("P31: something stayed stored", a.0.into());
    }
    drop((p, kinds, after));
    let left = alloc::mine() - before;
    maxi("left_by_dropped", left.max(0) as u64);
    if left > 256 {
        fail("P31: a dropped engine leaves memory behind", format!("{}: {left} bytes", a.0));
    }
    count("activities", 1);
    distinct(&("act", a.0, per));
}

/// The activities mixed, by several threads on one engine.
fn together(r: &mut Rng, per: usize) {
    let h = hop();
    let acts = acts();
    let batches = 14;
    let mut after: Vec<i64> = Vec::with_capacity(64);
    let n = r.range(2, 5);
    let pick: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(acts.len())).collect();
    let names: Vec<&str> = pick.iter().map(|i| acts[*i].0).collect();
    describe(format!("P31 {n} threads: {names:?}"));
    widen(&h, None, 1500);
    for _ in 0..batches {
        parallel(n, r.next(), Noise { den: 0, ns: 0 }, |_, r, gate| {
            let mut p = Place { h: h.clone(), r: Rng::new(r.next(), 4), rq: Default::default(), rs: Default::default(), held: None, sid: session() };
            gate.wait();
            for _ in 0..per {
                let a = &acts[*r.pick(&pick)];
                (a.1)(&mut p);
            }
            h.pubsub().remove_session(p.sid);
        });
        after.push(alloc::live());
    }
    eval((batches * n * per) as u64);
    // The tables of up to this many things at once, and what the threads of the harness keep.
    judge("growth_of_threads", &format!("{n} threads: {names:?}"), &after, 5, 48 * 1024);
    count("rounds_of_threads", 1);
    distinct(&("together", n, pick));
}

/// Many keys and sessions at once, then none.
fn waves(r: &mut Rng, width: usize) {
    let before = alloc::mine();
    let h = hop();
    let mut r = Rng::new(r.next(), 6);
    widen(&h, None, width * 4);
    let mut after: Vec<i64> = Vec::with_capacity(64);
    for _ in 0..36 {
        let names: Vec<Vec<u8>> = (0..width).map(|_| fresh("wave")).collect();
        let ids: Vec<SessionId> = (0..8).map(|_| session()).collect();
        for (i, k) in names.iter().enumerate() {
            let kt = [BYTES, STR, INT, LIST][i % 4];
            let v = match kt {
                INT => MVal::Int(i as i64),
                LIST => MVal::List(vec![vec![b'l'; 20]; 3]),
                BYTES => MVal::Bytes(vec![b'b'; 1 + i % 90]),
                _ => MVal::Str(vec![b's'; 1 + i % 90]),
            };
            ok(&h, set_of(k, &v, true));
            h.pubsub().subscribe(k.clone(), ids[i % 8]);
            h.pubsub().subscribe(k.clone(), ids[(i + 3) % 8]);
        }
        for k in &names {
            if r.chance(1, 3) {
                h.pubsub().unsubscribe(k, *r.pick(&ids));
            }
            ok(&h, req(DELETE, None, &[k]));
        }
        for id in ids {
            h.pubsub().remove_session(id);
        }
        drop(names);
        after.push(alloc::mine());
    }
    eval(36 * width as u64);
    judge("growth_of_waves", &format!("{width} keys of 8 sessions at once"), &after, 11, 64 * 1024);
    drop(h);
    let left = alloc::mine() - before - (after.capacity() * 8) as i64;
    if left > 256 {
        fail("P31: a dropped engine leaves memory behind", format!("{left} bytes"));
    }
    count("waves", 36);
    distinct(&("waves", width));
}

/// After a long history an engine holds little more than one that was given only the outcome.
fn outcome(r: &mut Rng) {
    let s = r.next();
    let mut r = Rng::new(s, 7);
    describe(format!("P31 history {s}"));
    let n = r.range(1, 5);
    // An engine whose tables don't grow any more, and what it takes.
    let wide = || {
        let a = alloc::mine();
        let h = hop();
        widen(&h, None, 500);
        let b = alloc::mine();
        (h, b - a)
    };
    let (h, empty) = wide();
    let keys = gen::keys(&mut r, n);
    let mut hist: Vec<Req> = vec![];
    for _ in 0..r.range(20, 300) {
        let big = r.chance(1, 10);
        let q = if r.chance(1, 4) { gen::set_req(&mut r, &keys[0], *&[BYTES, LIST, STR][s as usize % 3], true, big) } else { gen::any_req(&mut r, &keys, &|_| None, big) };
        if run(&h, &q).is_some() {
            hist.push(q);
        }
    }
    let want = dump(&h);
    let (g, same) = wide();
    for (k, v) in &want {
        g.state().insert(k.clone(), to_value(v));
    }
    let a = alloc::mine();
    drop(h);
    let b = alloc::mine();
    drop(g);
    let c = alloc::mine();
    let (old, new) = (a - b - empty, b - c - same);
    maxi("held_beyond_twice_the_outcome", (old - 2 * new).max(0) as u64);
    maxi("most_held_after_a_history", old.max(0) as u64);
    eval(hist.len() as u64);
    count("histories", 1);
    distinct(&("history", old, new));
    // Appending grows by doubling; the items of maps and sets may be spread differently.
    if old > 2 * new + 3 * 1024 {
        let lens: Vec<String> = hist.iter().rev().take(12).map(|q| format!("{q:?}")).collect();
        fail(
            "P31: an engine holds much more than what is stored in it",
            format!("{old} bytes after {} requests, {new} bytes with just the same values; the last requests, newest first:\n{}", hist.len(), lens.join("\n")),
        );
    }
}

/// One large value that is replaced, deleted or renamed away gives its memory back at once.
fn large(r: &mut Rng) {
    let kt = *r.pick(&[BYTES, STR, LIST, MAP, SETT]);
    let size = r.range(100_000, 2_000_000);
    let v = match kt {
        BYTES => MVal::Bytes(vec![b'b'; size]),
        STR => MVal::Str(vec![b's'; size]),
        LIST => MVal::List((0..200).map(|_| vec![b'l'; size / 200]).collect()),
        MAP => MVal::Map((0..120).map(|i| (format!("{i}").into_bytes(), vec![b'm'; size / 120])).collect()),
        _ => MVal::Set((0..200).map(|i| [format!("{i}").into_bytes(), vec![b'm'; size / 200]].concat()).collect()),
    };
    let h = hop();
    let (k, l) = (fresh("large"), fresh("large"));
    let q = set_of(&k, &v, true);
    let before = alloc::mine();
    let way = r.below(6);
    ok(&h, q.clone());
    let full = alloc::mine() - before;
    let small = *r.pick(&[BYTES, INT, kt]);
    let w = match small {
        BYTES => MVal::Bytes(vec![1]),
        INT => MVal::Int(1),
        STR => MVal::Str(vec![b'x']),
        LIST => MVal::List(vec![vec![b'x']]),
        MAP => MVal::Map([(vec![b'x'], vec![b'x'])].into()),
        _ => MVal::Set([vec![b'x']].into()),
    };
    match way {
        0 => ok(&h, set_of(&k, &w, true)),
        1 => ok(&h, req(DELETE, None, &[&k])),
        2 => {
            ok(&h, req(RENAME, None, &[&k, &l]));
            ok(&h, req(DELETE, None, &[&l]));
        }
        3 => {
            ok(&h, req(RENAME, None, &[&k, &l]));
            ok(&h, set_of(&l, &w, true));
        }
        4 => {
            ok(&h, set_of(&k, &v, true));
            refused(&h, req(INCR, Some(INT), &[&k]));
            ok(&h, set_of(&k, &w, true));
        }
        _ => {
            h.state().insert(k.clone(), to_value(&w));
        }
    }
    let left = alloc::mine() - before;
    eval(1);
    distinct(&("large", kt, way, small));
    count("large_values", 1);
    if full < size as i64 / 2 {
        inconclusive("a large value wasn't seen in memory");
    }
    // Each map or set has a table per shard, and the engine's own tables may have grown.
    maxi("kept_of_large", left.max(0) as u64);
    if left > 48 * 1024 {
        fail("P31: a large value's memory wasn't given back", format!("{} of {size} bytes, way {way}, then {}: {left} bytes are still in use, {full} were with it", type_name(kt), type_name(small)));
    }
}

/// The client library and the command line, call after call.
fn calls(r: &mut Rng) {
    let mut rt = p_client::rt();
    let srv = Server::start("p31", None, None);
    let remote = match rt.block_on(Client::connect(srv.addr)) {
        Ok(c) => c,
        Err(e) => fail("P31: connecting to a server failed", format!("{e:?}")),
    };
    let direct = match rt.block_on(ServerBackend::connect(srv.addr)) {
        Ok(c) => c,
        Err(e) => fail("P31: connecting to a server failed", format!("{e:?}")),
    };
    let local = Client::memory();
    let per = 40;
    for what in ["calls over a server", "calls in memory", "lines over a server", "lines in memory", "calls of a backend"] {
        describe(format!("P31 {what}"));
        for _ in 0..if what.ends_with("memory") { 800 } else { 0 } {
            let k = fresh("widen");
            let _ = rt.block_on(local.set(&k[..]).bytes(vec![1]));
            let _ = rt.block_on(local.delete(&k[..]));
        }
        let mut after: Vec<i64> = Vec::with_capacity(64);
        for _ in 0..14 {
            for _ in 0..per {
                let (k, l) = (fresh("call"), fresh("call"));
                let n = r.range(1, 4);
                let x: Result<(), String> = cut(|| {
                    rt.block_on(async {
                        macro_rules! some {
                            ($c:expr) => {{
                                let c = $c;
                                c.set(&k[..]).bytes(vec![7; 90]).await.map_err(|e| e.to_string())?;
                                c.append(&k[..]).bytes(vec![8; 9 * n]).await.map_err(|e| e.to_string())?;
                                c.get(&k[..]).bytes().await.map_err(|e| e.to_string())?;
                                let _ = c.get(&k[..]).int().await;
                                c.rename(&k[..], &l[..]).await.map_err(|e| e.to_string())?;
                                c.delete(&l[..]).await.map_err(|e| e.to_string())?;
                                c.stats().await.map_err(|e| e.to_string())?;
                                c.echo(&l[..]).await.map_err(|e| e.to_string())?;
                                let _ = c.get(&k[..]).await;
                                Ok(())
                            }};
                        }
                        macro_rules! lines {
                            ($c:expr) => {{
                                let c = $c;
                                let (k, l) = (String::from_utf8_lossy(&k), String::from_utf8_lossy(&l));
                                for s in [format!("set:list {k} a b c"), format!("get {k}"), format!("rename {k} {l}"), format!("nonsense {k}"), format!("incr {l}"), format!("delete {l}"), format!("get {l}"), "stats".into()] {
                                    let _ = hop_cli::process(c, &s).await;
                                }
                                Ok(())
                            }};
                        }
                        match what {
                            "calls over a server" => some!(&remote),
                            "calls in memory" => some!(&local),
                            "lines over a server" => lines!(&remote),
                            "lines in memory" => lines!(&local),
                            _ => {
                                direct.set(&k, Value::List(vec![vec![1; 300]; n])).await.map_err(|e| e.to_string())?;
                                let _ = direct.increment(&k, None).await;
                                direct.delete(&k).await.map_err(|e| e.to_string())?;
                                Ok(())
                            }
                        }
                    })
                })
                .and_then(|x| x);
                if let Err(e) = x {
                    fail("P31: a client call failed", format!("{what}: {e}"));
                }
            }
            after.push(alloc::mine());
        }
        eval(14 * per as u64);
        judge("growth_of_calls", what, &after, 5, 4 * 1024);
        count("rounds_of_calls", 1);
        distinct(&("calls", what));
    }
}

pub fn p31() {
    let c = ctx();
    rule("a case is one kind of activity done again and again with ever new names, several kinds done by several threads, many keys and subscriptions stored at once and removed again, a history whose outcome is stored anew in a fresh engine, a large value that is given up, or a kind of client call done again and again; distinct by kind, sizes and way");
    let mut r = c.rng(3100);
    alloc::counting(true);
    // Whatever is set up once.
    let acts = acts();
    for (i, a) in acts.iter().enumerate() {
        let per = if i < 9 { 60 } else { 120 };
        repeated(&mut r, a, c.scale(per, per * 8));
    }
    calls(&mut r);
    waves(&mut r, 300);
    let mut n = 0usize;
    while !c.over() || n < 10 {
        n += 1;
        for _ in 0..12 {
            large(&mut r);
        }
        for _ in 0..10 {
            outcome(&mut r);
        }
        together(&mut r, 40);
        if n % 6 == 0 {
            let w = r.range(50, 600);
            waves(&mut r, w);
        }
        if n % 4 == 0 {
            let a = r.pick(&acts);
            repeated(&mut r, a, 50);
        }
        if c.thorough && n % 40 == 0 {
            calls(&mut r);
        }
    }
    alloc::counting(false);
}
