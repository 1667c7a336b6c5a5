//! P32: what is sent through a subscription reaches exactly those who hold it.
use crate::{common::*, eng::*, gen, p_conc::*, rng::Rng, wire::*};
use hop_engine::{
    pubsub::{KeyUpdate, PubSubManager, Subscription},
    session::SessionId,
};
use std::{
    collections::BTreeMap,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    thread::Thread,
    time::{Duration, Instant},
};

struct Unpark(Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.1.store(true, Ordering::SeqCst);
        self.0.unpark();
    }
}

/// Poll when woken, and only then. Nothing for 30 s means that nothing will ever come.
fn wait<T>(mut f: Pin<&mut impl Future<Output = T>>, what: impl Fn() -> String) -> T {
    let me = Arc::new(Unpark(std::thread::current(), AtomicBool::new(true)));
    let waker = Waker::from(me.clone());
    let mut cx = Context::from_waker(&waker);
    let mut since = Instant::now();
    loop {
        if me.1.swap(false, Ordering::SeqCst) {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                return x;
            }
            since = Instant::now();
        }
        if since.elapsed() > Duration::from_secs(30) {
            fail("P32: a holder of a subscription waits for ever", what());
        }
        std::thread::park_timeout(Duration::from_secs(1));
    }
}

pub fn once<T>(f: Pin<&mut impl Future<Output = T>>) -> Poll<T> {
    let w = Waker::from(Arc::new(Unpark(std::thread::current(), AtomicBool::new(false))));
    f.poll(&mut Context::from_waker(&w))
}

fn sid(n: u32) -> SessionId {
    SessionId::verif_new(n)
}

type Seen = (u8, Option<MVal>, Vec<u8>);

fn update(kind: u8, v: &MVal, tag: &[u8]) -> KeyUpdate {
    match kind {
        0 => KeyUpdate::Deleted(value_of(v)),
        1 => KeyUpdate::Initialized(value_of(v)),
        2 => KeyUpdate::Renamed { to: tag.to_vec() },
        _ => KeyUpdate::Updated(value_of(v)),
    }
}

fn seen(u: &KeyUpdate) -> Seen {
    match u {
        KeyUpdate::Deleted(v) => (0, Some(mval(v)), vec![]),
        KeyUpdate::Initialized(v) => (1, Some(mval(v)), vec![]),
        KeyUpdate::Renamed { to } => (2, None, to.clone()),
        KeyUpdate::Updated(v) => (3, Some(mval(v)), vec![]),
    }
}

fn value_of(v: &MVal) -> hop_engine::state::Value {
    use hop_engine::state::Value;
    match v {
        MVal::Bool(b) => Value::Boolean(*b),
        MVal::Bytes(b) => Value::Bytes(b.clone()),
        MVal::Float(f) => Value::Float(f64::from_bits(*f)),
        MVal::Int(i) => Value::Integer(*i),
        MVal::Str(s) => Value::String(String::from_utf8(s.clone()).expect("text")),
        MVal::List(l) => Value::List(l.clone()),
        MVal::Map(m) => Value::Map(m.clone().into_iter().collect()),
        MVal::Set(s) => Value::Set(s.clone().into_iter().collect()),
    }
}

/// One thread: each update sent to one of several subscriptions is received there, once it is waited for, and nowhere else.
fn sequential(r: &mut Rng) {
    let h = hop();
    let ps = h.pubsub();
    let nk = r.range(1, 4);
    let keys = gen::keys(r, nk);
    let ns = r.range(1, 4) as u32;
    let mut subs: BTreeMap<(u32, usize), Arc<Subscription>> = BTreeMap::new();
    // Subscriptions that somebody still holds although they ended.
    let mut ended: Vec<(Arc<Subscription>, bool)> = vec![];
    let steps = r.range(5, 80);
    let mut trace = String::new();
    let mut shape = vec![];
    for step in 0..steps {
        let (s, k) = (r.below(ns as usize) as u32, r.below(keys.len()));
        let had = subs.get(&(s, k)).cloned();
        let op = r.below(8);
        shape.push((op, had.is_some()));
        trace.push_str(&format!("{op} on session {s} key {k}\n"));
        match (op, had) {
            (0 | 1, None) => match ps.subscribe(keys[k].clone(), sid(s)).and_then(|w| w.upgrade()) {
                Some(a) => {
                    subs.insert((s, k), a);
                }
                None => fail("P32: a session can't subscribe", trace),
            },
            (2, Some(a)) => {
                if !ps.unsubscribe(&keys[k], sid(s)) {
                    fail("P32: a session can't unsubscribe", trace);
                }
                subs.remove(&(s, k));
                ended.push((a, false));
            }
            (3, Some(_)) if r.chance(1, 2) => {
                ps.remove_session(sid(s));
                let mine: Vec<_> = subs.keys().filter(|x| x.0 == s).copied().collect();
                for x in mine {
                    let a = subs.remove(&x).unwrap();
                    ended.push((a, true));
                }
            }
            (_, Some(a)) => {
                let found = ps.get(&keys[k], sid(s)).and_then(|w| w.upgrade());
                let via = if r.chance(1, 2) { found.unwrap_or_else(|| fail("P32: a lookup misses a subscription", trace.clone())) } else { a.clone() };
                let n = r.below(8) as u8;
                let v = gen::value(r, n, false);
                let kind = r.below(4) as u8;
                let u = update(kind, &v, format!("to{step}").as_bytes());
                let want = seen(&u);
                let tx = via.sender();
                let rx = a.receiver();
                let receiver_first = r.chance(1, 2);
                let mut send = Box::pin(tx.send(u));
                let mut receive = Box::pin(rx.receive());
                if receiver_first {
                    if once(receive.as_mut()).is_ready() {
                        fail("P32: an update that nobody sent was received", trace);
                    }
                }
                if once(send.as_mut()).is_ready() && !receiver_first {
                    fail("P32: an update counts as sent although nobody received it", trace);
                }
                // Whoever only looks takes nothing.
                for _ in 0..r.below(3) {
                    match r.below(4) {
                        0 => drop(ps.get(&keys[k], sid(s)).and_then(|w| w.upgrade()).map(|o| (o.receiver(), o.sender()))),
                        1 => {
                            if ps.subscribe(keys[k].clone(), sid(s)).is_some() {
                                fail("P32: a session subscribed twice", trace);
                            }
                        }
                        2 => drop((a.receiver(), a.sender(), format!("{a:?}"))),
                        _ => {
                            // Another session comes and goes.
                            ps.subscribe(keys[k].clone(), sid(ns + 1));
                            if r.chance(1, 2) {
                                ps.unsubscribe(&keys[k], sid(ns + 1));
                            }
                            ps.remove_session(sid(ns + 1));
                        }
                    }
                }
                // Nobody else gets it.
                for (x, o) in subs.iter().filter(|(x, _)| **x != (s, k)).map(|(x, o)| (format!("{x:?}"), o)).chain(ended.iter().map(|(o, _)| ("ended".into(), o))) {
                    if let Ok(u) = o.receiver().try_receive() {
                        fail("P32: an update reached another subscription", format!("{:?} at {x}\n{trace}", seen(&u)));
                    }
                }
                match once(receive.as_mut()) {
                    Poll::Ready(Some(u)) if seen(&u) == want => {}
                    Poll::Ready(Some(u)) => fail("P32: another update than the sent one was received", format!("{:?} instead of {want:?}\n{trace}", seen(&u))),
                    Poll::Ready(None) => fail("P32: a subscription ended by itself", trace),
                    Poll::Pending => fail("P32: a sent update wasn't received", format!("{want:?}\n{trace}")),
                }
                match once(send.as_mut()) {
                    Poll::Ready(Ok(())) => {}
                    Poll::Ready(Err(_)) => fail("P32: a received update counts as not sent", trace),
                    Poll::Pending => fail("P32: an update was received but isn't sent", trace),
                }
                count("updates_one_at_a_time", 1);
            }
            _ => {}
        }
        eval(1);
    }
    for (a, removed) in &ended {
        if *removed {
            // Nothing can be sent to the subscription of a removed session, and what was to be sent comes back.
            let u = update(2, &MVal::Bool(true), b"back");
            let tx = a.sender();
            let mut send = Box::pin(tx.send(u));
            match once(send.as_mut()) {
                Poll::Ready(Err(e)) if seen(&e.0) == (2, None, b"back".to_vec()) => {}
                Poll::Ready(Ok(())) => fail("P32: an update was sent to the subscription of a removed session", trace),
                Poll::Pending => fail("P32: sending to the subscription of a removed session waits", trace),
                Poll::Ready(Err(_)) => fail("P32: what couldn't be sent isn't given back", trace),
            }
            count("sends_after_the_end", 1);
        }
    }
    distinct(&shape);
    sample(|| format!("{steps} operations of {ns} sessions on {} keys, ops {:?}", keys.len(), shape.iter().take(12).collect::<Vec<_>>()));
}

/// A session of many subscriptions is removed while everybody waits at them.
fn many(r: &mut Rng) {
    let h = hop();
    let ps = h.pubsub();
    let n = *r.pick(&[1, 5, 30, 65, 130, 300, 1100]);
    let key = |i: usize| format!("many{i}").into_bytes();
    let subs: Vec<Arc<Subscription>> = (0..n)
        .map(|i| match ps.subscribe(key(i), sid(1)).and_then(|w| w.upgrade()) {
            Some(a) => a,
            None => fail("P32: a session can't subscribe", format!("{i} of {n}")),
        })
        .collect();
    // Another one, at every third of the keys, stays.
    let other: Vec<Option<Arc<Subscription>>> = (0..n).map(|i| (i % 3 == 0).then(|| ps.subscribe(key(i), sid(2)).and_then(|w| w.upgrade())).flatten()).collect();
    let ends: Vec<_> = subs.iter().map(|a| (a.sender(), a.receiver())).collect();
    let others: Vec<_> = other.iter().flatten().map(|a| a.receiver()).collect();
    let waits: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    let mut receives: Vec<_> = ends.iter().map(|e| Box::pin(e.1.receive())).collect();
    let mut sends: Vec<_> = ends.iter().enumerate().map(|(i, e)| Box::pin(e.0.send(update(2, &MVal::Bool(true), format!("{i}").as_bytes())))).collect();
    let mut stay: Vec<_> = others.iter().map(|e| Box::pin(e.receive())).collect();
    for i in 0..n {
        let ready = if waits[i] { once(receives[i].as_mut()).is_ready() } else { once(sends[i].as_mut()).is_ready() };
        if ready {
            fail("P32: a holder of a subscription doesn't wait for the other end", format!("{i} of {n}, receiver {}", waits[i]));
        }
    }
    if stay.iter_mut().any(|f| once(f.as_mut()).is_ready()) {
        fail("P32: an update that nobody sent was received", format!("{n} subscriptions"));
    }
    ps.remove_session(sid(1));
    for i in 0..n {
        if waits[i] {
            match once(receives[i].as_mut()) {
                Poll::Ready(None) => {}
                Poll::Ready(Some(u)) => fail("P32: an update that nobody sent was received", format!("{:?}", seen(&u))),
                Poll::Pending => fail("P32: a receiver isn't told that the session was removed", format!("subscription {i} of {n}")),
            }
        } else {
            match once(sends[i].as_mut()) {
                Poll::Ready(Err(e)) if seen(&e.0) == (2, None, format!("{i}").into_bytes()) => {}
                Poll::Ready(Err(e)) => fail("P32: what couldn't be sent isn't given back", format!("{:?}", seen(&e.0))),
                Poll::Ready(Ok(())) => fail("P32: an update counts as sent although nobody received it", format!("subscription {i} of {n}")),
                Poll::Pending => fail("P32: a sender isn't told that the session was removed", format!("subscription {i} of {n}")),
            }
        }
    }
    for (i, f) in stay.iter_mut().enumerate() {
        if once(f.as_mut()).is_ready() {
            fail("P32: a subscription ended with another session", format!("{i} of {n}"));
        }
    }
    eval(n as u64);
    count("waiting_holders_told", n as u64);
    distinct(&("many", n, waits.iter().take(20).copied().collect::<Vec<_>>()));
}

/// Threads send to and receive from some subscriptions until these end.
fn concurrent(r: &mut Rng, seed: u64) {
    let h = hop();
    let ps: PubSubManager = h.pubsub().clone();
    let n = r.range(1, 3);
    let same_key = r.chance(1, 2);
    let same_session = !same_key && r.chance(1, 2);
    let name = |i: usize| if same_key { b"key".to_vec() } else { format!("key{i}").into_bytes() };
    let who = |i: usize| sid(if same_session { 7 } else { i as u32 });
    for i in 0..n {
        if ps.subscribe(name(i), who(i)).is_none() {
            fail("P32: a session can't subscribe", format!("{i}"));
        }
    }
    let (ntx, nrx) = (r.range(1, 3), r.range(1, 3));
    let per = r.range(1, 40);
    // The end comes after all was sent, or at any time.
    let early = r.chance(1, 3).then(|| r.range(0, n * ntx * per) as u64);
    let noise = Noise::pick(r);
    let senders_left = AtomicUsize::new(n * ntx);
    let received = AtomicU64::new(0);
    // What was received: (receiver, sender, number).
    let log: Mutex<Vec<(usize, usize, usize, usize)>> = Mutex::new(vec![]);
    let sent: Mutex<Vec<(usize, usize, usize, bool)>> = Mutex::new(vec![]);
    let w = |e: &str| format!("{e}\n{n} subscriptions, {ntx} senders of {per} updates and {nrx} receivers each, one key {same_key}, one session {same_session}, early end {early:?}, {noise:?}");
    let end = || {
        for i in 0..n {
            ps.remove_session(who(i));
        }
    };
    let ended = AtomicBool::new(false);
    parallel(n * (ntx + nrx), seed, noise, |t, r, gate| {
        let i = t % n;
        let part = t / n;
        let Some(sub) = ps.get(&name(i), who(i)).and_then(|x| x.upgrade()) else { fail("P32: a lookup misses a subscription", w("")) };
        gate.wait();
        if part < ntx {
            let tx = sub.sender();
            let mut mine = vec![];
            for j in 0..per {
                let tag = format!("{i}.{part}.{j}").into_bytes();
                let u = match r.below(4) as u8 {
                    2 => update(2, &MVal::Bool(true), &tag),
                    k => update(k, &if r.chance(1, 2) { MVal::Bytes(tag.clone()) } else { MVal::List(vec![tag.clone()]) }, &tag),
                };
                let want = seen(&u);
                let f = tx.send(u);
                let mut f = Box::pin(f);
                match wait(f.as_mut(), || w(&format!("sender {part} of subscription {i}, update {j}"))) {
                    Ok(()) => mine.push((i, part, j, true)),
                    Err(e) => {
                        if early.is_none() {
                            fail("P32: a subscription ended by itself", w(""));
                        }
                        if seen(&e.0) != want {
                            fail("P32: what couldn't be sent isn't given back", w(&format!("{:?} instead of {want:?}", seen(&e.0))));
                        }
                        mine.push((i, part, j, false));
                    }
                }
            }
            sent.lock().unwrap().extend(mine);
            if senders_left.fetch_sub(1, Ordering::SeqCst) == 1 && !ended.swap(true, Ordering::SeqCst) {
                end();
            }
        } else {
            let rx = sub.receiver();
            let mut mine = vec![];
            loop {
                let f = rx.receive();
                let mut f = Box::pin(f);
                let Some(u) = wait(f.as_mut(), || w(&format!("receiver {part} of subscription {i}"))) else { break };
                let tag = match seen(&u) {
                    (2, None, to) => to,
                    (0 | 1 | 3, Some(MVal::Bytes(b)), _) => b,
                    (0 | 1 | 3, Some(MVal::List(l)), _) if l.len() == 1 => l[0].clone(),
                    x => fail("P32: another update than any sent one was received", w(&format!("{x:?}"))),
                };
                let text = String::from_utf8_lossy(&tag).into_owned();
                let v: Vec<usize> = text.split('.').filter_map(|x| x.parse().ok()).collect();
                if v.len() != 3 {
                    fail("P32: another update than any sent one was received", w(&text));
                }
                if v[0] != i {
                    fail("P32: an update reached another subscription", w(&format!("{text} at subscription {i}")));
                }
                mine.push((part, v[0], v[1], v[2]));
                let total = received.fetch_add(1, Ordering::SeqCst) + 1;
                if early.is_some_and(|e| total >= e) && !ended.swap(true, Ordering::SeqCst) {
                    end();
                }
            }
            log.lock().unwrap().extend(mine);
        }
    });
    let (log, sent) = (log.into_inner().unwrap(), sent.into_inner().unwrap());
    let mut got: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    for x in &log {
        *got.entry((x.1, x.2, x.3)).or_default() += 1;
    }
    for (i, s, j, ok) in &sent {
        let times = got.remove(&(*i, *s, *j)).unwrap_or(0);
        if times != *ok as usize {
            fail("P32: an update wasn't received exactly once", w(&format!("update {j} of sender {s} of subscription {i}: sent {ok}, received {times} times")));
        }
    }
    if let Some((x, _)) = got.first_key_value() {
        fail("P32: another update than any sent one was received", w(&format!("{x:?}")));
    }
    // Each receiver gets the updates of each sender in the order they were sent in.
    let mut last: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
    let mut order = vec![];
    for (rcv, i, s, j) in &log {
        if let Some(p) = last.insert((*rcv, *i, *s), *j) {
            if p >= *j {
                fail("P32: updates of one sender were received in another order", w(&format!("{j} after {p} of sender {s} at receiver {rcv} of subscription {i}")));
            }
        }
        order.push((*rcv, *i, *s));
    }
    for i in 0..n {
        if ps.get(&name(i), who(i)).is_some() {
            fail("P32: a removed session is still subscribed", w(""));
        }
    }
    let ok = sent.iter().filter(|x| x.3).count() as u64;
    eval(ok);
    count("updates_received", ok);
    count("updates_given_back", sent.len() as u64 - ok);
    count("concurrent_rounds", 1);
    distinct(&(n, ntx, nrx, order));
}

pub fn p32() {
    let c = ctx();
    rule("a case is one run of updates of every kind sent and received through several subscriptions: one at a time with every other subscription looked at in between, or by 2-18 threads until the sessions are removed, with every update sent matched with what was received; distinct by operations, or by the order in which receivers got updates of which senders");
    assume("a holder who isn't woken for 30 s is never woken");
    let mut r = c.rng(32);
    let mut i = 0u64;
    while !c.over() || get_count("concurrent_rounds") < 50 {
        i += 1;
        describe(format!("P32 round {i}"));
        if i % 3 == 0 {
            let s = r.next();
            concurrent(&mut r, s);
        } else if i % 50 == 1 {
            many(&mut r);
        } else {
            sequential(&mut r);
        }
    }
    if get_count("updates_received") < 500 || get_count("updates_one_at_a_time") < 500 || get_count("updates_given_back") == 0 {
        inconclusive("too few updates");
    }
}
