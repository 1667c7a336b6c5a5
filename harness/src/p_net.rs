//! P15-P17: the real server process over TCP.
use crate::{common::*, gen, model, model::*, net::*, p_conc::*, rng::Rng, wire::*};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

static CASE: AtomicU64 = AtomicU64::new(1);
fn case_id() -> u64 {
    CASE.fetch_add(1, Ordering::Relaxed)
}

/// A missing reply only counts when the server can be shown to be able to answer.
fn judge_stuck(srv: &Server, prop: &str, w: String) -> ! {
    if let Some(s) = srv.ended() {
        fail(&format!("{prop}: the server process ended"), format!("{s}\n{w}"));
    }
    fail(&format!("{prop}: a reply never came"), w)
}

fn prefixed(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let id = case_id();
    gen::keys(r, n)
        .into_iter()
        .map(|k| {
            let mut p = format!("c{id}").into_bytes();
            p.extend_from_slice(match id % 4 {
                0 => b"\n",
                1 => b"\0\n\r",
                _ => b".",
            });
            p.extend(k);
            p
        })
        .collect()
}

/// Requests on keys of their own, with the expected reply to each.
fn script(r: &mut Rng, n: usize, big: bool) -> (Vec<Req>, Vec<Expect>, Vec<Db>) {
    let nk = r.range(1, 4);
    let mut keys = prefixed(r, nk);
    if r.chance(1, 4) {
        keys.push(b"__hop__:x".to_vec());
    }
    let mut db = Db::new();
    let (mut q, mut e, mut after) = (vec![], vec![], vec![]);
    let mut vol = 0usize;
    for _ in 0..n {
        let rq = match r.below(14) {
            0 => req::<&[u8]>(*r.pick(&ALL), None, &[]),
            1 => {
                // Replies large enough to fill socket buffers.
                let l = if big { r.range(50_000, 400_000) } else { r.range(100, 3000) };
                req(ECHO, None, &[gen::blob(r, l)])
            }
            _ => gen::any_req(r, &keys, &|k| db.get(k).map(|v| v.kind()), big),
        };
        let rq = if rq.cmd == STATS { req(ECHO, None, &[b"stats"]) } else { rq };
        let mut d = db.clone();
        let x = model::apply(&mut d, &rq);
        if x == Expect::Open {
            continue;
        }
        if let Expect::Float(k, f) = &x {
            // The sign of a zero and the payload of a NaN are the engine's choice.
            if *f == 0.0 || f.is_nan() {
                let k = k.clone();
                drop(x);
                let rq = req(DELETE, None, &[k]);
                let x = model::apply(&mut db, &rq);
                q.push(rq);
                e.push(x);
                after.push(db.clone());
                continue;
            }
        }
        vol += rq.encode().len() + db.values().map(|v| v.bytes_len()).max().unwrap_or(0);
        db = d;
        q.push(rq);
        e.push(x);
        after.push(db.clone());
        if vol > 12_000_000 {
            break;
        }
    }
    (q, e, after)
}

fn show_script(q: &[Req], got: &[Reply]) -> String {
    let mut s = String::new();
    for (i, r) in q.iter().enumerate().take(200) {
        s.push_str(&format!("{i}: {r:?} -> {}\n", got.get(i).map_or("-".into(), show_reply)));
    }
    s
}

/// The rest of what the server sends until it closes.
fn until_close(c: &mut Conn) -> Result<Vec<Reply>, NetErr> {
    let mut v = vec![];
    loop {
        match c.recv() {
            Ok(r) => v.push(r),
            Err(NetErr::Closed) => return Ok(v),
            Err(NetErr::Io(_)) => return Ok(v),
            Err(e) => return Err(e),
        }
    }
}

fn conn_case(srv: &Server, r: &mut Rng, kind: usize) {
    let big = r.chance(1, 14);
    let n = match r.below(8) {
        0..=3 => r.range(1, 6),
        4 | 5 => r.range(5, 40),
        6 => r.range(40, 200),
        _ => r.range(200, 500),
    };
    let (mut q, exp, _) = script(r, if big { n.min(20) } else { n }, big);
    if q.is_empty() {
        return;
    }
    let mut stream: Vec<u8> = vec![];
    let mut ends = vec![];
    for x in &q {
        stream.extend(x.encode());
        ends.push(stream.len());
    }
    let nreq = q.len();
    let mut parse_err = None;
    let mut never: Vec<Vec<u8>> = vec![];
    match kind {
        // An unparseable request, followed by requests that have to be ignored.
        1 => {
            let code = if r.chance(1, 2) {
                let b = loop {
                    let b = r.next() as u8;
                    if !ALL.contains(&(b & 0x7f)) {
                        break b;
                    }
                };
                stream.push(b);
                0
            } else {
                stream.push(0x80 | *r.pick(&ALL));
                stream.push(*r.pick(&[8u8, 9, 100, 127, 128, 255]));
                1
            };
            ends.push(stream.len());
            parse_err = Some(code);
            for _ in 0..r.range(0, 6) {
                let k = format!("never{}", case_id()).into_bytes();
                stream.extend(req(SET, Some(BYTES), &[&k[..], b"x"]).encode());
                ends.push(stream.len());
                never.push(k);
            }
            if let Some(Expect::Val(_)) = exp.last() {
                // And one that would undo an earlier one.
                stream.extend(req(DELETE, None, &[&q[0].args.first().cloned().unwrap_or_else(|| b"x".to_vec())]).encode());
            }
            if r.chance(1, 4) {
                // So much that it can't be read along with the request: the reply mustn't be lost with it.
                let n = r.range(9_000, 200_000);
                let b = r.bytes(n);
                stream.extend(b);
                ends.push(stream.len());
                count("unparseable_requests_with_much_behind_them", 1);
            }
        }
        // The connection ends within a request.
        2 => {
            let k = format!("never{}", case_id()).into_bytes();
            let b = req(SET, Some(BYTES), &[&k[..], b"value"]).encode();
            let cut = r.range(1, b.len() - 1);
            stream.extend(&b[..cut]);
            never.push(k);
        }
        _ => {}
    }
    let split = pick_split(r);
    let pause = *r.pick(&[0u64, 0, 200, 2000]);
    let half = kind == 2 || r.chance(1, 2);
    let slow_reader = r.chance(1, 5);
    let mut c = srv.must("P15");
    let mut wtr = c.s.try_clone().expect("clone");
    let seed = r.next();
    let w = |got: &[Reply], e: &str| {
        format!("{e}\nrequests cut {split:?} with pauses up to {pause} us, half-closed {half}, kind {kind}, unparseable at the end {parse_err:?}\n{}", show_script(&q, got))
    };
    let mut got: Vec<Reply> = vec![];
    let mut pieces = 0;
    let (st, en) = (&stream, &ends);
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            let mut r = Rng::new(seed, 5);
            let res = trickle(&mut wtr, st, en, split, pause, &mut r);
            if half {
                wtr.shutdown(std::net::Shutdown::Write).ok();
            }
            res
        });
        let mut db = Db::new();
        let mut rr = Rng::new(seed, 6);
        for i in 0..nreq {
            if slow_reader && rr.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(rr.range(10, 3000) as u64));
            }
            match c.recv() {
                Ok(rep) => {
                    let x = model::apply(&mut db, &q[i]);
                    let ok = model::check(&mut db, &x, &rep);
                    got.push(rep);
                    if let Err(e) = ok {
                        fail("P15: a reply isn't the one the request should get", w(&got, &format!("request {i}: {e}")));
                    }
                }
                Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&got, &format!("reply {i} of {nreq} never came"))),
                Err(e) => {
                    let end = srv.ended().unwrap_or_default();
                    fail("P15: a request wasn't answered", w(&got, &format!("reply {i} of {nreq}: {e:?} {end}")))
                }
            }
        }
        match h.join() {
            Ok(Ok(p)) => pieces = p,
            Ok(Err(e)) if parse_err.is_none() => fail("P15: the server closed a connection that was being written", w(&got, &e.to_string())),
            _ => {}
        }
    });
    if let Some(code) = parse_err {
        match c.recv() {
            Ok(Reply::Parse(x)) if x == code => {}
            Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&got, "the parse error was never reported")),
            other => fail("P15: an unparseable request wasn't answered with its parse error", w(&got, &format!("{other:?}, expected parse error {code}"))),
        }
        c.half_close();
        match until_close(&mut c) {
            Ok(v) if v.is_empty() => {}
            Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&got, "the connection stays open after the parse error and the client's close")),
            other => fail("P15: more than one reply to an unparseable request", w(&got, &format!("{other:?}"))),
        }
        count("unparseable_requests", 1);
    } else if half {
        match until_close(&mut c) {
            Ok(v) if v.is_empty() => {}
            Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&got, "the connection stays open after the client's close")),
            other => fail("P15: more replies than requests", w(&got, &format!("{other:?}"))),
        }
        count("half_closed", 1);
    } else {
        // The next reply has to be to the next request.
        let tok = format!("token{}", case_id()).into_bytes();
        match c.ask(&req(ECHO, None, &[&tok])) {
            Ok(Reply::Val(MVal::List(l))) if l == [tok] => {}
            Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&got, "a last echo was never answered")),
            other => fail("P15: a reply that no request asked for", w(&got, &format!("{other:?}"))),
        }
    }
    if !never.is_empty() {
        let mut c = srv.must("P15");
        for k in &never {
            match c.ask(&req(EXISTS, None, &[k])) {
                Ok(Reply::Val(MVal::Bool(false))) => {}
                other => fail("P15: something after an unparseable or within an incomplete request was executed", w(&got, &format!("{}: {other:?}", hex(k)))),
            }
        }
    }
    eval(1);
    count("requests", nreq as u64);
    count("segments_written", pieces as u64);
    count("bytes_sent", stream.len() as u64);
    maxi("longest_pipeline", nreq as u64);
    let shape: Vec<(u8, usize)> = q.iter().take(6).map(|x| (x.cmd, x.args.len())).collect();
    distinct(&(kind, nreq.min(300), format!("{split:?}"), pause, half, shape));
    q.truncate(4);
    sample(|| format!("{nreq} requests cut {split:?}, pauses up to {pause} us, half-closed {half}: {q:?}"));
}

/// Bursts of exactly `n` bytes: everything complete in them has to be answered before more is sent.
fn burst_case(srv: &Server, cn: &mut Conn, r: &mut Rng, n: usize) {
    let id = case_id();
    let key = format!("b{id}").into_bytes();
    let mut reqs: Vec<Req> = vec![];
    let mut left = n;
    // A request of exactly `m` bytes, if there is one.
    let exact = |m: usize| -> Option<Req> {
        let over = req(ECHO, None, &[b"".as_slice()]).encode().len();
        (m > over).then(|| req(ECHO, None, &[vec![b'a' + (id % 26) as u8; m - over]]))
    };
    if r.chance(2, 3) {
        // Small ones ahead.
        let m = r.range(1, 40);
        for _ in 0..m {
            let q = req(INCR, Some(INT), &[&key]);
            if q.encode().len() + 16 < left {
                left -= q.encode().len();
                reqs.push(q);
            }
        }
    }
    if let Some(q) = exact(left) {
        reqs.push(q);
    } else {
        return;
    }
    let mut burst: Vec<u8> = reqs.iter().flat_map(|q| q.encode()).collect();
    assert_eq!(burst.len(), n);
    // Sometimes the last request lacks its end at first.
    let held = if r.chance(1, 3) { r.range(1, 60.min(reqs.last().map_or(1, |q| q.encode().len() - 1))) } else { 0 };
    let (extra, rest) = if held > 0 {
        // Keep the burst at n bytes: another request follows and is cut.
        let q = req(ECHO, None, &[vec![b'z'; held + 30]]);
        let b = q.encode();
        reqs.pop();
        let keep = b.len() - held;
        let used: usize = reqs.iter().map(|q| q.encode().len()).sum();
        match exact(n.saturating_sub(used + keep)) {
            Some(pad) if n > used + keep => {
                reqs.push(pad);
                burst = reqs.iter().flat_map(|q| q.encode()).chain(b[..keep].iter().copied()).collect();
                (Some(q), b[keep..].to_vec())
            }
            _ => return,
        }
    } else {
        (None, vec![])
    };
    let w = |e: &str| format!("{e}\na burst of {} bytes with {} complete requests{}", burst.len(), reqs.len(), if extra.is_some() { " and a part of another" } else { "" });
    let cut = if r.chance(1, 4) { r.range(1, n - 1) } else { n };
    if cn.send(&burst[..cut]).and_then(|_| if cut < n { cn.send(&burst[cut..]) } else { Ok(()) }).is_err() {
        fail("P15: the server closed a connection that was being written", w(""));
    }
    let mut db = Db::new();
    let mut all = reqs.clone();
    let complete = reqs.len();
    all.extend(extra.clone());
    for (i, q) in all.iter().enumerate() {
        if i == complete && cn.send(&rest).is_err() {
            fail("P15: the server closed a connection that was being written", w(""));
        }
        match cn.recv() {
            Ok(rep) => {
                let x = model::apply(&mut db, q);
                if let Err(e) = model::check(&mut db, &x, &rep) {
                    fail("P15: a reply isn't the one the request should get", w(&format!("request {i}: {e}")));
                }
            }
            Err(NetErr::Stuck) => judge_stuck(srv, "P15", w(&format!("complete request {i} isn't answered until more bytes arrive"))),
            Err(e) => fail("P15: a request wasn't answered", w(&format!("{e:?}"))),
        }
    }
    eval(1);
    count("bursts", 1);
    count("requests", all.len() as u64);
    count("bytes_sent", (burst.len() + rest.len()) as u64);
    distinct(&("burst", n, all.len(), held, cut == n));
}

fn bursts(srv: &Server, r: &mut Rng, rounds: usize) {
    let mut kept = srv.must("P15");
    for round in 0..rounds {
        let mut sizes: Vec<usize> = vec![];
        for k in 4..=17 {
            let p = 1usize << k;
            sizes.extend([p - 1, p, p + 1, p + p / 2]);
        }
        sizes.extend((1..=12).map(|i| i * 8192));
        sizes.extend([1000, 1024 * 10, 10_000, 40_960, 65_483, 65_535, 100_000, 1 << 18, 1 << 20]);
        sizes.extend((0..20).map(|_| r.range(20, 30_000)));
        for n in sizes {
            describe(format!("a burst of {n} bytes"));
            if round % 2 == 0 && r.chance(1, 2) {
                let mut fresh = srv.must("P15");
                burst_case(srv, &mut fresh, r, n);
            } else {
                burst_case(srv, &mut kept, r, n);
            }
        }
    }
}

/// Connections on which nothing, or only a byte now and then, is said for long are served all the same.
fn quiet(srv: &Server, c: &Ctx) {
    let mut r = c.rng(15_900);
    let long = Duration::from_secs(if c.thorough { 320 } else { 33 });
    let begun = Instant::now();
    // (how, connection, what is yet to be sent, replies to come)
    let mut all: Vec<(&str, Conn, Vec<u8>, Vec<Reply>)> = vec![];
    for (i, how) in ["nothing sent", "after a request", "within a request's length", "within an argument", "after half of a pipeline", "a byte now and then", "after a failed request", "a write, then silence"].into_iter().enumerate() {
        let k = format!("quiet{}.{i}", case_id()).into_bytes();
        let mut cn = srv.must("P15");
        let v = r.bytes(30);
        let set = req(SET, Some(BYTES), &[&k[..], &v]);
        let echo = |r: &mut Rng| {
            let x = r.bytes(40);
            (req(ECHO, None, &[&x]).encode(), Reply::Val(MVal::List(vec![x])))
        };
        let (one, first) = echo(&mut r);
        let (two, second) = echo(&mut r);
        let ask = |cn: &mut Conn, q: &[u8], want: &Reply| {
            if cn.send(q).is_err() || !matches!(cn.recv(), Ok(x) if x == *want) {
                fail("P15: a request wasn't answered", format!("{how}, before the silence"));
            }
        };
        let (rest, want) = match i {
            0 => (one, vec![first]),
            1 => {
                ask(&mut cn, &one, &first);
                (two, vec![second])
            }
            2 | 3 => {
                let at = if i == 2 { r.range(1, 5) } else { r.range(7, one.len() - 1) };
                cn.send(&one[..at]).ok();
                (one[at..].to_vec(), vec![first])
            }
            4 => {
                let both = [one.clone(), two.clone()].concat();
                let at = r.range(one.len() + 1, both.len() - 1);
                ask(&mut cn, &both[..at], &first);
                (both[at..].to_vec(), vec![second])
            }
            5 => ([one, two].concat(), vec![first, second]),
            6 => {
                ask(&mut cn, &req(GET, None, &[&b"no such key"[..]]).encode(), &Reply::Err(E_MISSING));
                (two, vec![second])
            }
            _ => {
                ask(&mut cn, &set.encode(), &Reply::Val(MVal::Bytes(v.clone())));
                (req(GET, None, &[&k]).encode(), vec![Reply::Val(MVal::Bytes(v.clone()))])
            }
        };
        all.push((how, cn, rest, want));
    }
    let mut last = begun;
    while begun.elapsed() < long {
        std::thread::sleep(Duration::from_millis(50));
        if last.elapsed() > Duration::from_millis(1500) {
            last = Instant::now();
            let x = &mut all[5];
            if x.2.len() > 45 {
                let b = x.2.remove(0);
                x.1.send(&[b]).ok();
            }
        }
    }
    for (how, mut cn, rest, want) in all {
        let w = format!("{how}, silent for {} s", long.as_secs());
        if let Err(e) = cn.send(&rest) {
            fail("P15: a connection ended while nothing was said on it", format!("{w}: {e:?}"));
        }
        for x in want {
            match cn.recv() {
                Ok(g) if g == x => {}
                Err(NetErr::Stuck) => judge_stuck(srv, "P15", w),
                g => fail("P15: a connection doesn't go on after silence", format!("{w}: {g:?} instead of {}", show_reply(&x))),
            }
        }
        count("connections_silent_for_long", 1);
        eval(1);
        distinct(&("quiet", how));
    }
}

pub fn p15() {
    let c = ctx();
    rule("a case is one TCP connection: 1-500 pipelined requests cut into segments (whole, bytewise, at random, around request boundaries) with pauses, optionally half-closed, ended within a request, or followed by an unparseable request; distinct by (kind, length, cut, pauses, half-close, first commands)");
    assume("a reply that doesn't come for 30 s never comes");
    let srv = Server::start("p15", None, None);
    let over = || c.over();
    let min = AtomicU64::new(0);
    std::thread::scope(|s| {
        s.spawn(|| quiet(&srv, c));
        for t in 0..6u64 {
            let (srv, min, over) = (&srv, &min, &over);
            s.spawn(move || {
                let mut i = 0;
                while !over() || min.load(Ordering::Relaxed) < 60 {
                    i += 1;
                    let mut r = c.rng(15_000_000 + t * 1_000_000 + i);
                    let kind = match r.below(8) {
                        0 | 1 => 1,
                        2 => 2,
                        _ => 0,
                    };
                    describe(format!("connection {t}.{i}"));
                    conn_case(srv, &mut r, kind);
                    min.fetch_add(1, Ordering::Relaxed);
                }
            });
        }
    });
    bursts(&srv, &mut c.rng(15_500), c.scale(4, 60));
    // One connection for a very long pipeline of tiny requests, and one very large request.
    let mut cn = srv.must("P15");
    let total = c.scale(70_000, 300_000);
    let k = format!("long{}", case_id()).into_bytes();
    let one = req(INCR, Some(INT), &[&k]).encode();
    let mut w = cn.s.try_clone().expect("clone");
    std::thread::scope(|s| {
        let one = &one;
        s.spawn(move || {
            let b = one.repeat(total);
            let mut r = Rng::new(1, 1);
            trickle(&mut w, &b, &[], Split::Random(20_000), 0, &mut r).ok();
        });
        for i in 1..=total {
            match cn.recv() {
                Ok(Reply::Val(MVal::Int(x))) if x == i as i64 => {}
                Err(NetErr::Stuck) => judge_stuck(&srv, "P15", format!("reply {i} of {total} pipelined increments")),
                other => fail("P15: a reply in a long pipeline is wrong", format!("increment {i} -> {other:?}")),
            }
        }
    });
    count("requests", total as u64);
    let big = gen::blob(&mut c.rng(3), c.scale((1 << 27) + 9, (1 << 29) + 9));
    match cn.ask(&req(SET, Some(BYTES), &[&k, &big])) {
        Ok(Reply::Val(MVal::Bytes(b))) if b == big => {}
        Err(NetErr::Stuck) => judge_stuck(&srv, "P15", "a large set".into()),
        other => fail("P15: a large value was answered wrong", format!("{:?}", other.map(|r| show_reply(&r)))),
    }
    if let Some(s) = srv.ended() {
        fail("P15: the server process ended", s);
    }
}

// ---- P16 ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Attack {
    Garbage,
    GiantClaim,
    Truncated,
    Reset,
    NeverReads,
    Idle,
    Flood,
    BadThenValid,
    ManyArguments,
    ResetWithReplies,
}
const ATTACKS: [Attack; 10] = [
    Attack::Garbage,
    Attack::GiantClaim,
    Attack::Truncated,
    Attack::Reset,
    Attack::NeverReads,
    Attack::Idle,
    Attack::Flood,
    Attack::BadThenValid,
    Attack::ManyArguments,
    Attack::ResetWithReplies,
];

/// Bytes that begin like a write to a sentinel but never complete one.
fn incomplete_write(r: &mut Rng, sentinels: &[Vec<u8>]) -> Vec<u8> {
    let k = r.pick(sentinels);
    let q = match r.below(6) {
        0 => req(DELETE, None, &[k]),
        1 => req(SET, Some(BYTES), &[&k[..], b"overwritten"]),
        2 => req(APPEND, None, &[&k[..], b"appended"]),
        3 => req(RENAME, None, &[&k[..], b"elsewhere"]),
        4 => req(INCR, None, &[&k[..], b"x"]),
        _ => req(SET, Some(INT), &[&k[..], b"\0\0\0\0\0\0\0\0"]),
    };
    let b = q.encode();
    let n = r.range(1, b.len() - 1);
    b[..n].to_vec()
}

fn attack(srv: &Server, a: Attack, r: &mut Rng, sentinels: &[Vec<u8>], held: &mut Vec<Conn>) {
    let Ok(mut c) = Conn::within(srv.addr, Duration::from_millis(200)) else { return };
    match a {
        Attack::Garbage => {
            let n = r.range(1, 3000);
            // The first byte already is no command.
            let mut b = r.bytes(n);
            b[0] = *r.pick(&[0x7f, 0xff, 5, 50, 0xaa, 4, 23, 102]);
            c.send(&b).ok();
            if r.chance(1, 2) {
                c.recv_in(Duration::from_millis(50)).ok();
            }
        }
        Attack::GiantClaim => {
            let mut b = vec![*r.pick(&[SET, ECHO, APPEND]), *r.pick(&[1u8, 2, 255])];
            b.extend(r.pick(&[u32::MAX, u32::MAX - 8, 1 << 31, 3 << 30]).to_be_bytes());
            let n = r.range(0, 20_000);
            b.extend(r.bytes(n));
            c.send(&b).ok();
            if r.chance(1, 3) {
                held.push(c);
                return;
            }
        }
        Attack::Truncated => {
            let b = incomplete_write(r, sentinels);
            c.send(&b).ok();
            if r.chance(1, 3) {
                c.half_close();
                c.recv_in(Duration::from_millis(300)).ok();
            }
        }
        Attack::Reset => {
            let b = incomplete_write(r, sentinels);
            c.send(&b).ok();
            if r.chance(1, 2) {
                std::thread::sleep(Duration::from_micros(r.below(500) as u64));
            }
            c.reset();
            return;
        }
        Attack::NeverReads => {
            // Many replies that nobody takes.
            let q = req(ECHO, None, &[vec![b'z'; 20_000]]).encode();
            c.s.set_write_timeout(Some(Duration::from_millis(30))).ok();
            for _ in 0..r.range(50, 400) {
                if c.send(&q).is_err() {
                    break;
                }
            }
            if r.chance(1, 2) {
                held.push(c);
                return;
            }
            c.reset();
            return;
        }
        Attack::Idle => {
            if r.chance(1, 2) {
                c.send(&incomplete_write(r, sentinels)).ok();
            }
            held.push(c);
            return;
        }
        Attack::Flood => {
            held.push(c);
            for _ in 0..r.range(20, 120) {
                match Conn::within(srv.addr, Duration::from_millis(200)) {
                    Ok(c) => held.push(c),
                    Err(_) => break,
                }
            }
            return;
        }
        Attack::BadThenValid => {
            // The valid requests after the bad one must not be executed.
            let mut b = vec![*r.pick(&[0x7fu8, 0xff, 60])];
            for k in sentinels {
                b.extend(req(DELETE, None, &[k]).encode());
                b.extend(req(SET, Some(BYTES), &[&k[..], b"overwritten"]).encode());
            }
            let mut at = 0;
            while at < b.len() {
                let n = r.range(1, 200).min(b.len() - at);
                if c.send(&b[at..at + n]).is_err() {
                    break;
                }
                at += n;
                if r.chance(1, 3) {
                    std::thread::sleep(Duration::from_micros(r.below(800) as u64));
                }
            }
            if r.chance(1, 2) {
                c.half_close();
                c.recv_in(Duration::from_millis(300)).ok();
            }
        }
        Attack::ManyArguments => {
            let b = Req { cmd: *r.pick(&ALL[..15]), kt: None, args: vec![vec![]; 255] }.encode();
            c.send(&b).ok();
            c.recv_in(Duration::from_millis(200)).ok();
        }
        Attack::ResetWithReplies => {
            let mut b = vec![];
            for k in sentinels {
                b.extend(req(GET, None, &[k]).encode());
            }
            let b = b.repeat(r.range(1, 60));
            c.s.set_write_timeout(Some(Duration::from_millis(30))).ok();
            c.send(&b).ok();
            if r.chance(1, 2) {
                c.recv_in(Duration::from_millis(5)).ok();
            }
            c.reset();
            return;
        }
    }
    if r.chance(1, 3) {
        c.reset();
    }
}

pub fn p16() {
    let c = ctx();
    rule("a case is one attack on one connection or flood (garbage, giant claims, truncation, resets at any byte, unread replies, idle and too many connections, unparseable then valid requests) while bystander connections run model-checked requests; distinct by (attack, server limits, outcome of the phase)");
    assume("a bystander reply that doesn't come for 30 s never comes");
    let mut phase = 0u64;
    while !c.over() || phase < 3 {
        phase += 1;
        let mut r = c.rng(16_000 + phase);
        // Sometimes the process may hold only few connections, or little memory.
        let nofile = *r.pick(&[None, Some(40u64), Some(64), Some(256)]);
        let mem = *r.pick(&[None, Some(4u64 << 30)]);
        let srv = Server::start("p16", nofile, mem);
        let sentinels: Vec<Vec<u8>> = (0..6).map(|i| format!("sentinel{i}").into_bytes()).collect();
        let mut values: Db = Db::new();
        {
            let mut cn = srv.must("P16");
            for (i, k) in sentinels.iter().enumerate() {
                let v = gen::value(&mut r, i as u8, false);
                let mut a = vec![k.clone()];
                a.extend(v.to_args());
                let q = Req { cmd: SET, kt: Some(v.kind()), args: a };
                match cn.ask(&q) {
                    Ok(Reply::Val(x)) if x == v => {}
                    other => fail("P16: the server doesn't answer a plain request", format!("{q:?} -> {other:?}")),
                }
                values.insert(k.clone(), v);
            }
        }
        // They connect before the attack starts.
        let mut by: Vec<Conn> = (0..2).map(|_| srv.must("P16")).collect();
        for b in &mut by {
            b.ask(&req(ECHO, None, &[b"hello"])).ok();
        }
        let stop = AtomicBool::new(false);
        let answered = AtomicU64::new(0);
        let log: Mutex<Vec<String>> = Mutex::new(vec![]);
        let kinds: Vec<Attack> = {
            let mut v = ATTACKS.to_vec();
            r.shuffle(&mut v);
            v.truncate(r.range(2, 10));
            if phase % 2 == 1 && !v.contains(&Attack::Flood) {
                v.push(Attack::Flood);
            }
            v
        };
        let rounds = c.scale(60, 150);
        let lim = format!("files {nofile:?}, memory {mem:?}");
        std::thread::scope(|s| {
            for (t, cn) in by.iter_mut().enumerate() {
                let (srv, stop, answered, values, log, lim) = (&srv, &stop, &answered, &values, &log, &lim);
                let mut r = Rng::new(c.seed, 1600 + phase * 10 + t as u64);
                s.spawn(move || {
                    let w = |e: String| format!("{e}\n{lim}\nattacks so far: {:?}\nserver output: {}", log.lock().unwrap(), srv.output());
                    while !stop.load(Ordering::Relaxed) {
                        let (q, _, _) = script(&mut r, 12, false);
                        let mut db = Db::new();
                        for rq in &q {
                            let got = cn.ask(rq);
                            let x = model::apply(&mut db, rq);
                            match got {
                                Ok(rep) => {
                                    if let Err(e) = model::check(&mut db, &x, &rep) {
                                        fail("P16: another connection got a wrong reply during an attack", w(format!("{rq:?}: {e}")));
                                    }
                                }
                                Err(NetErr::Stuck) => judge_stuck(srv, "P16", w(format!("another connection isn't answered during an attack: {rq:?}"))),
                                Err(e) => {
                                    if let Some(x) = srv.ended() {
                                        fail("P16: the server process ended", w(x));
                                    }
                                    fail("P16: another connection broke during an attack", w(format!("{rq:?}: {e:?}")))
                                }
                            }
                            answered.fetch_add(1, Ordering::Relaxed);
                        }
                        // And what nobody validly changes is unchanged.
                        for (k, v) in values {
                            match cn.ask(&req(GET, None, &[k])) {
                                Ok(Reply::Val(x)) if x == *v => {}
                                Err(NetErr::Stuck) => judge_stuck(srv, "P16", w("another connection isn't answered".into())),
                                Err(e) if srv.ended().is_some() => fail("P16: the server process ended", w(format!("{e:?} {:?}", srv.ended()))),
                                other => fail("P16: an incomplete or invalid request changed stored data", w(format!("{} = {v:?}, now {other:?}", hex(k)))),
                            }
                        }
                    }
                });
            }
            let mut hs = vec![];
            for t in 0..3u64 {
                let (srv, kinds, sentinels, log) = (&srv, &kinds, &sentinels, &log);
                let mut r = Rng::new(c.seed, 16_900 + phase * 10 + t);
                hs.push(s.spawn(move || {
                    let mut held = vec![];
                    for _ in 0..rounds {
                        if c.over() {
                            break;
                        }
                        let a = *r.pick(kinds);
                        log.lock().unwrap().push(format!("{a:?}"));
                        attack(srv, a, &mut r, sentinels, &mut held);
                        eval(1);
                        if held.len() > 300 {
                            let n = r.range(50, 300);
                            held.drain(..n);
                        }
                    }
                    std::thread::sleep(Duration::from_millis(30));
                    held.len()
                }));
            }
            let held: usize = hs.into_iter().map(|h| h.join().expect("attacker")).sum();
            count("connections_held_at_the_end", held as u64);
            // The bystanders have to get something done after the attack, too.
            let before = answered.load(Ordering::Relaxed);
            let t = Instant::now();
            while answered.load(Ordering::Relaxed) < before + 5 && t.elapsed() < Duration::from_secs(60) {
                std::thread::sleep(Duration::from_millis(5));
            }
            stop.store(true, Ordering::Relaxed);
        });
        // New connections are served again.
        let t = Instant::now();
        loop {
            if let Some(x) = srv.ended() {
                fail("P16: the server process ended", format!("{x}\n{lim} attacks {kinds:?}"));
            }
            let r = srv.connect().map_err(|e| NetErr::Io(e.to_string())).and_then(|mut cn| {
                cn.send(&req(GET, None, &[&sentinels[0]]).encode())?;
                cn.recv_in(Duration::from_secs(5))
            });
            match r {
                Ok(Reply::Val(v)) if v == values[&sentinels[0]] => break,
                Ok(other) => fail("P16: a new connection got a wrong reply after the attack", format!("{other:?}")),
                Err(e) if t.elapsed() > STUCK + STUCK => fail("P16: new connections aren't served after the attack", format!("{e:?}\n{lim} attacks {kinds:?}\nserver output: {}", srv.output())),
                Err(_) => std::thread::sleep(Duration::from_millis(20)),
            }
        }
        // Several at once, as many as there was room for before.
        let mut cs: Vec<Conn> = (0..8).map(|_| srv.must("P16")).collect();
        for (i, cn) in cs.iter_mut().enumerate() {
            match cn.ask(&req(GET, None, &[&sentinels[i % 6]])) {
                Ok(Reply::Val(v)) if v == values[&sentinels[i % 6]] => {}
                Err(NetErr::Stuck) => judge_stuck(&srv, "P16", format!("new connection {i} after the attack; {lim}")),
                other => fail("P16: new connections aren't served after the attack", format!("connection {i}: {other:?}; {lim} attacks {kinds:?}; {}", srv.output())),
            }
        }
        count("bystander_replies", answered.load(Ordering::Relaxed));
        maxi("largest_server_rss_kb", srv.rss_kb());
        count("phases", 1);
        for a in &kinds {
            distinct(&(format!("{a:?}"), nofile, mem));
        }
        distinct(&(format!("{kinds:?}"), nofile, mem, phase));
        sample(|| format!("{lim}: attacks {kinds:?}, {} bystander replies meanwhile", answered.load(Ordering::Relaxed)));
    }
    // Disconnecting and resetting at every single byte of a request, and of a pipeline.
    let srv = Server::start("p16b", None, None);
    let mut keep = srv.must("P16");
    let k = b"every".to_vec();
    keep.ask(&req(SET, Some(STR), &[&k[..], b"before"])).ok();
    for kind in 0..4 {
        let b = match kind {
            0 => req(SET, Some(STR), &[&k[..], b"after"]).encode(),
            1 => req(DELETE, None, &[&k]).encode(),
            2 => req(APPEND, None, &[&k[..], b"+", b"+"]).encode(),
            _ => req(RENAME, None, &[&k[..], b"gone"]).encode(),
        };
        for n in 0..b.len() {
            for how in 0..3 {
                let mut cn = srv.must("P16");
                cn.send(&b[..n]).ok();
                match how {
                    0 => cn.reset(),
                    1 => drop(cn),
                    _ => {
                        cn.half_close();
                        match until_close(&mut cn) {
                            Ok(v) if v.is_empty() => {}
                            Err(NetErr::Stuck) => judge_stuck(&srv, "P16", "an incomplete request keeps a half-closed connection open".into()),
                            other => fail("P16: an incomplete request was answered", format!("{n} bytes of {}: {other:?}", hex(&b))),
                        }
                    }
                }
                eval(1);
                distinct(&("cut", kind, n, how));
            }
            match keep.ask(&req(GET, None, &[&k])) {
                Ok(Reply::Val(MVal::Str(s))) if s == b"before" => {}
                other => fail("P16: an incomplete request changed stored data", format!("{n} bytes of {}: {other:?}", hex(&b))),
            }
        }
    }
    // Wear: far more broken connections, of every kind, than ever exist at once. They may not add up.
    let n = c.scale(2_500, 12_000);
    for kind in 0..5 {
        let mut r = c.rng(16_700 + kind);
        for i in 0..n / 5 {
            let Ok(mut cn) = srv.connect() else { continue };
            match kind {
                0 => {}
                1 => {
                    cn.send(&req(SET, Some(INT), &[&b"worn"[..], &[0; 3]]).encode()[..r.range(1, 9)]).ok();
                }
                2 => {
                    cn.send(&[0x7f]).ok();
                }
                3 => {
                    cn.send(&req(GET, None, &[&k]).encode().repeat(30)).ok();
                }
                _ => {
                    cn.send(&req(GET, None, &[&k]).encode()).ok();
                    cn.recv_in(Duration::from_secs(5)).ok();
                }
            }
            // Resets from here on; an orderly end now and then.
            if i % 7 == 0 {
                drop(cn);
            } else {
                cn.reset();
            }
            eval(1);
        }
        count("worn_connections", (n / 5) as u64);
        let mut cs: Vec<Conn> = (0..40).map(|_| srv.must("P16")).collect();
        for (i, cn) in cs.iter_mut().enumerate() {
            match cn.ask(&req(GET, None, &[&k])) {
                Ok(Reply::Val(MVal::Str(s))) if s == b"before" => {}
                Err(NetErr::Stuck) => judge_stuck(&srv, "P16", format!("connection {i} after {n} broken ones")),
                other => fail("P16: new connections aren't served after many broken ones", format!("connection {i} after {} broken ones of kind {kind}: {other:?}", n / 5)),
            }
        }
        distinct(&("wear", kind));
    }
    // And more connections over its life than 2^16.
    let n = c.scale(66_600, 140_000);
    std::thread::scope(|s| {
        for t in 0..6 {
            let (srv, k) = (&srv, &k);
            s.spawn(move || {
                let mut done = 0;
                while done < n / 6 {
                    for _ in 0..60 {
                        if let Ok(cn) = srv.connect() {
                            cn.reset();
                            done += 1;
                        }
                    }
                    // Don't get ahead of the server.
                    let mut cn = srv.must("P16");
                    match cn.ask(&req(GET, None, &[k])) {
                        Ok(Reply::Val(MVal::Str(s))) if s == b"before" => {}
                        Err(NetErr::Stuck) => judge_stuck(srv, "P16", format!("a connection after about {} others", done * 6)),
                        other => {
                            let end = srv.ended().unwrap_or_default();
                            fail("P16: new connections aren't served after many others", format!("after about {} others: {other:?} {end}\nserver output: {}", done * 6, srv.output()))
                        }
                    }
                    cn.reset();
                    eval(1);
                }
                count("connections_to_one_server", done as u64);
                distinct(&("many", t));
            });
        }
    });
    crowd(&srv, &k, &mut c.rng(16_800), c.scale(3_000, 8_000));
    match keep.ask(&req(GET, None, &[&k])) {
        Ok(Reply::Val(MVal::Str(s))) if s == b"before" => {}
        other => fail("P16: a connection broke while many others came and went", format!("{other:?}")),
    }
    if let Some(s) = srv.ended() {
        fail("P16: the server process ended", s);
    }
}

/// Thousands of connections that are all alive at once, each of which is to be served.
fn crowd(srv: &Server, k: &[u8], r: &mut Rng, n: usize) {
    let room = unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur as usize
    };
    let n = n.min(room.saturating_sub(400) * 3 / 4);
    let whole = req(GET, None, &[k]).encode();
    let mut cs: Vec<(Conn, usize)> = vec![];
    for _ in 0..n {
        let mut cn = srv.must("P16");
        // A third is idle, a third is within a request, and a third has been served.
        let sent = match r.below(3) {
            0 => 0,
            1 => r.range(1, whole.len() - 1),
            _ => whole.len(),
        };
        cn.send(&whole[..sent]).ok();
        cs.push((cn, sent));
    }
    let check = |cn: &mut Conn, i: usize| match cn.recv() {
        Ok(Reply::Val(MVal::Str(s))) if s == b"before" => {}
        Err(NetErr::Stuck) => judge_stuck(srv, "P16", format!("connection {i} of {n} that are open at once")),
        other => {
            let end = srv.ended().unwrap_or_default();
            fail("P16: one of many open connections isn't served", format!("connection {i} of {n}: {other:?} {end}\nserver output: {}", srv.output()))
        }
    };
    for (i, (cn, sent)) in cs.iter_mut().enumerate() {
        if *sent == whole.len() {
            check(cn, i);
            *sent = 0;
        }
    }
    r.shuffle(&mut cs);
    for (cn, sent) in &mut cs {
        cn.send(&whole[*sent..]).ok();
    }
    r.shuffle(&mut cs);
    for (i, (cn, _)) in cs.iter_mut().enumerate() {
        check(cn, i);
        eval(1);
    }
    maxi("connections_open_at_once", n as u64);
    distinct(&("crowd", n));
    for (cn, _) in cs {
        cn.reset();
    }
}

// ---- P17 ------------------------------------------------------------------------------------

fn p17_history(srv: &Server, r: &mut Rng) {
    let id = case_id();
    let n = r.range(2, 5);
    let nk = r.range(1, 2);
    let keys: Vec<Vec<u8>> = (0..nk).map(|i| format!("h{id}.{i}").into_bytes()).collect();
    let rounds = r.range(1, 3);
    let seed = r.next();
    let ty = if r.chance(1, 2) { Some(r.below(8) as u8) } else { None };
    let bias = r.below(4);
    let gate = Gate::new(n);
    let pipeline = r.chance(1, 3);
    let dying = r.chance(1, 2);
    let evs: Vec<Vec<Event>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (keys, gate) = (&keys, &gate);
                s.spawn(move || {
                    let mut r = Rng::new(seed, t as u64);
                    let mut evs = vec![];
                    let mut conn = Some(srv.must("P17"));
                    gate.wait();
                    for _ in 0..rounds {
                        let m = r.range(1, 3);
                        let qs: Vec<Req> = (0..m)
                            .map(|_| {
                                let k = r.pick(keys).clone();
                                conc_op(&mut r, &k, ty, bias)
                            })
                            .collect();
                        let die = dying && r.chance(1, 4);
                        let mut cn = conn.take().unwrap_or_else(|| srv.must("P17"));
                        let fatal = |e: NetErr, q: &Req| -> ! {
                            if matches!(e, NetErr::Stuck) {
                                judge_stuck(srv, "P17", format!("{q:?}"))
                            }
                            fail("P17: a request wasn't answered", format!("{q:?}: {e:?} {:?}", srv.ended()))
                        };
                        if pipeline || die {
                            let call = tick();
                            let mut b = vec![];
                            for q in &qs {
                                b.extend(q.encode());
                            }
                            let cut = if die && r.chance(1, 2) { r.range(1, b.len()) } else { b.len() };
                            let sent = cn.send(&b[..cut]);
                            if die {
                                // The connection dies; what was sent may or may not take effect, in order, until the cut.
                                if r.chance(1, 2) {
                                    std::thread::sleep(Duration::from_micros(r.below(300) as u64));
                                }
                                if r.chance(2, 3) {
                                    cn.reset();
                                } else {
                                    drop(cn);
                                }
                                let mut at = 0;
                                for q in qs {
                                    at += q.encode().len();
                                    if at <= cut {
                                        evs.push(Event { thread: t, req: q, call, ret: u64::MAX, reply: None });
                                    }
                                }
                                continue;
                            }
                            if let Err(e) = sent {
                                fatal(e, &qs[0]);
                            }
                            for q in qs {
                                match cn.recv() {
                                    Ok(rep) => evs.push(Event { thread: t, req: q, call, ret: tick(), reply: Some(rep) }),
                                    Err(e) => fatal(e, &q),
                                }
                            }
                        } else {
                            for q in qs {
                                let call = tick();
                                match cn.ask(&q) {
                                    Ok(rep) => evs.push(Event { thread: t, req: q, call, ret: tick(), reply: Some(rep) }),
                                    Err(e) => fatal(e, &q),
                                }
                            }
                        }
                        if r.chance(1, 2) {
                            conn = Some(cn);
                        } else if r.chance(1, 2) {
                            cn.reset();
                        }
                    }
                    evs
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("client")).collect()
    });
    let mut cn = srv.must("P17");
    let mut lost = 0;
    for k in &keys {
        let mut h: Vec<Event> = evs.iter().flatten().filter(|e| &e.req.args[0] == k).cloned().collect();
        if h.iter().filter(|e| e.reply.is_none()).count() > 8 {
            count("histories_skipped", 1);
            continue;
        }
        lost += h.iter().filter(|e| e.reply.is_none()).count();
        // All of it has to be explained by what is stored now.
        let q = req(GET, None, &[k]);
        let call = tick();
        let rep = match cn.ask(&q) {
            Ok(r) => r,
            Err(e) => fail("P17: a request wasn't answered", format!("{q:?}: {e:?} {:?}", srv.ended())),
        };
        h.push(Event { thread: 99, req: q, call, ret: tick(), reply: Some(rep) });
        match linearizable(&Db::new(), &h) {
            Some(true) => {}
            Some(false) => fail("P17: no single order of all requests explains the replies", show_history(&h)),
            None => count("searches_cut_short", 1),
        }
        count("operations", h.len() as u64);
        let mut o: Vec<(u64, usize, u8)> = h.iter().flat_map(|e| [(e.call, e.thread, e.req.cmd), (e.ret, e.thread, 255)]).collect();
        o.sort();
        distinct(&o.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>());
        sample(|| show_history(&h).replace('\n', "; "));
    }
    count("unanswered_requests", lost as u64);
    count("histories", 1);
    eval(1);
}

/// Whether what a connection was told survives its end, and is there for everyone.
fn p17_sticks(srv: &Server, r: &mut Rng) {
    let id = case_id();
    let mut want = Db::new();
    let n = r.range(1, 8);
    let mut readers: Vec<Conn> = (0..2).map(|_| srv.must("P17")).collect();
    for i in 0..n {
        let mut cn = srv.must("P17");
        let k = format!("s{id}.{}", r.below(4)).into_bytes();
        let v = {
            let t = r.below(8) as u8;
            gen::value(r, t, false)
        };
        let mut a = vec![k.clone()];
        a.extend(v.to_args());
        let q = Req { cmd: SET, kt: Some(v.kind()), args: a };
        match cn.ask(&q) {
            Ok(Reply::Val(x)) if x == v => {}
            other => fail("P17: a write was answered wrong", format!("{q:?} -> {other:?} {:?}", srv.ended())),
        }
        want.insert(k.clone(), v.clone());
        match i % 3 {
            0 => cn.reset(),
            1 => drop(cn),
            _ => {
                // Dies within the next request.
                cn.send(&req(DELETE, None, &[&k]).encode()[..4]).ok();
                cn.reset();
            }
        }
        let via = r.below(3);
        let q = req(GET, None, &[&k]);
        let mut fresh;
        let c = if via < 2 {
            &mut readers[via]
        } else {
            fresh = srv.must("P17");
            &mut fresh
        };
        match c.ask(&q) {
            Ok(Reply::Val(x)) if x == v => {}
            other => fail("P17: an acknowledged write isn't visible on another connection", format!("{} should be {v:?}, got {other:?} {:?}", hex(&k), srv.ended())),
        }
    }
    for (k, v) in &want {
        match readers[0].ask(&req(GET, None, &[k])) {
            Ok(Reply::Val(x)) if x == *v => {}
            other => fail("P17: an acknowledged write didn't last", format!("{} should be {v:?}, got {other:?}", hex(k))),
        }
    }
    eval(1);
    count("acknowledged_writes_followed", n as u64);
    distinct(&("sticks", want.values().map(|v| v.kind()).collect::<Vec<_>>(), n, r.next() % 1000));
}

/// Pieces sent by connections that live or die: each at most once, whole, and all acknowledged ones.
fn p17_pieces(srv: &Server, r: &mut Rng) {
    let id = case_id();
    let key = format!("p{id}").into_bytes();
    let n = r.range(3, 6);
    let per = r.range(5, 25);
    let seed = r.next();
    let kt = *r.pick(&[BYTES, STR, LIST]);
    let acked: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let sent: Mutex<HashSet<(usize, usize)>> = Mutex::new(HashSet::new());
    std::thread::scope(|s| {
        for t in 0..n {
            let (key, acked, sent) = (&key, &acked, &sent);
            s.spawn(move || {
                let mut r = Rng::new(seed, t as u64);
                let mut cn = srv.must("P17");
                for j in 0..per {
                    let mut a = vec![key.clone()];
                    for p in 0..3 {
                        a.push(format!("<{t},{j},{p}>").into_bytes());
                    }
                    let q = Req { cmd: APPEND, kt: Some(kt), args: a };
                    if r.chance(1, 3) {
                        let b = q.encode();
                        let m = if r.chance(1, 2) { b.len() } else { r.range(1, b.len()) };
                        let mut d = srv.must("P17");
                        if m == b.len() {
                            sent.lock().unwrap().insert((t, j));
                        }
                        d.send(&b[..m]).ok();
                        if r.chance(1, 2) {
                            std::thread::sleep(Duration::from_micros(r.below(200) as u64));
                        }
                        if r.chance(1, 2) {
                            d.reset();
                        }
                    } else {
                        match cn.ask(&q) {
                            Ok(Reply::Val(_)) => acked.lock().unwrap().push((t, j)),
                            Err(NetErr::Stuck) => judge_stuck(srv, "P17", format!("{q:?}")),
                            other => fail("P17: an append wasn't answered", format!("{q:?} -> {other:?} {:?}", srv.ended())),
                        }
                    }
                }
            });
        }
    });
    // Let the server finish with the dead connections; a piece may still arrive, but only once.
    std::thread::sleep(Duration::from_millis(3));
    let mut cn = srv.must("P17");
    let v = match cn.ask(&req(GET, Some(kt), &[&key])) {
        Ok(Reply::Val(v)) => v,
        Ok(Reply::Err(E_MISSING)) if acked.lock().unwrap().is_empty() => return,
        other => fail("P17: the appended value can't be read", format!("{other:?} {:?}", srv.ended())),
    };
    let pieces: Vec<Vec<u8>> = v.to_args().iter().flat_map(|x| x.split_inclusive(|c| *c == b'>').map(|x| x.to_vec()).collect::<Vec<_>>()).collect();
    let mut seen: BTreeMap<(usize, usize), u32> = BTreeMap::new();
    let mut i = 0;
    let bad = |e: String| -> ! { fail("P17: a request took effect twice, partly, or not although acknowledged", format!("{e}\n{v:?}")) };
    while i < pieces.len() {
        let x = String::from_utf8_lossy(&pieces[i]).into_owned();
        let f: Vec<usize> = x.trim_matches(|c| c == '<' || c == '>').split(',').filter_map(|x| x.parse().ok()).collect();
        if f.len() != 3 || f[2] != 0 {
            bad(format!("piece {i} is {x}"));
        }
        for p in 0..3 {
            if pieces.get(i + p) != Some(&format!("<{},{},{p}>", f[0], f[1]).into_bytes()) {
                bad(format!("the append ({}, {}) took effect partly", f[0], f[1]));
            }
        }
        *seen.entry((f[0], f[1])).or_default() += 1;
        i += 3;
    }
    for a in acked.lock().unwrap().iter() {
        if seen.remove(a) != Some(1) {
            bad(format!("the acknowledged append {a:?} isn't there exactly once"));
        }
    }
    let sent = sent.into_inner().unwrap();
    count("unacknowledged_sent_whole", sent.len() as u64);
    count("unacknowledged_taken_effect", seen.len() as u64);
    for (a, m) in seen {
        if m != 1 || !sent.contains(&a) {
            bad(format!("the unacknowledged append {a:?} is there {m} times, sent whole: {}", sent.contains(&a)));
        }
    }
    eval(1);
    count("acknowledged_appends", acked.lock().unwrap().len() as u64);
    distinct(&("pieces", kt, n, per, pieces.len()));
}

pub fn p17() {
    let c = ctx();
    rule("a case is one concurrent history over 2-5 sockets (some dying before their replies) searched for a single order, one set of acknowledged writes followed past the end of their connections, or one contended append run with dying connections; distinct by order of calls and returns, or shape");
    assume("requests of a connection that died may take effect at any later time, or never");
    let srv = Server::start("p17", None, None);
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..3u64 {
            let (srv, done) = (&srv, &done);
            s.spawn(move || {
                let mut i = 0;
                while !c.over() || done.load(Ordering::Relaxed) < 60 {
                    i += 1;
                    let mut r = c.rng(17_000_000 + t * 1_000_000 + i);
                    describe(format!("history {t}.{i}"));
                    match r.below(6) {
                        0 => p17_sticks(srv, &mut r),
                        1 => p17_pieces(srv, &mut r),
                        _ => p17_history(srv, &mut r),
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                }
            });
        }
    });
    if let Some(s) = srv.ended() {
        fail("P17: the server process ended", s);
    }
}
