//! P21-P23: statistics, sessions and subscriptions.
use crate::{common::*, eng::*, gen, p_conc::*, hooks, rng::Rng, wire::*};
use hop_engine::{
    metrics::{Metric, Reader},
    pubsub::Subscription,
    session::SessionId,
    Hop,
};
use hop_internal_metrics::{Metrics, Snapshot};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fmt::Write as _,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex, Weak,
    },
};

// ---- P21: statistics -------------------------------------------------------------------------

fn counters(r: &Reader) -> (u64, u64, u64, u64) {
    let g = |m| r.counter(&m).unwrap_or(0);
    (g(Metric::CommandsSuccessful), g(Metric::CommandsErrored), g(Metric::SessionsStarted), g(Metric::SessionsEnded))
}

/// The four counters out of a reply to stats; a counter that doesn't exist yet is zero.
fn stats_of(r: &Reply) -> Result<(u64, u64, u64, u64), String> {
    let Reply::Val(MVal::Map(m)) = r else { return Err("the reply to stats is no map".into()) };
    let g = |n: &str| -> Result<u64, String> {
        match m.get(n.as_bytes()) {
            None => Ok(0),
            Some(v) => v
                .as_slice()
                .try_into()
                .map(|b: [u8; 8]| i64::from_be_bytes(b) as u64)
                .map_err(|_| format!("the counter {n} is no integer: {}", hex(v))),
        }
    };
    Ok((g("commands_successful")?, g("commands_errored")?, g("sessions_started")?, g("sessions_ended")?))
}

fn any_of_any(r: &mut Rng, keys: &[Vec<u8>], h: &Hop) -> Req {
    match r.below(10) {
        0 | 1 => req::<&[u8]>(STATS, if r.chance(1, 5) { Some(r.below(8) as u8) } else { None }, &[]),
        2 => {
            // Requests that are wrong in some way.
            let n = r.below(4);
            let a: Vec<Vec<u8>> = (0..n)
                .map(|i| match (i, r.below(5)) {
                    (0, 0) => b"__hop__:x".to_vec(),
                    (0, 1) => vec![],
                    (0, _) => r.pick(keys).clone(),
                    _ => {
                        let l = r.below(10);
                        gen::blob(r, l)
                    }
                })
                .collect();
            let cmd = *r.pick(&ALL);
            if cmd == STATS {
                return req::<&[u8]>(STATS, None, &[]);
            }
            Req { cmd, kt: if r.chance(1, 2) { Some(r.below(8) as u8) } else { None }, args: a }
        }
        _ => {
            let d = dump(h);
            gen::any_req(r, keys, &|k| d.get(k).map(|v| v.kind()), false)
        }
    }
}

fn p21_sequential(r: &mut Rng) {
    let h = crate::eng::hop();
    let reader = h.metrics();
    let keys = gen::keys(r, 4);
    let mut sessions = h.sessions().clone();
    let (mut ok, mut bad, mut started, mut ended) = (0u64, 0u64, 0u64, 0u64);
    let mut live: Vec<u32> = vec![];
    let n = r.range(5, 120);
    let mut trace = String::new();
    let mut shape = vec![];
    for _ in 0..n {
        if r.chance(1, 8) {
            if !live.is_empty() && r.chance(1, 2) {
                let id = live.swap_remove(r.below(live.len()));
                sessions.remove(id);
                ended += 1;
                let _ = writeln!(trace, "remove session {id}");
            } else {
                let id = *sessions.add([7; 32]).key();
                live.push(id);
                started += 1;
                let _ = writeln!(trace, "add session {id}");
            }
        }
        let q = any_of_any(r, &keys, &h);
        let via = if r.chance(1, 2) { Via::Builder } else { Via::Wire };
        // A clone shares everything with the original.
        let hh = h.clone();
        let rep = match run(&hh, &q, via) {
            Ok(x) => x,
            Err(e) => fail("P21: a request failed to give a reply", format!("{q:?}: {e}\n{trace}")),
        };
        let _ = writeln!(trace, "{q:?} -> {}", crate::model::show_reply(&rep));
        if q.cmd == STATS && !matches!(rep, Reply::Err(_)) {
            match stats_of(&rep) {
                Ok(x) if x == (ok, bad, started, ended) => {}
                x => fail(
                    "P21: stats reports other counters than there were before it",
                    format!("got {x:?}, expected (successful, errored, started, ended) = {:?}\n{trace}", (ok, bad, started, ended)),
                ),
            }
            count("stats_commands_checked", 1);
        }
        match rep {
            Reply::Err(_) => bad += 1,
            _ => ok += 1,
        }
        shape.push((q.cmd, q.kt, matches!(rep, Reply::Err(_))));
        let c = counters(&reader);
        if c != (ok, bad, started, ended) {
            fail(
                "P21: a counter is not the number of events it counts",
                format!("(successful, errored, started, ended) are {c:?}, expected {:?} after\n{trace}", (ok, bad, started, ended)),
            );
        }
        eval(1);
    }
    count("commands_sequential", ok + bad);
    distinct(&shape);
    sample(|| format!("sequential, {n} commands: successful {ok}, errored {bad}, sessions started {started}, ended {ended}"));
}

fn p21_concurrent(r: &mut Rng, seed: u64, far: bool) {
    let c = ctx();
    let h = crate::eng::hop();
    let nt = r.range(2, 8);
    let per = if far { r.range(140_000, 200_000) / nt } else { r.range(10, c.scale(400, 1500)) };
    let keys = gen::keys(r, 3);
    let before = [AtomicU64::new(0), AtomicU64::new(0)];
    let sums = Mutex::new((0u64, 0u64));
    let mode = if far { r.below(2) } else { r.below(4) };
    let samplers = r.range(0, 2);
    let done = AtomicU64::new(0);
    let warm = r.chance(1, 2);
    if warm {
        for (q, i) in [(req(ECHO, None, &[b"x"]), 0), (req(GET, None, &[b"no such key"]), 1)] {
            let _ = run(&h, &q, Via::Builder);
            before[i].fetch_add(1, Ordering::SeqCst);
            let mut s = sums.lock().unwrap();
            if i == 0 {
                s.0 += 1
            } else {
                s.1 += 1
            }
        }
    }
    // Every worker counts a command when it begins and its outcome when it has ended.
    let s0 = *sums.lock().unwrap();
    let begun = AtomicU64::new(s0.0 + s0.1);
    let (okd, badd) = (AtomicU64::new(s0.0), AtomicU64::new(s0.1));
    let noise = Noise::pick(r);
    let seen = AtomicU64::new(0);
    parallel(nt + samplers, seed, noise, |t, r, gate| {
        let h = h.clone();
        if t >= nt {
            let reader = h.metrics();
            let mut last = (0, 0, 0, 0);
            gate.wait();
            while done.load(Ordering::SeqCst) < nt as u64 {
                let lo = (okd.load(Ordering::SeqCst), badd.load(Ordering::SeqCst));
                let x = counters(&reader);
                let hi = begun.load(Ordering::SeqCst);
                if x.0 < lo.0 || x.1 < lo.1 || x.0 + x.1 > hi {
                    fail(
                        "P21: a counter is outside of what had begun and ended",
                        format!("read (successful, errored) = {:?} although {lo:?} had been answered before and {hi} had begun after", (x.0, x.1)),
                    );
                }
                if x.0 < last.0 || x.1 < last.1 {
                    fail("P21: a counter decreased", format!("from {last:?} to {x:?}"));
                }
                last = x;
                seen.fetch_add(1, Ordering::Relaxed);
                if r.chance(1, 4) {
                    std::thread::yield_now();
                }
            }
            return;
        }
        let own: Vec<Vec<u8>> = keys.iter().map(|k| [k.as_slice(), b".", &[b'0' + t as u8]].concat()).collect();
        let (mut o, mut b) = (0, 0);
        let mut last = (0, 0);
        gate.wait();
        for i in 0..per {
            let q = match mode {
                0 => req(ECHO, None, &[b"x"]),
                1 if i % 2 == 0 => req(INCR, None, &[b"shared".as_slice()]),
                1 => req(GET, None, &[b"missing".as_slice()]),
                2 if r.chance(1, 3) => req::<&[u8]>(STATS, None, &[]),
                2 => req(LENGTH, None, &[b"missing".as_slice()]),
                _ => {
                    let k = if r.chance(1, 2) { &keys } else { &own };
                    match gen::any_req(r, k, &|_| None, false) {
                        // Large values slow the round down and add nothing here.
                        q if q.args.iter().map(|a| a.len()).sum::<usize>() > 4000 => req(ECHO, None, &[b"y"]),
                        q => q,
                    }
                }
            };
            let lo = (okd.load(Ordering::SeqCst), badd.load(Ordering::SeqCst));
            begun.fetch_add(1, Ordering::SeqCst);
            let rep = match run(&h, &q, Via::Builder) {
                Ok(x) => x,
                Err(e) => fail("P21: a request failed to give a reply", format!("{q:?}: {e}")),
            };
            let hi = begun.load(Ordering::SeqCst);
            match rep {
                Reply::Err(_) => {
                    b += 1;
                    badd.fetch_add(1, Ordering::SeqCst);
                }
                _ => {
                    o += 1;
                    okd.fetch_add(1, Ordering::SeqCst);
                }
            }
            if q.cmd == STATS {
                if let Ok(x) = stats_of(&rep) {
                    if x.0 < lo.0 || x.1 < lo.1 || x.0 + x.1 >= hi || x.0 < last.0 || x.1 < last.1 {
                        fail(
                            "P21: stats reports counters outside of what had begun and ended",
                            format!("stats says (successful, errored) = {:?}; answered before it: {lo:?}, begun by its end: {hi}, reported earlier on this thread: {last:?}", (x.0, x.1)),
                        );
                    }
                    last = (x.0, x.1);
                    seen.fetch_add(1, Ordering::Relaxed);
                }
            }
        }
        let mut s = sums.lock().unwrap();
        s.0 += o;
        s.1 += b;
        drop(s);
        done.fetch_add(1, Ordering::SeqCst);
    });
    let s = *sums.lock().unwrap();
    let x = counters(&h.metrics());
    if (x.0, x.1) != s {
        fail(
            "P21: after concurrent commands a counter is not the number of commands",
            format!("{nt} threads, {per} commands each, mode {mode}: counters (successful, errored) = {:?}, answered {s:?}", (x.0, x.1)),
        );
    }
    let reply = run(&h, &req::<&[u8]>(STATS, None, &[]), Via::Builder);
    match reply.as_ref().map_err(|e| e.clone()).and_then(stats_of) {
        Ok(y) if (y.0, y.1) == s => {}
        y => fail("P21: stats reports other counters than there were before it", format!("got {y:?}, expected {s:?}")),
    }
    eval(s.0 + s.1);
    count("commands_concurrent", s.0 + s.1);
    count("concurrent_rounds", 1);
    count("counter_reads_while_running", seen.load(Ordering::Relaxed));
    distinct(&("conc", nt, per, mode, s.0, s.1));
    sample(|| format!("{nt} threads x {per} commands (mode {mode}): {s:?}, {} reads while they ran", seen.load(Ordering::Relaxed)));
}

fn p21_library(r: &mut Rng, seed: u64, far: bool) {
    let m: Metrics<u64> = Metrics::new();
    let nk = if far { r.range(1, 2) } else { *r.pick(&[1, 2, 5, 40, 300]) };
    let keys: Vec<u64> = (0..nk).map(|_| if r.chance(1, 2) { r.next() } else { r.below(1000) as u64 }).collect::<BTreeSet<_>>().into_iter().collect();
    let nk = keys.len();
    let nt = r.range(1, 6);
    let per = if far { r.range(210_000, 300_000) / nt } else { r.range(5, 600) };
    let noise = Noise::pick(r);
    let counts: Vec<AtomicU64> = (0..nk).map(|_| AtomicU64::new(0)).collect();
    let begun: Vec<AtomicU64> = (0..nk).map(|_| AtomicU64::new(0)).collect();
    let snapper = r.chance(2, 3);
    let done = AtomicU64::new(0);
    // The last value every thread wrote to each gauge, and the ticks around that write.
    type Last = BTreeMap<usize, (u64, u64, u64)>;
    let lasts: Vec<(Last, Vec<(Snapshot<u64>, Vec<Option<u64>>, Vec<Option<u64>>)>)> = parallel(nt + snapper as usize, seed, noise, |t, r, gate| {
        let w = m.writer();
        let rd = m.reader();
        gate.wait();
        if t == nt {
            let mut snaps = vec![];
            let mut prev = vec![0u64; nk];
            while done.load(Ordering::SeqCst) < nt as u64 {
                let lo: Vec<u64> = counts.iter().map(|c| c.load(Ordering::SeqCst)).collect();
                let s = m.snapshot();
                let hi: Vec<u64> = begun.iter().map(|c| c.load(Ordering::SeqCst)).collect();
                let got: Vec<Option<u64>> = keys.iter().map(|k| s.counter(k)).collect();
                let gg: Vec<Option<u64>> = keys.iter().map(|k| s.gauge(k)).collect();
                for i in 0..nk {
                    let g = got[i].unwrap_or(0);
                    if g < lo[i] || g > hi[i] || g < prev[i] {
                        fail(
                            "P21: a snapshot's counter is outside of what had begun and ended",
                            format!("counter {}: snapshot {g}, ended before {}, begun after {}, previous snapshot {}", keys[i], lo[i], hi[i], prev[i]),
                        );
                    }
                    prev[i] = g;
                }
                count("snapshots_taken_while_running", 1);
                if snaps.len() < 20 {
                    snaps.push((s, got, gg));
                }
                std::thread::yield_now();
            }
            return (Last::new(), snaps);
        }
        let mut last = Last::new();
        for i in 0..per {
            let k = r.below(nk);
            if r.chance(2, 3) {
                begun[k].fetch_add(1, Ordering::SeqCst);
                if !w.increment(keys[k]) {
                    fail("P21: a live counter could not be written", format!("counter {}", keys[k]));
                }
                let c = counts[k].fetch_add(1, Ordering::SeqCst) + 1;
                let now = rd.counter(&keys[k]);
                if now.unwrap_or(0) < c {
                    fail("P21: a counter is below the increments that had ended", format!("counter {}: {now:?} after {c} increments", keys[k]));
                }
            } else {
                let v = match r.below(4) {
                    0 => 0,
                    1 => u64::MAX - (i as u64) * 64 - t as u64,
                    _ => (i as u64) << 8 | t as u64,
                };
                let a = tick();
                if !w.gauge(keys[k], v) {
                    fail("P21: a live gauge could not be written", format!("gauge {}", keys[k]));
                }
                let b = tick();
                last.insert(k, (v, a, b));
                if rd.gauge(&keys[k]).is_none() {
                    fail("P21: a gauge doesn't exist although it was written", format!("gauge {} := {v}", keys[k]));
                }
            }
        }
        done.fetch_add(1, Ordering::SeqCst);
        (last, vec![])
    });
    let rd = m.reader();
    let fin = m.snapshot();
    if !rd.valid() || !m.writer().valid() || !m.reader().valid() {
        fail("P21: a reader or writer of live metrics is invalid", String::new());
    }
    for i in 0..nk {
        let want = counts[i].load(Ordering::SeqCst);
        let want = if want == 0 { None } else { Some(want) };
        let got = (rd.counter(&keys[i]), fin.counter(&keys[i]));
        if got != (want, want) {
            fail(
                "P21: a counter is not the number of increments",
                format!("counter {} of {nk}: (reader, snapshot) = {got:?}, increments: {want:?}", keys[i]),
            );
        }
        // The last write wins; of writes at the same time any of them.
        let ws: Vec<(u64, u64, u64)> = lasts.iter().filter_map(|l| l.0.get(&i).copied()).collect();
        let newest = ws.iter().map(|w| w.1).max();
        let can: BTreeSet<u64> = ws.iter().filter(|w| Some(w.2) >= newest).map(|w| w.0).collect();
        let got = (rd.gauge(&keys[i]), fin.gauge(&keys[i]));
        let fine = match got.0 {
            None => can.is_empty(),
            Some(g) => can.contains(&g),
        };
        if !fine || got.0 != got.1 {
            fail(
                "P21: a gauge doesn't hold the last value written",
                format!("gauge {}: (reader, snapshot) = {got:?}, last writes of the threads: {can:?}", keys[i]),
            );
        }
        eval(2);
    }
    // Snapshots stay what they were, whatever happens to the metrics; a clone agrees.
    let w = m.writer();
    for k in &keys {
        w.increment(*k);
        w.gauge(*k, 77_777);
    }
    let w2 = w.clone();
    let rd2 = rd.clone();
    if fin.counters().len() + fin.gauges().len() > 0 {
        let same = (0..nk).all(|i| {
            let want = counts[i].load(Ordering::SeqCst);
            fin.counter(&keys[i]).unwrap_or(0) == want && rd2.counter(&keys[i]) == Some(want + 1) && rd2.gauge(&keys[i]) == Some(77_777)
        });
        if !same {
            fail("P21: a snapshot changed, or a later write is missing from the metrics", format!("{nk} counters"));
        }
    }
    for (s, got, gg) in lasts.iter().flat_map(|l| l.1.iter()) {
        if keys.iter().map(|k| s.counter(k)).ne(got.iter().copied()) || keys.iter().map(|k| s.gauge(k)).ne(gg.iter().copied()) {
            fail("P21: a snapshot changed after it was taken", format!("{nk} counters"));
        }
        count("snapshots_rechecked", 1);
    }
    drop(m);
    if rd.valid() || w.valid() || w2.increment(keys[0]) || w2.gauge(keys[0], 1) || rd.counter(&keys[0]).is_some() || rd2.gauge(&keys[0]).is_some() {
        fail("P21: a reader or writer still works after its metrics are gone", String::new());
    }
    count("library_rounds", 1);
    distinct(&("lib", nk, nt, per));
}

#[cfg(feature = "net")]
fn p21_server(r: &mut Rng, seed: u64, srv: &crate::net::Server, base: &mut (u64, u64)) {
    let nt = r.range(1, 8);
    let per = r.range(1, 60);
    let keys: Vec<Vec<u8>> = (0..3).map(|i| format!("k{}.{i}", uniq()).into_bytes()).collect();
    let got = parallel(nt, seed, Noise { den: 0, ns: 0 }, |_, r, gate| {
        let mut c = srv.must("P21");
        gate.wait();
        let (mut o, mut b) = (0u64, 0u64);
        let mut i = 0;
        while i < per {
            // A pipeline of some requests.
            let n = r.range(1, 6).min(per - i);
            let mut bytes = vec![];
            for _ in 0..n {
                let q = match r.below(6) {
                    0 => req::<&[u8]>(STATS, None, &[]),
                    1 => req(GET, Some(INT), &[b"missing".as_slice()]),
                    _ => gen::any_req(r, &keys, &|_| None, false),
                };
                bytes.extend(q.encode());
            }
            i += n;
            if let Err(e) = c.send(&bytes) {
                fail("P21: the server stopped taking requests", format!("{e:?}"));
            }
            for _ in 0..n {
                match c.recv() {
                    Ok(Reply::Err(_)) => b += 1,
                    Ok(Reply::Val(_)) => o += 1,
                    x => fail("P21: a request got no reply", format!("{x:?}")),
                }
            }
        }
        (o, b)
    });
    for g in &got {
        base.0 += g.0;
        base.1 += g.1;
    }
    let mut c = srv.must("P21");
    let reps = r.range(1, 3);
    for _ in 0..reps {
        let rep = c.ask(&req::<&[u8]>(STATS, None, &[]));
        let x = rep.as_ref().map_err(|e| format!("{e:?}")).and_then(stats_of);
        match x {
            Ok(x) if (x.0, x.1) == *base => {}
            x => fail(
                "P21: the server's stats are not the numbers of commands it answered",
                format!("{nt} connections x {per} commands: stats {x:?}, answered (successful, errored) = {base:?}"),
            ),
        }
        base.0 += 1;
        eval(1);
    }
    count("server_rounds", 1);
    count("server_commands", got.iter().map(|g| g.0 + g.1).sum());
    distinct(&("srv", nt, per, got.iter().map(|g| g.0).sum::<u64>()));
}

pub fn p21() {
    let c = ctx();
    rule("a case is one run of commands whose every outcome is counted from outside and compared with the counters and with the reply to stats: sequential after each command, concurrent within the bounds of what had begun and ended and exactly at rest, through server connections exactly at rest, and the metrics library with counters, gauges, snapshots and dropped instances; distinct by the commands and their outcomes or by threads, commands and results");
    let mut r = c.rng(21);
    #[cfg(feature = "net")]
    let (srv, mut base) = (crate::net::Server::start("p21", None, None), (0u64, 0u64));
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        describe(format!("P21 round {i}"));
        let s = r.next();
        match i % 8 {
            0 => p21_concurrent(&mut r, s, i == 8),
            1 | 2 => p21_library(&mut r, s, i == 2),
            #[cfg(feature = "net")]
            3 => p21_server(&mut r, s, &srv, &mut base),
            4 | 6 => p21_concurrent(&mut r, s, false),
            _ => p21_sequential(&mut r),
        }
    }
    if get_count("stats_commands_checked") < 20 || get_count("concurrent_rounds") < 5 || get_count("library_rounds") < 5 {
        inconclusive("too few rounds");
    }
}

// ---- P22: sessions ---------------------------------------------------------------------------

fn token(n: u64) -> [u8; 32] {
    let mut t = [0; 32];
    let mut r = Rng::new(n, 9);
    for c in t.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_be_bytes());
    }
    t
}

fn p22_round(r: &mut Rng, seed: u64, near_wrap: bool) {
    let c = ctx();
    let h = crate::eng::hop();
    let nt = r.range(1, 8);
    let per = r.range(1, c.scale(300, 1500));
    let noise = Noise::pick(r);
    // Sessions that live through the whole round.
    let mut m = h.sessions().clone();
    let mut live: BTreeMap<u32, u64> = BTreeMap::new();
    let mut added = 0u64;
    let old = r.below(20);
    for _ in 0..old {
        let u = uniq();
        let id = *m.add(token(u)).key();
        if live.insert(id, u).is_some() {
            fail("P22: two live sessions have the same id", format!("id {id}"));
        }
        added += 1;
    }
    let near_wrap = near_wrap && hooks::set_next_id(&m, u32::MAX - r.below(6) as u32);
    // (id, token) put up for removal by anybody.
    let offered: Mutex<Vec<u32>> = Mutex::new(vec![]);
    let removals: Mutex<BTreeMap<u32, u32>> = Mutex::new(BTreeMap::new());
    let wins = AtomicU64::new(0);
    let tries = AtomicU64::new(0);
    let newest = std::sync::atomic::AtomicU32::new(0);
    let adds: Vec<Vec<(u32, u64)>> = parallel(nt, seed, noise, |_, r, gate| {
        let mut m = h.sessions().clone();
        let mut mine = vec![];
        gate.wait();
        for _ in 0..per {
            match r.below(3) {
                0 | 1 => {
                    let u = uniq();
                    let t = token(u);
                    let id = match cut(|| {
                        let s = m.add(t);
                        (*s.key(), s.value().id, s.value().client_token)
                    }) {
                        Ok((k, i, tk)) if k == i && tk == t => k,
                        x => fail("P22: a new session is not stored under its id with its token", format!("{x:?}, token {}", hex(&t))),
                    };
                    mine.push((id, u));
                    newest.store(id, Ordering::Relaxed);
                    if r.chance(1, 2) {
                        offered.lock().unwrap().push(id);
                    }
                }
                _ => {
                    // Several threads may go for the same one, or for one that is just being added.
                    let id = if !near_wrap && r.chance(1, 2) {
                        newest.load(Ordering::Relaxed).wrapping_add(r.below(4) as u32)
                    } else {
                        let mut o = offered.lock().unwrap();
                        if o.is_empty() {
                            continue;
                        }
                        let i = r.below(o.len());
                        if r.chance(1, 2) {
                            o.swap_remove(i)
                        } else {
                            o[i]
                        }
                    };
                    tries.fetch_add(1, Ordering::Relaxed);
                    match cut(|| m.remove(id)) {
                        Ok(true) => {
                            wins.fetch_add(1, Ordering::Relaxed);
                            *removals.lock().unwrap().entry(id).or_default() += 1;
                        }
                        Ok(false) => {}
                        Err(e) => fail("P22: removing a session panicked", e),
                    }
                }
            }
        }
        mine
    });
    for (id, u) in adds.iter().flatten() {
        added += 1;
        if near_wrap {
            // Ids of removed sessions may come again.
            continue;
        }
        if let Some(v) = live.insert(*id, *u) {
            // None was removed before it could have been given out again only if it is still live.
            let gone = removals.lock().unwrap().get(id).copied().unwrap_or(0);
            if gone == 0 {
                fail("P22: two live sessions have the same id", format!("id {id}, sessions {v} and {u}"));
            }
        }
    }
    let rem = removals.lock().unwrap().clone();
    let listed = hooks::sessions(h.sessions());
    let met = counters(&h.metrics());
    let gone = wins.load(Ordering::Relaxed);
    let w = || format!("{nt} threads x {per}; added {added}, removed {gone}, counters (started, ended) = {:?}, stored {:?}", (met.2, met.3), listed.as_ref().map(|l| l.len()));
    if (met.2, met.3) != (added, gone) {
        fail("P22: the session counters are not the numbers of sessions added and removed", w());
    }
    // Without the list, who is left is found out by removing everybody.
    let now = listed.clone().unwrap_or_else(|| {
        let mut all: Vec<(u32, u64)> = adds.iter().flatten().copied().chain(live.iter().map(|(id, u)| (*id, *u))).collect();
        all.sort();
        all.dedup_by_key(|x| x.0);
        all.into_iter().filter(|x| m.remove(x.0)).map(|(id, u)| (id, id, token(u))).collect()
    });
    if now.len() as u64 != added - gone {
        fail("P22: the number of stored sessions is not the number added minus the number removed", w());
    }
    let mut ids = HashSet::new();
    let tokens: BTreeMap<[u8; 32], u32> = adds.iter().flatten().map(|(id, u)| (token(*u), *id)).chain(live.iter().map(|(id, u)| (token(*u), *id))).collect();
    let mut used = HashSet::new();
    for (k, id, t) in &now {
        if k != id || !ids.insert(*id) {
            fail("P22: a session is stored under another id than its own", format!("stored under {k}, id {id}; {}", w()));
        }
        if tokens.get(t) != Some(id) || !used.insert(*t) {
            fail("P22: a session holds another token than its own", format!("session {id} holds {}; {}", hex(t), w()));
        }
    }
    if !near_wrap {
        // Ids were handed out once each here: every one is stored or was removed exactly once.
        for id in live.keys() {
            match (ids.contains(id), rem.get(id).copied().unwrap_or(0)) {
                (true, 0) | (false, 1) => {}
                (s, n) => fail("P22: a session was lost, or removed more than once", format!("session {id}: stored {s}, successful removals {n}; {}", w())),
            }
        }
    }
    // Removing the rest succeeds exactly once each.
    for id in &ids {
        if (listed.is_some() && !m.remove(*id)) || m.remove(*id) {
            fail("P22: removing a stored session didn't succeed exactly once", format!("session {id}; {}", w()));
        }
    }
    if hooks::sessions(h.sessions()).is_some_and(|s| !s.is_empty()) || counters(&h.metrics()).3 != added {
        fail("P22: sessions remain, or ended sessions are miscounted, after all were removed", w());
    }
    eval(added + tries.load(Ordering::Relaxed));
    count("sessions_added", added);
    count("removals_tried", tries.load(Ordering::Relaxed));
    count("removals_won", gone);
    count(if near_wrap { "rounds_across_the_wrap_of_ids" } else { "rounds" }, 1);
    distinct(&(near_wrap, nt, per, added, gone));
    sample(w);
}

/// Many sessions over time while a few of the first ones stay.
fn p22_long(r: &mut Rng, n: u64) {
    let h = crate::eng::hop();
    let mut m = h.sessions().clone();
    let mut keep: BTreeMap<u32, [u8; 32]> = BTreeMap::new();
    let mut removed = 0;
    for i in 0..n {
        let t = token(i ^ 0xABCD);
        let (id, own, tok) = {
            let s = m.add(t);
            (*s.key(), s.value().id, s.value().client_token)
        };
        if own != id || tok != t {
            fail("P22: a new session is not stored under its id with its token", format!("session {i}: stored under {id}, id {own}, token {} instead of {}", hex(&tok), hex(&t)));
        }
        if keep.contains_key(&id) {
            fail("P22: two live sessions have the same id", format!("id {id} was given to session {i} while another one has it"));
        }
        if i < 40 || r.chance(1, 5000) {
            keep.insert(id, t);
        } else {
            if !m.remove(id) {
                fail("P22: a live session could not be removed", format!("session {i}, id {id}"));
            }
            removed += 1;
        }
    }
    let met = counters(&h.metrics());
    let now: BTreeMap<u32, [u8; 32]> = match hooks::sessions(h.sessions()) {
        Some(l) => l.into_iter().map(|(k, _, t)| (k, t)).collect(),
        None => keep.iter().filter(|x| m.remove(*x.0)).map(|(id, t)| (*id, *t)).collect(),
    };
    if now != keep || (met.2, met.3) != (n, removed) {
        fail(
            "P22: long-lived sessions were replaced or miscounted",
            format!("{n} sessions added, {removed} removed, {} kept; stored {}, counters {met:?}", keep.len(), now.len()),
        );
    }
    eval(n);
    count("sessions_in_long_runs", n);
    distinct(&("long", n));
}

pub fn p22() {
    let c = ctx();
    rule("a case is one round of sessions added and removed by 1-8 threads (several going for the same session), with ids far from and across the end of their range, or one long run past 2^16 and more sessions while some stay; ids, tokens, removals and counters are compared with what the threads were told; distinct by threads, operations and outcomes");
    let mut r = c.rng(22);
    let mut i = 0u64;
    p22_long(&mut r, c.scale(150_000, 3_000_000) as u64);
    while !c.over() {
        i += 1;
        describe(format!("P22 round {i}"));
        let s = r.next();
        p22_round(&mut r, s, i % 4 == 0);
        if i % 400 == 0 {
            let n = r.range(1, 60_000) as u64;
            p22_long(&mut r, n);
        }
    }
    if get_count("rounds") < 20 || get_count("removals_won") < 100 {
        inconclusive("too few rounds");
    }
}

// ---- P23: subscriptions ----------------------------------------------------------------------

fn sid(n: u32) -> SessionId {
    SessionId::verif_new(n)
}

fn closed(s: &Subscription) -> bool {
    matches!(s.receiver().try_receive(), Err(e) if e.is_closed())
}

struct Flag(AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

fn p23_sequential(r: &mut Rng) {
    let h = crate::eng::hop();
    let ps = h.pubsub();
    let ns = r.range(1, 6) as u32;
    let n = r.range(1, 6);
    let keys = gen::keys(r, n);
    let offset = *r.pick(&[0u32, 1, 250, 65_530, u32::MAX - 6]);
    let ids: Vec<u32> = (0..ns).map(|i| offset.wrapping_add(i)).collect();
    let mut model: BTreeMap<(u32, usize), (Weak<Subscription>, Arc<Subscription>)> = BTreeMap::new();
    // Some callers keep what they looked up.
    let keep = r.chance(1, 2);
    let mut kept = vec![];
    let steps = r.range(5, 120);
    let mut trace = String::new();
    let mut shape = vec![];
    for _ in 0..steps {
        let s = *r.pick(&ids);
        let k = r.below(keys.len());
        let key = &keys[k];
        let op = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3]);
        let had = model.contains_key(&(s, k));
        shape.push((op, s.wrapping_sub(offset), k, had));
        match op {
            0 => {
                let got = match cut(|| ps.subscribe(key.clone(), sid(s))) {
                    Ok(g) => g,
                    Err(e) => fail("P23: subscribing panicked", format!("{e}\n{trace}")),
                };
                let _ = writeln!(trace, "session {s} subscribes to key {k}: {}", got.is_some());
                match (got, had) {
                    (Some(w), false) => {
                        let Some(a) = w.upgrade() else {
                            fail("P23: a new subscription is dead", trace);
                        };
                        if closed(&a) {
                            fail("P23: a new subscription is closed", trace);
                        }
                        model.insert((s, k), (w, a));
                    }
                    (None, true) => {}
                    (g, _) => fail(
                        "P23: subscribing didn't succeed exactly when the session wasn't subscribed",
                        format!("subscribed before: {had}, success: {}\n{trace}", g.is_some()),
                    ),
                }
            }
            1 => {
                let got = cut(|| ps.unsubscribe(key, sid(s))).unwrap_or_else(|e| fail("P23: unsubscribing panicked", format!("{e}\n{trace}")));
                let _ = writeln!(trace, "session {s} unsubscribes from key {k}: {got}");
                if got != had {
                    fail("P23: unsubscribing didn't succeed exactly when the session was subscribed", trace);
                }
                model.remove(&(s, k));
            }
            2 => {
                let mine: Vec<usize> = model.keys().filter(|x| x.0 == s).map(|x| x.1).collect();
                // Somebody waits on each of the subscriptions that are about to end, and on another session's.
                let flag = Arc::new(Flag(AtomicBool::new(false)));
                let waker = std::task::Waker::from(flag.clone());
                let mut cx = std::task::Context::from_waker(&waker);
                let rx = mine.first().map(|k| model[&(s, *k)].1.receiver());
                let mut fut = rx.as_ref().map(|x| Box::pin(x.receive()));
                let pending = fut.as_mut().map(|f| std::future::Future::poll(f.as_mut(), &mut cx).is_pending());
                let got = cut(|| ps.remove_session(sid(s))).unwrap_or_else(|e| fail("P23: removing a session panicked", format!("{e}\n{trace}")));
                let _ = writeln!(trace, "session {s} is removed: {got}");
                if got == mine.is_empty() {
                    fail("P23: removing a session doesn't tell whether it had subscriptions", format!("it had {}\n{trace}", mine.len()));
                }
                if let (Some(f), Some(true)) = (fut.as_mut(), pending) {
                    let end = std::future::Future::poll(f.as_mut(), &mut cx);
                    if !flag.0.load(Ordering::SeqCst) || !matches!(end, std::task::Poll::Ready(None)) {
                        fail("P23: who waits on a subscription isn't told that it ended", trace);
                    }
                    count("waiters_woken_by_removal", 1);
                }
                for k in mine {
                    let (_, a) = model.remove(&(s, k)).unwrap();
                    if !closed(&a) {
                        fail("P23: a subscription of a removed session isn't closed", format!("key {k}\n{trace}"));
                    }
                    count("closed_subscriptions_checked", 1);
                }
            }
            _ => {}
        }
        // Lookups from both sides agree with the model.
        for (ki, key) in keys.iter().enumerate() {
            let subs = hooks::subscribers(ps, key).map(|mut s| {
                s.sort();
                s
            });
            let mut want: Vec<SessionId> = vec![];
            for s in &ids {
                let got = ps.get(key, sid(*s));
                match (got, model.get(&(*s, ki))) {
                    (None, None) => {}
                    (Some(g), Some((w, a))) => {
                        want.push(sid(*s));
                        if !Weak::ptr_eq(&g, w) {
                            fail("P23: a lookup gives another subscription than subscribing did", trace);
                        }
                        if closed(a) {
                            fail("P23: a subscription of another session was closed", trace);
                        }
                        if keep && r.chance(1, 3) {
                            kept.push((g.upgrade(), g));
                        }
                    }
                    (g, w) => fail(
                        "P23: a lookup doesn't tell whether the session is subscribed",
                        format!("session {s}, key {ki}: found {}, subscribed {}\n{trace}", g.is_some(), w.is_some()),
                    ),
                }
                eval(1);
            }
            want.sort();
            if subs.as_ref().is_some_and(|s| *s != want) {
                fail("P23: a key's list of sessions is not who is subscribed to it", format!("key {ki}: {subs:?}, subscribed {want:?}\n{trace}"));
            }
        }
    }
    count("sequential_operations", steps as u64);
    distinct(&shape);
    sample(|| format!("{steps} operations of {ns} sessions on {} keys:\n{}", keys.len(), trace.lines().take(12).collect::<Vec<_>>().join("\n")));
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum SubOp {
    Sub(usize),
    Unsub(usize),
    Get(usize),
    Remove,
}
#[derive(Clone, Copy, Debug)]
struct SubEv {
    op: SubOp,
    got: bool,
    call: u64,
    ret: u64,
    thread: usize,
}

/// One order of a session's operations that respects real time and explains every answer.
fn explains(h: &[SubEv]) -> Option<bool> {
    let mut seen = HashSet::new();
    let mut stack = vec![(0u128, 0u32)];
    let all = if h.len() == 128 { u128::MAX } else { (1u128 << h.len()) - 1 };
    let mut steps = 0;
    while let Some((mask, st)) = stack.pop() {
        if mask == all {
            return Some(true);
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        steps += 1;
        if steps > 400_000 {
            return None;
        }
        let first = h.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if mask >> i & 1 == 1 || e.call > first {
                continue;
            }
            let (want, next) = match e.op {
                SubOp::Sub(k) => (st >> k & 1 == 0, st | 1 << k),
                SubOp::Unsub(k) => (st >> k & 1 == 1, st & !(1 << k)),
                SubOp::Get(k) => (st >> k & 1 == 1, st),
                SubOp::Remove => (st != 0, 0),
            };
            if want == e.got {
                stack.push((mask | 1 << i, next));
            }
        }
    }
    Some(false)
}

fn p23_concurrent(r: &mut Rng, seed: u64) {
    let h = crate::eng::hop();
    let ns = r.range(1, 3);
    let nk = r.range(1, 4);
    let keys: Vec<Vec<u8>> = (0..nk).map(|i| format!("{}/{i}", uniq()).into_bytes()).collect();
    let nt = r.range(2, 5);
    let per = r.range(2, 40 / nt);
    let noise = Noise::pick(r);
    let removes = r.chance(2, 3);
    let subs: Vec<Vec<(usize, SubEv, Option<Arc<Subscription>>)>> = parallel(nt, seed, noise, |t, r, gate| {
        let ps = h.pubsub().clone();
        let plan: Vec<(usize, SubOp)> = (0..per)
            .map(|_| {
                let k = r.below(nk);
                let op = match r.below(if removes { 9 } else { 8 }) {
                    0..=3 => SubOp::Sub(k),
                    4..=6 => SubOp::Unsub(k),
                    7 => SubOp::Get(k),
                    _ => SubOp::Remove,
                };
                (r.below(ns), op)
            })
            .collect();
        let mut out = Vec::with_capacity(per);
        gate.wait();
        for (s, op) in plan {
            let id = sid(s as u32);
            let mut arc = None;
            let call = tick();
            let got = cut(|| match op {
                SubOp::Sub(k) => match ps.subscribe(keys[k].clone(), id) {
                    Some(w) => {
                        arc = w.upgrade();
                        true
                    }
                    None => false,
                },
                SubOp::Unsub(k) => ps.unsubscribe(&keys[k], id),
                SubOp::Get(k) => ps.get(&keys[k], id).is_some(),
                SubOp::Remove => ps.remove_session(id),
            });
            let ret = tick();
            match got {
                Ok(got) => out.push((s, SubEv { op, got, call, ret, thread: t }, arc)),
                Err(e) => fail("P23: a concurrent operation panicked", format!("{op:?}: {e}")),
            }
        }
        out
    });
    let ps = h.pubsub();
    for s in 0..ns {
        let mut hist: Vec<SubEv> = subs.iter().flatten().filter(|x| x.0 == s).map(|x| x.1).collect();
        // What is found afterwards is part of the history.
        let mut live = BTreeSet::new();
        for k in 0..nk {
            let call = tick();
            let g = ps.get(&keys[k], sid(s as u32));
            let got = g.is_some();
            if let Some(a) = g.and_then(|w| w.upgrade()) {
                if closed(&a) {
                    fail("P23: a subscription in place is closed", format!("session {s}, key {k}"));
                }
                live.insert(Arc::as_ptr(&a) as usize);
            }
            hist.push(SubEv { op: SubOp::Get(k), got, call, ret: tick(), thread: 99 });
            let listed = hooks::subscribers(ps, &keys[k]).map_or(got, |l| l.contains(&sid(s as u32)));
            if listed != got {
                fail(
                    "P23: a key's list of sessions is not who is subscribed to it",
                    format!("after concurrent operations, session {s}, key {k}: subscribed {got}, listed {listed}\n{}", show_subs(&hist)),
                );
            }
        }
        // Without a removal nothing closes; with one, what is left from before it is closed or in place.
        let any_removed = hist.iter().any(|e| e.op == SubOp::Remove && e.got);
        for (_, e, a) in subs.iter().flatten().filter(|x| x.0 == s) {
            if let Some(a) = a {
                if closed(a) && !any_removed {
                    fail("P23: a subscription was closed without its session being removed", format!("{e:?}"));
                }
            }
        }
        hist.sort_by_key(|e| e.call);
        let overlaps = hist.windows(2).filter(|w| w[1].call < w[0].ret).count();
        match explains(&hist) {
            Some(true) => {}
            Some(false) => fail("P23: no order of a session's operations explains their answers", format!("session {s}\n{}", show_subs(&hist))),
            None => {
                count("histories_undecided", 1);
                continue;
            }
        }
        eval(hist.len() as u64);
        count("histories", 1);
        count("overlaps", overlaps as u64);
        if overlaps > 0 {
            let base = hist[0].call;
            distinct(&hist.iter().map(|e| (e.op, e.got, e.call - base, e.ret - base)).collect::<Vec<_>>());
        }
    }
}

fn show_subs(h: &[SubEv]) -> String {
    let mut v = h.to_vec();
    v.sort_by_key(|e| e.call);
    v.iter().map(|e| format!("thread {} [{}..{}] {:?} -> {}\n", e.thread, e.call, e.ret, e.op, e.got)).collect()
}

/// Many sessions on the same few keys, each worked on by one thread: nobody affects anybody else.
fn p23_many(r: &mut Rng, seed: u64) {
    let h = crate::eng::hop();
    let nt = r.range(2, 8);
    let nk = r.range(1, 40);
    let keys: Vec<Vec<u8>> = (0..nk).map(|i| format!("{}/{i}", uniq()).into_bytes()).collect();
    let per = r.range(5, 120);
    let noise = Noise::pick(r);
    let fin: Vec<(u32, BTreeMap<usize, Weak<Subscription>>, u64)> = parallel(nt, seed, noise, |t, r, gate| {
        let ps = h.pubsub().clone();
        let id = t as u32 * 3;
        let mut mine: BTreeMap<usize, Weak<Subscription>> = BTreeMap::new();
        let mut n = 0;
        gate.wait();
        for _ in 0..per {
            let k = r.below(nk);
            n += 1;
            match r.below(12) {
                0 if r.chance(1, 3) => {
                    let arcs: Vec<_> = mine.values().filter_map(|w| w.upgrade()).collect();
                    let got = ps.remove_session(sid(id));
                    if got == mine.is_empty() {
                        fail("P23: removing a session doesn't tell whether it had subscriptions", format!("session {id} had {}", mine.len()));
                    }
                    if arcs.len() != mine.len() || !arcs.iter().all(|a| closed(a)) {
                        fail("P23: a subscription of a removed session isn't closed", format!("session {id}"));
                    }
                    mine.clear();
                }
                1..=5 => match (ps.subscribe(keys[k].clone(), sid(id)), mine.contains_key(&k)) {
                    (Some(w), false) => {
                        mine.insert(k, w);
                    }
                    (None, true) => {}
                    (g, had) => fail(
                        "P23: subscribing didn't succeed exactly when the session wasn't subscribed",
                        format!("session {id}, key {k}: subscribed before {had}, success {}", g.is_some()),
                    ),
                },
                6..=8 => {
                    if ps.unsubscribe(&keys[k], sid(id)) != mine.remove(&k).is_some() {
                        fail("P23: unsubscribing didn't succeed exactly when the session was subscribed", format!("session {id}, key {k}"));
                    }
                }
                _ => {
                    let g = ps.get(&keys[k], sid(id));
                    let same = match (&g, mine.get(&k)) {
                        (None, None) => true,
                        (Some(a), Some(b)) => Weak::ptr_eq(a, b) && a.upgrade().is_some_and(|a| !closed(&a)),
                        _ => false,
                    };
                    if !same {
                        fail("P23: a lookup doesn't tell whether the session is subscribed", format!("session {id}, key {k}: found {}", g.is_some()));
                    }
                }
            }
        }
        (id, mine, n)
    });
    for (k, key) in keys.iter().enumerate() {
        let Some(mut got) = hooks::subscribers(h.pubsub(), key) else { break };
        got.sort();
        let mut want: Vec<SessionId> = fin.iter().filter(|f| f.1.contains_key(&k)).map(|f| sid(f.0)).collect();
        want.sort();
        if got != want {
            fail("P23: a key's list of sessions is not who is subscribed to it", format!("key {k}: {got:?}, subscribed {want:?}"));
        }
        eval(1);
    }
    let n: u64 = fin.iter().map(|f| f.2).sum();
    eval(n);
    count("operations_of_many_sessions", n);
    distinct(&("many", nt, nk, per, fin.iter().map(|f| f.1.len()).sum::<usize>()));
}

/// One session with many keys, one key with many sessions, or many of both, compared every now and then.
fn p23_large(r: &mut Rng) {
    let h = crate::eng::hop();
    let ps = h.pubsub();
    let (ns, nk) = match r.below(3) {
        0 => (r.range(1, 4), r.range(60, 700)),
        1 => (r.range(60, 700), r.range(1, 4)),
        _ => (r.range(20, 90), r.range(20, 90)),
    };
    let keys: Vec<Vec<u8>> = (0..nk)
        .map(|i| {
            let mut k = format!("{i}/").into_bytes();
            k.resize(k.len() + *r.pick(&[0, 0, 3, 250, 300, 70_000 / nk]), b'k');
            k
        })
        .collect();
    let mut model: BTreeMap<(usize, usize), Arc<Subscription>> = BTreeMap::new();
    let compare = |model: &BTreeMap<(usize, usize), Arc<Subscription>>, r: &mut Rng, when: &str| {
        let mut of: Vec<Vec<SessionId>> = vec![vec![]; nk];
        for ((s, k), a) in model {
            of[*k].push(sid(*s as u32));
            if closed(a) {
                fail("P23: a subscription in place is closed", format!("{ns} sessions, {nk} keys, {when}: session {s}, key {k}"));
            }
        }
        for (k, want) in of.iter_mut().enumerate() {
            let Some(mut got) = hooks::subscribers(ps, &keys[k]) else { break };
            got.sort();
            want.sort();
            if got != *want {
                fail(
                    "P23: a key's list of sessions is not who is subscribed to it",
                    format!("{ns} sessions, {nk} keys, {when}: key {k} has {} sessions in its list, {} are subscribed", got.len(), want.len()),
                );
            }
            eval(1);
        }
        for _ in 0..200 {
            let (s, k) = (r.below(ns), r.below(nk));
            let g = ps.get(&keys[k], sid(s as u32));
            let same = match (&g, model.get(&(s, k))) {
                (None, None) => true,
                (Some(g), Some(a)) => g.upgrade().is_some_and(|g| Arc::ptr_eq(&g, a)),
                _ => false,
            };
            if !same {
                fail("P23: a lookup doesn't tell whether the session is subscribed", format!("{ns} sessions, {nk} keys, {when}: session {s}, key {k}: found {}", g.is_some()));
            }
        }
    };
    let sub = |model: &mut BTreeMap<(usize, usize), Arc<Subscription>>, s: usize, k: usize| {
        let had = model.contains_key(&(s, k));
        match ps.subscribe(keys[k].clone(), sid(s as u32)).map(|w| w.upgrade()) {
            Some(Some(a)) if !had => {
                model.insert((s, k), a);
            }
            None if had => {}
            g => fail(
                "P23: subscribing didn't succeed exactly when the session wasn't subscribed",
                format!("{ns} sessions, {nk} keys: session {s}, key {k}: subscribed before {had}, success {}", g.is_some()),
            ),
        }
    };
    // Everybody to everything, so that the sizes are reached; then back and forth.
    for s in 0..ns {
        for k in 0..nk {
            sub(&mut model, s, k);
        }
    }
    maxi("most_sessions_of_a_key", ns as u64);
    maxi("most_keys_of_a_session", nk as u64);
    compare(&model, r, "everybody subscribed to everything");
    for round in 0..3 {
        let lean = r.range(1, 6);
        for _ in 0..ns * nk / 2 {
            let (s, k) = (r.below(ns), r.below(nk));
            if r.below(6) < lean {
                if ps.unsubscribe(&keys[k], sid(s as u32)) != model.remove(&(s, k)).is_some() {
                    fail("P23: unsubscribing didn't succeed exactly when the session was subscribed", format!("{ns} sessions, {nk} keys: session {s}, key {k}"));
                }
            } else {
                sub(&mut model, s, k);
            }
        }
        compare(&model, r, "after some unsubscribed");
        for _ in 0..r.range(1, 4) {
            let s = r.below(ns);
            let mine: Vec<usize> = (0..nk).filter(|k| model.contains_key(&(s, *k))).collect();
            if ps.remove_session(sid(s as u32)) == mine.is_empty() {
                fail("P23: removing a session doesn't tell whether it had subscriptions", format!("{ns} sessions, {nk} keys: session {s} had {}", mine.len()));
            }
            for k in mine {
                if !closed(&model.remove(&(s, k)).unwrap()) {
                    fail("P23: a subscription of a removed session isn't closed", format!("{ns} sessions, {nk} keys: session {s}, key {k}"));
                }
            }
            compare(&model, r, "after a session was removed");
            if r.chance(1, 2) {
                for k in 0..nk {
                    sub(&mut model, s, k);
                }
            }
        }
        distinct(&("large", ns, nk, round, model.len()));
    }
    count("rounds_with_many_subscriptions", 1);
}

pub fn p23() {
    let c = ctx();
    rule("a case is one run of subscribe, unsubscribe, lookup and remove-session calls: sequential against a model of who is subscribed to what with both directions of lookup compared after each call, concurrent on the same sessions with each session's history searched for an explaining order and both directions compared at rest, concurrent on sessions of their own, or with hundreds of keys or sessions at once; distinct by the operations, answers and (concurrent) the order of calls and returns");
    let mut r = c.rng(23);
    // Wear: more subscriptions over time than 2^16, while one stays.
    {
        let h = crate::eng::hop();
        let p = h.pubsub().clone();
        let first = p.subscribe(b"first".to_vec(), sid(0)).expect("a new subscription");
        for n in 0..c.scale(67_000, 300_000) as u32 {
            let (k, s) = (if n % 3 == 0 { &b"first"[..] } else { b"other" }, sid(1 + n % 5));
            let w = |e: &str| -> ! { fail("P23: subscriptions wear out", format!("{e}: subscription {n} of one engine")) };
            let Some(sub) = p.subscribe(k.to_vec(), s) else { w("refused") };
            if p.subscribe(k.to_vec(), s).is_some() {
                w("granted twice")
            }
            if !p.get(k, s).is_some_and(|x| x.ptr_eq(&sub)) {
                w("not found")
            }
            let gone = if n % 2 == 0 { p.unsubscribe(k, s) } else { p.remove_session(s) };
            if !gone || p.get(k, s).is_some() || sub.upgrade().is_some() {
                w("didn't end")
            }
        }
        if !p.get(b"first", sid(0)).is_some_and(|x| x.ptr_eq(&first)) || first.upgrade().is_none_or(|s| closed(&s)) {
            fail("P23: a subscription that nobody ended is gone", String::new());
        }
        eval(1);
        count("subscriptions_of_one_engine", 67_000);
    }
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        describe(format!("P23 round {i}"));
        let s = r.next();
        if i % 100 == 3 {
            p23_large(&mut r);
        }
        match i % 5 {
            0 | 1 => p23_sequential(&mut r),
            2 => p23_many(&mut r, s),
            _ => p23_concurrent(&mut r, s),
        }
    }
    if get_count("histories") < 50 || get_count("closed_subscriptions_checked") < 20 {
        inconclusive("too few rounds");
    }
}
