//! P27-P30: independence of engines, the embedded state interface, and the server's address and resources.
use crate::{common::*, eng::*, gen, model, model::Db, net::*, p_conc::*, hooks, rng::Rng, wire::*};
use hop_engine::{
    dashmap::{DashMap, DashSet},
    hop::Builder,
    metrics::{Metric, Reader},
    session::SessionId,
    state::{State, Value},
    Hop,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    io::{Read as _, Write as _},
    net::{SocketAddr, TcpStream},
    os::unix::process::CommandExt,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

// ---- P27: engines are independent, clones are one ---------------------------------------------

struct Engine {
    /// All of them are the same engine.
    handles: Vec<Hop>,
    reader: Reader,
    states: Vec<State>,
    db: Db,
    counts: (u64, u64, u64, u64),
    live: BTreeMap<u32, [u8; 32]>,
    subs: BTreeSet<(u32, Vec<u8>)>,
    config: (bool, usize),
    how: &'static str,
}

fn counts_of(r: &Reader) -> (u64, u64, u64, u64) {
    let g = |m| r.counter(&m).unwrap_or(0);
    (g(Metric::CommandsSuccessful), g(Metric::CommandsErrored), g(Metric::SessionsStarted), g(Metric::SessionsEnded))
}

fn dump_state(s: &State) -> Db {
    let mut d = Db::new();
    s.verif_for_each(|k, v| {
        d.insert(k.to_vec(), mval(v));
    });
    d
}

fn make(r: &mut Rng) -> Engine {
    let default = (true, usize::MAX);
    let (hop, config, how) = match r.below(6) {
        0 => (Hop::new(), default, "new"),
        1 => (Hop::default(), default, "default"),
        2 => (Builder::new().build(), default, "builder"),
        3 => (Hop::from(Builder::default()), default, "from builder"),
        _ => {
            // Limits aren't exercised here, so they are generous.
            let mut b = Builder::new();
            let mut c = default;
            if r.chance(1, 2) {
                c.0 = r.chance(1, 2);
                b.pubsub_enabled(c.0);
            }
            if r.chance(2, 3) {
                c.1 = *r.pick(&[0usize, 1, 150, 65_536, usize::MAX - 1, usize::MAX]);
                b.sessions_active_max(c.1);
            }
            if r.chance(1, 3) {
                c.0 = !c.0;
                b.pubsub_enabled(c.0);
            }
            let b2 = if r.chance(1, 2) { b.clone() } else { b };
            (b2.build(), c, "configured builder")
        }
    };
    Engine {
        reader: hop.metrics(),
        states: vec![hop.state().clone()],
        handles: vec![hop],
        db: Db::new(),
        counts: (0, 0, 0, 0),
        live: BTreeMap::new(),
        subs: BTreeSet::new(),
        config,
        how,
    }
}

/// What one handle shows, compared with what was done to its engine.
fn look(h: &Hop, e: &Engine, keys: &[Vec<u8>]) -> Result<(), String> {
    let d = dump(h);
    if d != e.db {
        return Err(format!("it holds {d:?}, but only this was stored in it: {:?}", e.db));
    }
    let c = counts_of(&h.metrics());
    if c != e.counts {
        return Err(format!("its counters (successful, errored, started, ended) are {c:?}, but of it are {:?}", e.counts));
    }
    if let Some(s) = hooks::sessions(h.sessions()) {
        let s: BTreeMap<u32, [u8; 32]> = s.into_iter().map(|(k, _, t)| (k, t)).collect();
        if s != e.live {
            return Err(format!("it has the sessions {:?}, but those are {:?}", s.keys(), e.live.keys()));
        }
    }
    for sid in 0..4u32 {
        for k in keys {
            let has = h.pubsub().get(k, SessionId::verif_new(sid)).is_some();
            if has != e.subs.contains(&(sid, k.clone())) {
                return Err(format!("session {sid} is {}subscribed to {}", if has { "" } else { "not " }, hex(k)));
            }
        }
    }
    let g = (h.config().pubsub_enabled(), h.config().sessions_active_max());
    if g != e.config {
        return Err(format!("its configuration is {g:?}, but it was made with {:?}", e.config));
    }
    Ok(())
}

fn p27_history(r: &mut Rng) {
    let keys = gen::keys(r, 3);
    let mut es: Vec<Engine> = (0..r.range(2, 4)).map(|_| make(r)).collect();
    let mut trace = String::new();
    let mut shape = vec![];
    let n = r.range(10, 150);
    let all = |es: &Vec<Engine>, trace: &str| {
        for (i, e) in es.iter().enumerate() {
            for (j, h) in e.handles.iter().enumerate() {
                if let Err(w) = look(h, e, &keys) {
                    fail("P27: an engine shows other state than its own", format!("engine {i} ({}), handle {j}: {w}\n{trace}", e.how));
                }
            }
            for s in &e.states {
                let d = dump_state(s);
                if d != e.db {
                    fail("P27: a cloned state shows another database", format!("engine {i} ({}): {d:?} instead of {:?}\n{trace}", e.how, e.db));
                }
            }
            let c = counts_of(&e.reader);
            if c != e.counts {
                fail("P27: the metrics of an engine are not its own", format!("engine {i} ({}): {c:?} instead of {:?}\n{trace}", e.how, e.counts));
            }
            count("handles_compared", e.handles.len() as u64);
        }
    };
    all(&es, "at the beginning");
    for _ in 0..n {
        let i = r.below(es.len());
        let op = r.below(12);
        shape.push((i as u8, op as u8));
        if op == 6 && es.len() < 5 && r.chance(1, 3) {
            es.push(make(r));
            let _ = writeln!(trace, "engine {} made", es.len() - 1);
            continue;
        }
        if op == 7 && es.len() > 1 && r.chance(1, 4) {
            let gone = es.remove(i);
            let reader = gone.reader.clone();
            drop(gone);
            // A reader may outlive its engine.
            if cut(|| counts_of(&reader)).is_err() {
                fail("P27: reading the metrics of a dropped engine panicked", trace.clone());
            }
            let _ = writeln!(trace, "engine {i} dropped");
            count("engines_dropped", 1);
            continue;
        }
        let e = &mut es[i];
        let hi = r.below(e.handles.len());
        match op {
            0 if e.handles.len() < 5 => {
                let h = e.handles[hi].clone();
                e.handles.push(h);
                let _ = writeln!(trace, "engine {i}: cloned a handle");
                count("clones", 1);
            }
            1 if e.handles.len() > 1 => {
                e.handles.remove(hi);
                let _ = writeln!(trace, "engine {i}: dropped handle {hi}");
                count("handles_dropped", 1);
            }
            2 => {
                let h = e.handles[hi].clone();
                let mut m = h.sessions().clone();
                let t = [r.below(250) as u8; 32];
                let id = *m.add(t).key();
                e.live.insert(id, t);
                e.counts.2 += 1;
                let _ = writeln!(trace, "engine {i}: session {id} added");
            }
            3 => {
                let id = if r.chance(3, 4) { e.live.keys().next().copied().unwrap_or(0) } else { r.below(6) as u32 };
                let was = e.live.remove(&id).is_some();
                if was {
                    e.counts.3 += 1;
                }
                if e.handles[hi].sessions().remove(id) != was {
                    fail("P27: a session of another engine was removed", format!("engine {i}, session {id}, live: {was}\n{trace}"));
                }
                let _ = writeln!(trace, "engine {i}: session {id} removed: {was}");
            }
            4 => {
                let sid = r.below(4) as u32;
                let k = r.pick(&keys).clone();
                let new = e.subs.insert((sid, k.clone()));
                let got = e.handles[hi].pubsub().subscribe(k.clone(), SessionId::verif_new(sid)).is_some();
                if got != new {
                    fail("P27: a subscription of another engine counted", format!("engine {i}: subscribing {sid} to {} said {got}\n{trace}", hex(&k)));
                }
                let _ = writeln!(trace, "engine {i}: session {sid} subscribed to {}", hex(&k));
            }
            5 => {
                let sid = r.below(4) as u32;
                let k = r.pick(&keys).clone();
                let was = e.subs.remove(&(sid, k.clone()));
                let got = e.handles[hi].pubsub().unsubscribe(&k, SessionId::verif_new(sid));
                if got != was {
                    fail("P27: a subscription of another engine counted", format!("engine {i}: unsubscribing {sid} from {} said {got}\n{trace}", hex(&k)));
                }
                let _ = writeln!(trace, "engine {i}: session {sid} unsubscribed from {}: {was}", hex(&k));
            }
            _ => {
                let kinds = e.db.clone();
                let q = gen::any_req(r, &keys, &|k| kinds.get(k).map(|v| v.kind()), false);
                let _ = writeln!(trace, "engine {i}, handle {hi}: {q:?}");
                let exp = model::apply(&mut e.db, &q);
                match run(&e.handles[hi], &q, if r.chance(1, 2) { Via::Builder } else { Via::Wire }) {
                    Err(w) => fail("P27: a request failed to give a reply", format!("{w}\n{trace}")),
                    Ok(rep) => {
                        if let Err(w) = model::check(&mut e.db, &exp, &rep) {
                            fail("P27: a reply depends on another engine or handle", format!("{w}\n{trace}"));
                        }
                        if matches!(exp, model::Expect::Open) {
                            e.db = dump(&e.handles[hi]);
                        }
                        match rep {
                            Reply::Err(_) => e.counts.1 += 1,
                            _ => e.counts.0 += 1,
                        }
                        count("commands", 1);
                    }
                }
            }
        }
        if r.chance(1, 6) {
            all(&es, &trace);
        }
        eval(1);
    }
    all(&es, &trace);
    count("histories", 1);
    distinct(&shape);
    sample(|| format!("{} engines, {n} steps, last: {}", es.len(), trace.lines().last().unwrap_or("")));
}

/// Threads that each work on an engine of their own don't notice each other.
fn p27_threads(r: &mut Rng) {
    let nt = r.range(2, 6);
    let per = r.range(50, 400);
    let keys = gen::keys(r, 3);
    let seed = r.next();
    parallel(nt, seed, Noise::pick(r), |t, r, gate| {
        let mut e = make(r);
        gate.wait();
        for _ in 0..per {
            let kinds = e.db.clone();
            let q = gen::any_req(r, &keys, &|k| kinds.get(k).map(|v| v.kind()), false);
            let exp = model::apply(&mut e.db, &q);
            let h = e.handles[0].clone();
            match run(&h, &q, Via::Builder) {
                Err(w) => fail("P27: a request failed to give a reply", format!("{q:?}: {w}")),
                Ok(rep) => {
                    if let Err(w) = model::check(&mut e.db, &exp, &rep) {
                        fail("P27: engines of different threads disturb each other", format!("thread {t}: {q:?}: {w}"));
                    }
                    if matches!(exp, model::Expect::Open) {
                        e.db = dump(&h);
                    }
                    match rep {
                        Reply::Err(_) => e.counts.1 += 1,
                        _ => e.counts.0 += 1,
                    }
                }
            }
        }
        if let Err(w) = look(&e.handles[0], &e, &keys) {
            fail("P27: engines of different threads disturb each other", format!("thread {t}, engine made by {}: {w}", e.how));
        }
    });
    eval((nt * per) as u64);
    count("threaded_rounds", 1);
    distinct(&("threads", nt, per));
}

/// Clients of the memory backend are a database each.
async fn p27_clients(r: &mut Rng) {
    let n = r.range(2, 4);
    let clients: Vec<hop::Client<hop::backend::MemoryBackend>> = (0..n).map(|_| hop::Client::memory()).collect();
    let mut sums = vec![BTreeMap::<u8, i64>::new(); n];
    let steps = r.range(5, 60);
    let mut cmds = vec![0i64; n];
    for s in 0..steps {
        let i = r.below(n);
        let k = r.below(3) as u8;
        let by = r.range(1, 9) as i64;
        let want = sums[i].entry(k).or_default();
        *want += by;
        cmds[i] += 1;
        match clients[i].increment([b'k', k]).int().by(by).await {
            Ok(v) if v == *want => {}
            x => fail("P27: clients of separate databases disturb each other", format!("client {i} of {n}, step {s}: {x:?}, expected {want}")),
        }
    }
    for (i, c) in clients.iter().enumerate() {
        match c.stats().await {
            Ok(st) if st.commands_successful() == cmds[i] => cmds[i] += 1,
            x => fail("P27: clients of separate databases share statistics", format!("client {i}: {:?}, expected {}", x.map(|s| s.commands_successful()), cmds[i])),
        }
    }
    eval(steps as u64);
    count("memory_client_rounds", 1);
    distinct(&("clients", n, steps));
}

pub fn p27() {
    let c = ctx();
    rule("a case is one history of commands, sessions, subscriptions, clones and drops on 2-5 engines made in all the ways there are and sharing key names, each with its own reference model, every handle compared with it; or one round of threads with an engine each; or one round of memory clients; distinct by sequence of operations");
    let mut r = c.rng(27);
    let rt = tokio::runtime::Builder::new().basic_scheduler().build().expect("runtime");
    let mut rt = rt;
    // Wear: more engines over time than 2^16, next to one that stays.
    let first = crate::eng::hop();
    first.state().insert(b"stays".to_vec(), Value::Integer(7));
    for n in 0..c.scale(67_000, 140_000) {
        let h = match cut(crate::eng::hop) {
            Ok(h) => h,
            Err(e) => fail("P27: an engine couldn't be made", format!("engine {n}: {e}")),
        };
        if n % 64 == 0 || n > 65_000 {
            h.state().insert(b"stays".to_vec(), Value::Boolean(false));
            let ok = h.state().key_type(b"stays").map(kty_no) == Some(BOOL) && first.state().key_ref(b"stays").is_some_and(|v| v.as_integer_ref() == Some(&7));
            if !ok {
                fail("P27: engines share their contents", format!("engine {n}"));
            }
        }
        progress();
    }
    eval(1);
    count("engines_over_time", 67_000);
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        describe(format!("P27 round {i}"));
        p27_history(&mut r);
        if i % 8 == 0 {
            p27_threads(&mut r);
        }
        if i % 4 == 0 {
            rt.block_on(p27_clients(&mut r));
        }
    }
    if get_count("histories") < 50 || get_count("clones") < 20 || get_count("threaded_rounds") < 5 {
        inconclusive("too few histories");
    }
}

// ---- P28: the embedded state interface ---------------------------------------------------------

fn typed_views(v: &Value) -> Vec<(u8, bool, Option<MVal>)> {
    let owned = |o: Option<MVal>| o;
    vec![
        (BOOL, v.is_boolean(), owned(v.as_boolean_ref().map(|b| MVal::Bool(*b)))),
        (BYTES, v.is_bytes(), owned(v.as_bytes_ref().map(|b| MVal::Bytes(b.to_vec())))),
        (FLOAT, v.is_float(), owned(v.as_float_ref().map(|f| MVal::f(*f)))),
        (INT, v.is_integer(), owned(v.as_integer_ref().map(|i| MVal::Int(*i)))),
        (STR, v.is_string(), owned(v.as_string_ref().map(|s| MVal::Str(s.as_bytes().to_vec())))),
        (LIST, v.is_list(), owned(v.as_list_ref().map(|l| MVal::List(l.to_vec())))),
        (MAP, v.is_map(), owned(v.as_map_ref().map(|m| MVal::Map(m.iter().map(|r| (r.key().clone(), r.value().clone())).collect())))),
        (SETT, v.is_set(), owned(v.as_set_ref().map(|s| MVal::Set(s.iter().map(|r| r.key().clone()).collect())))),
    ]
}

fn check_views(v: &Value, want: &MVal, trace: &str) {
    if kty_no(v.kind()) != want.kind() || &mval(v) != want {
        fail("P28: the state hands out another value than the stored one", format!("{v:?} instead of {want:?}\n{trace}"));
    }
    for (t, is, view) in typed_views(v) {
        let right = t == want.kind();
        if is != right || view.as_ref() != right.then_some(want) {
            fail(
                "P28: a typed view of a value is wrong",
                format!("{} view of {want:?}: is {is}, {view:?}\n{trace}", type_name(t)),
            );
        }
    }
}

/// Change a value through its typed mutable view; the others must not exist.
fn mutate(v: &mut Value, want: &mut MVal, r: &mut Rng, trace: &str) {
    let t = want.kind();
    let n = [
        v.as_boolean_mut().is_some(),
        v.as_bytes_mut().is_some(),
        v.as_float_mut().is_some(),
        v.as_integer_mut().is_some(),
        v.as_string_mut().is_some(),
        v.as_list_mut().is_some(),
        v.as_map_mut().is_some(),
        v.as_set_mut().is_some(),
    ];
    let order = [BOOL, BYTES, FLOAT, INT, STR, LIST, MAP, SETT];
    for (i, has) in n.iter().enumerate() {
        if *has != (order[i] == t) {
            fail("P28: a typed view of a value is wrong", format!("mutable {} view of {want:?}: {has}\n{trace}", type_name(order[i])));
        }
    }
    match want {
        MVal::Bool(b) => {
            *b = !*b;
            *v.as_boolean_mut().unwrap() = *b;
        }
        MVal::Bytes(b) => {
            b.extend_from_slice(b"+more");
            v.as_bytes_mut().unwrap().extend_from_slice(b"+more");
        }
        MVal::Float(f) => {
            *f = gen::float(r).to_bits();
            *v.as_float_mut().unwrap() = f64::from_bits(*f);
        }
        MVal::Int(i) => {
            *i = gen::int(r);
            *v.as_integer_mut().unwrap() = *i;
        }
        MVal::Str(s) => {
            s.extend_from_slice("é+".as_bytes());
            v.as_string_mut().unwrap().push_str("é+");
        }
        MVal::List(l) => {
            l.push(b"item".to_vec());
            v.as_list_mut().unwrap().push(b"item".to_vec());
        }
        MVal::Map(m) => {
            m.insert(b"entry".to_vec(), b"value".to_vec());
            v.as_map_mut().unwrap().insert(b"entry".to_vec(), b"value".to_vec());
        }
        MVal::Set(s) => {
            s.insert(b"member".to_vec());
            v.as_set_mut().unwrap().insert(b"member".to_vec());
        }
    }
}

fn defaults() -> Vec<(Value, MVal)> {
    vec![
        (Value::boolean(), MVal::Bool(false)),
        (Value::bytes(), MVal::Bytes(vec![])),
        (Value::float(), MVal::f(0.0)),
        (Value::integer(), MVal::Int(0)),
        (Value::string(), MVal::Str(vec![])),
        (Value::list(), MVal::List(vec![])),
        (Value::map(), MVal::Map(BTreeMap::new())),
        (Value::set(), MVal::Set(BTreeSet::new())),
    ]
}

/// The value made by the conversions an embedding program would use.
fn converted(v: &MVal) -> Value {
    match v {
        MVal::Bool(b) => Value::from(*b),
        MVal::Bytes(b) => Value::from(b.clone()),
        MVal::Float(f) => Value::from(f64::from_bits(*f)),
        MVal::Int(i) => Value::from(*i),
        MVal::Str(s) => Value::from(String::from_utf8(s.clone()).expect("text")),
        MVal::List(l) => Value::from(l.clone()),
        MVal::Map(m) => Value::from(m.clone().into_iter().collect::<DashMap<_, _>>()),
        MVal::Set(s) => Value::from(s.clone().into_iter().collect::<DashSet<_>>()),
    }
}

fn p28_history(r: &mut Rng) {
    let h = crate::eng::hop();
    let mut db = Db::new();
    let keys = gen::keys(r, 4);
    let n = r.range(5, 120);
    let mut trace = String::new();
    let mut shape = vec![];
    for _ in 0..n {
        let k = r.pick(&keys).clone();
        // A clone of the state is the same state.
        let own;
        let st: &State = if r.chance(1, 3) {
            own = h.state().clone();
            &own
        } else {
            h.state()
        };
        let op = r.below(14);
        shape.push((op, db.get(&k).map(|v| v.kind())));
        let _ = write!(trace, "state op {op} on {}", hex(&k));
        let there = db.get(&k).cloned();
        let out = cut(|| match op {
            0 => {
                if st.contains_key(&k) != there.is_some() {
                    fail("P28: contains_key is wrong", trace.clone());
                }
            }
            1 => {
                if st.key_type(&k).map(kty_no) != there.as_ref().map(|v| v.kind()) {
                    fail("P28: key_type is wrong", format!("{:?} for {there:?}\n{trace}", st.key_type(&k)));
                }
            }
            2 | 3 => {
                let t = r.below(8) as u8;
                let v = gen::value(r, t, false);
                let old = st.insert(k.clone(), converted(&v));
                match (&old, &there) {
                    (None, None) => {}
                    (Some(o), Some(w)) => check_views(o, w, &trace),
                    _ => fail("P28: insert returned another value than the replaced one", format!("{old:?} for {there:?}\n{trace}")),
                }
                db.insert(k.clone(), v);
            }
            4 => {
                let old = st.remove(&k);
                match (&old, &there) {
                    (None, None) => {}
                    (Some((kk, o)), Some(w)) => {
                        if kk != &k {
                            fail("P28: remove returned another key", format!("{}\n{trace}", hex(kk)));
                        }
                        check_views(o, w, &trace)
                    }
                    _ => fail("P28: remove returned another value than the removed one", format!("{old:?} for {there:?}\n{trace}")),
                }
                db.remove(&k);
            }
            5 | 6 => match (st.key_ref(&k), &there) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    if g.key() != &k {
                        fail("P28: a reference to another key was handed out", format!("{}\n{trace}", hex(g.key())));
                    }
                    check_views(g.value(), w, &trace)
                }
                (g, _) => fail("P28: key_ref is wrong", format!("found: {}, for {there:?}\n{trace}", g.is_some())),
            },
            7 | 8 => match (st.key_mut(&k), there) {
                (None, None) => {}
                (Some(mut g), Some(mut w)) => {
                    check_views(g.value(), &w, &trace);
                    mutate(g.value_mut(), &mut w, r, &trace);
                    check_views(g.value(), &w, &trace);
                    db.insert(k.clone(), w);
                }
                (g, t) => fail("P28: key_mut is wrong", format!("found: {}, for {t:?}\n{trace}", g.is_some())),
            },
            9 | 10 => {
                let i = r.below(8);
                let (_, d) = &defaults()[i];
                let mut g = st.key_or_insert_with(&k, || defaults().swap_remove(i).0);
                let mut w = there.unwrap_or_else(|| d.clone());
                check_views(g.value(), &w, &trace);
                if r.chance(1, 2) {
                    mutate(g.value_mut(), &mut w, r, &trace);
                }
                drop(g);
                db.insert(k.clone(), w);
            }
            _ => {}
        });
        if let Err(e) = out {
            fail("P28: a method of the state panicked", format!("{e}\n{trace}"));
        }
        let _ = writeln!(trace);
        if op > 10 {
            // Commands act on the same database. A value that no reply could carry isn't replied.
            let kinds = db.clone();
            let q = gen::any_req(r, &keys, &|k| kinds.get(k).map(|v| v.kind()), false);
            let _ = writeln!(trace, "{q:?}");
            let exp = model::apply(&mut db, &q);
            match run(&h, &q, Via::Wire) {
                Err(e) => fail("P28: a command failed to give a reply", format!("{e}\n{trace}")),
                Ok(rep) => {
                    if let Err(e) = model::check(&mut db, &exp, &rep) {
                        fail("P28: a command doesn't agree with the state", format!("{e}\n{trace}"));
                    }
                    if matches!(exp, model::Expect::Open) {
                        db = dump(&h);
                    }
                }
            }
            count("commands", 1);
        }
        if dump(&h) != db {
            fail("P28: the stored values differ from what the state was told", format!("{:?} instead of {db:?}\n{trace}", dump(&h)));
        }
        eval(1);
    }
    count("histories", 1);
    distinct(&shape);
    sample(|| format!("{n} state methods and commands, ending with {} keys", db.len()));
}

/// Values of a size, up to ones that no single command could store, through the state and as commands see them.
fn p28_size(h: &Hop, n: usize, r: &mut Rng) {
    let item = |i: usize| format!("i{i}").into_bytes();
    for t in [BYTES, STR, LIST, MAP, SETT] {
        let k = format!("sized{t}").into_bytes();
        let want = match t {
            BYTES => MVal::Bytes(r.bytes(n)),
            STR => MVal::Str("s\u{e9}".chars().cycle().take(n).collect::<String>().into_bytes()),
            LIST => MVal::List((0..n).map(item).collect()),
            MAP => MVal::Map((0..n).map(|i| (item(i), item(i + 1))).collect()),
            _ => MVal::Set((0..n).map(item).collect()),
        };
        let trace = format!("{} of {n}", type_name(t));
        h.state().insert(k.clone(), converted(&want));
        match h.state().key_ref(&k) {
            Some(g) => check_views(g.value(), &want, &trace),
            None => fail("P28: key_ref is wrong", format!("no value, {trace}")),
        }
        if h.state().key_type(&k).map(kty_no) != Some(t) {
            fail("P28: key_type is wrong", trace);
        }
        let mut db = Db::new();
        db.insert(k.clone(), want);
        let mut qs = vec![req(TYPE, None, &[&k]), req(LENGTH, None, &[&k]), req(IS, Some(t), &[&k])];
        if n <= u16::MAX as usize {
            qs.push(req(GET, None, &[&k]));
            qs.push(req(GET, Some(t), &[&k]));
            if t == MAP {
                qs.push(req(KEYS, None, &[&k]));
            }
        }
        qs.push(req(RENAME, None, &[&k[..], b"renamed"]));
        qs.push(req(DELETE, None, &[&b"renamed"[..]]));
        for q in &qs {
            let exp = model::apply(&mut db, q);
            match run(h, q, Via::Wire) {
                Err(e) => fail("P28: a command failed to give a reply", format!("{e}\n{trace}")),
                Ok(rep) => {
                    if let Err(e) = model::check(&mut db, &exp, &rep) {
                        fail("P28: a command doesn't agree with the state", format!("command {} on a {trace}: {e}", q.cmd));
                    }
                }
            }
            eval(1);
        }
        count("sized_values", 1);
    }
    distinct(&("size", n));
}

/// Commands of clients and an embedding program update the same keys at once.
fn p28_concurrent(r: &mut Rng) {
    let h = crate::eng::hop();
    let nt = r.range(2, 6);
    let per = r.range(20, 400);
    let key = gen::keys(r, 1).swap_remove(0);
    let seed = r.next();
    let remove_too = r.chance(1, 3);
    let taken: Vec<i64> = parallel(nt, seed, Noise::pick(r), |t, r, gate| {
        let mut taken = 0i64;
        gate.wait();
        for _ in 0..per {
            if t % 2 == 0 {
                let res = cut(|| {
                    let mut g = h.state().key_or_insert_with(&key, Value::integer);
                    if let Some(i) = g.as_integer_mut() {
                        *i += 1;
                    }
                });
                if let Err(e) = res {
                    fail("P28: a method of the state panicked", e);
                }
            } else {
                let q = req(INCR, Some(INT), &[&key]);
                if let x @ (Err(_) | Ok(Reply::Err(_))) = run(&h, &q, Via::Builder) {
                    fail("P28: a command fails beside the state's methods", format!("{:?}", x.map(|r| model::show_reply(&r))));
                }
            }
            if remove_too && r.chance(1, 10) {
                if let Some((_, Value::Integer(i))) = h.state().remove(&key) {
                    taken += i;
                }
            }
        }
        taken
    });
    let left = match dump(&h).get(&key) {
        Some(MVal::Int(i)) => *i,
        None => 0,
        x => fail("P28: the counter became something else", format!("{x:?}")),
    };
    let sum: i64 = taken.iter().sum::<i64>() + left;
    if sum != (nt * per) as i64 {
        fail(
            "P28: an update through the state or a command was lost",
            format!("{nt} threads added {per} each, of which {sum} remained (removals: {remove_too})"),
        );
    }
    eval((nt * per) as u64);
    count("concurrent_updates", (nt * per) as u64);
    distinct(&("concurrent", nt, per, remove_too));
}

/// Values that threads put in, take out and exchange under shared keys: each one comes out exactly once.
fn p28_swaps(r: &mut Rng) {
    let h = crate::eng::hop();
    let nt = r.range(2, 6);
    let nk = *r.pick(&[1usize, 3, 50, 400]);
    let rounds = (600 / nk).max(2);
    let inserts_only = r.chance(1, 3);
    let seed = r.next();
    let key = |k: usize| format!("swapped{k}").into_bytes();
    // For each key: what was put in, whether it replaced nothing, and what came out.
    type Log = Vec<(usize, Option<i64>, Option<i64>)>;
    let logs: Vec<Log> = parallel(nt, seed, Noise::pick(r), |t, r, gate| {
        let st = h.state().clone();
        let mut log: Log = vec![];
        let mut n = 0i64;
        let int = |v: &Value| match v.as_integer_ref() {
            Some(i) => *i,
            None => fail("P28: a value of another type appeared", format!("{v:?}")),
        };
        gate.wait();
        for _ in 0..rounds {
            for k in 0..nk {
                n += 1;
                let mine = n * 8 + t as i64;
                match if inserts_only { 0 } else { r.below(6) } {
                    0 | 1 => log.push((k, Some(mine), st.insert(key(k), Value::Integer(mine)).map(|v| int(&v)))),
                    2 | 3 => match st.remove(&key(k)) {
                        Some((kk, v)) => {
                            if kk != key(k) {
                                fail("P28: removing a key returned another", format!("{} instead of {}", hex(&kk), hex(&key(k))));
                            }
                            log.push((k, None, Some(int(&v))))
                        }
                        None => log.push((k, None, None)),
                    },
                    4 => {
                        let g = st.key_or_insert_with(&key(k), || Value::Integer(mine));
                        if int(&g) == mine {
                            log.push((k, Some(mine), None));
                        }
                    }
                    _ => {
                        if let Some(mut g) = st.key_mut(&key(k)) {
                            let old = std::mem::replace(&mut *g, Value::Integer(mine));
                            log.push((k, Some(mine), Some(int(&old))));
                        }
                    }
                }
            }
        }
        log
    });
    for k in 0..nk {
        let (mut put, mut out, mut fresh, mut taken) = (BTreeSet::new(), BTreeSet::new(), 0usize, 0usize);
        let all = logs.iter().flatten().filter(|e| e.0 == k);
        let ops = all.clone().count();
        for (_, i, o) in all {
            match (i, o) {
                (Some(_), None) => fresh += 1,
                (None, Some(_)) => taken += 1,
                _ => {}
            }
            put.extend(*i);
            if let Some(o) = o {
                if !out.insert(*o) {
                    fail("P28: a value came out twice", format!("key {k}, value {o}, {nt} threads"));
                }
            }
        }
        let left = h.state().remove(&key(k)).and_then(|v| v.1.as_integer_ref().copied());
        taken += left.is_some() as usize;
        if left.is_some_and(|l| !out.insert(l)) {
            fail("P28: a value came out and is still there", format!("key {k}, value {left:?}, {nt} threads"));
        }
        if put != out {
            let lost: Vec<_> = put.difference(&out).take(5).collect();
            let made: Vec<_> = out.difference(&put).take(5).collect();
            fail("P28: concurrently stored values were lost or made up", format!("key {k}, {nt} threads, {ops} operations: lost {lost:?}, made up {made:?}"));
        }
        if fresh != taken {
            fail("P28: a value replaced nothing although there was one", format!("key {k}, {nt} threads, {ops} operations: {fresh} found the key missing, {taken} made it so"));
        }
        count("values_exchanged", put.len() as u64);
    }
    eval(logs.iter().map(|l| l.len() as u64).sum());
    distinct(&("swaps", nt, nk, inserts_only, logs.iter().map(|l| l.len()).sum::<usize>()));
}

pub fn p28() {
    let c = ctx();
    rule("a case is one history of an engine's state methods interleaved with commands, each result and the whole database compared with one reference model after every step, every value through all its typed views; or one round of threads updating a key through both, or putting in and taking out values that must each come out once; distinct by sequence of operations and types found");
    let mut r = c.rng(28);
    for (v, w) in defaults() {
        check_views(&v, &w, "a default value");
    }
    let h = crate::eng::hop();
    let most = c.scale(700, 3000);
    for n in (0..most).chain([1023, 1024, 1025, 4095, 4096, 4097, 16_384, 32_767, 32_768, 65_534, 65_535, 65_536, 70_000]) {
        p28_size(&h, n, &mut r);
    }
    let mut i = 0u64;
    while !c.over() || get_count("histories") < 200 {
        i += 1;
        describe(format!("P28 round {i}"));
        p28_history(&mut r);
        if i % 10 == 0 {
            p28_concurrent(&mut r);
        }
        if i % 10 == 5 {
            p28_swaps(&mut r);
        }
    }
    if get_count("histories") < 50 || get_count("concurrent_updates") < 100 {
        inconclusive("too few histories");
    }
}

// ---- P29: the server gives back what finished connections used ----------------------------------

#[derive(Clone, Copy, Debug)]
struct Use {
    files: u64,
    threads: u64,
    kb: u64,
}

fn used(s: &Server) -> Use {
    let pid = s.pid();
    let files = std::fs::read_dir(format!("/proc/{pid}/fd")).map(|d| d.count() as u64).unwrap_or(0);
    let st = std::fs::read_to_string(format!("/proc/{pid}/status")).unwrap_or_default();
    let num = |n: &str| st.lines().find_map(|l| l.strip_prefix(n)).and_then(|l| l.split_whitespace().next()?.parse().ok()).unwrap_or(0);
    Use { files, threads: num("Threads:"), kb: num("RssAnon:") }
}

/// Wait until the server has no more open files than this.
fn settle(s: &Server, files: u64, what: &str) -> Use {
    let t = Instant::now();
    loop {
        if let Some(e) = s.ended() {
            fail("P29: the server process ended", format!("{what}: {e}"));
        }
        let u = used(s);
        if u.files <= files {
            return u;
        }
        if t.elapsed() > STUCK {
            fail(
                "P29: the server keeps finished connections open",
                format!("{what}: {} files are open {} s after the last connection ended, {files} were when idle", u.files, STUCK.as_secs()),
            );
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

/// One connection that does something and ends in some way.
fn visit(s: &Server, r: &mut Rng, kind: usize) -> u64 {
    let mut c = s.must("P29");
    let inc = req(INCR, Some(INT), &[b"counter"]).encode();
    let set = |n: usize| req(SET, Some(BYTES), &[b"value".to_vec(), vec![b'v'; n]]).encode();
    let mut n = 0;
    let mut expect = |c: &mut Conn, k: usize| {
        for _ in 0..k {
            match c.recv() {
                Ok(_) => n += 1,
                Err(e) => fail("P29: a reply is missing", format!("visit of kind {kind}: {e:?}; {:?}", s.ended())),
            }
        }
    };
    if kind > 0 && r.chance(1, 4) {
        // Something large before, so that whatever is kept of the connection is large.
        c.send(&set(r.range(20_000, 120_000))).ok();
        expect(&mut c, 1);
    }
    match kind {
        0 => {}
        1 => {
            c.send(&inc).ok();
            expect(&mut c, 1);
        }
        2 => {
            // Many requests in one go.
            let k = r.range(2, 200);
            c.send(&inc.repeat(k)).ok();
            expect(&mut c, k);
        }
        3 => {
            // Ends within a request.
            let b = set(r.range(10, 3000));
            c.send(&b[..r.range(1, b.len() - 1)]).ok();
        }
        4 => {
            c.send(&[0x7f; 40]).ok();
            expect(&mut c, 1);
        }
        5 => {
            // Half-closes and reads to the end.
            c.send(&inc).ok();
            c.half_close();
            expect(&mut c, 1);
            let _ = c.recv();
        }
        6 => {
            c.send(&set(r.range(1, 60_000))).ok();
            expect(&mut c, 1);
        }
        7 => {
            // A dispatch error.
            c.send(&req(GET, Some(INT), &[b"missing"]).encode()).ok();
            expect(&mut c, 1);
        }
        8 => {
            // Doesn't read its replies.
            c.send(&inc.repeat(r.range(1, 500))).ok();
            c.reset();
            return n;
        }
        9 => {
            c.send(&inc).ok();
            c.reset();
            return n;
        }
        10 => {
            // Resets a connection that the server waits on.
            c.send(&inc).ok();
            expect(&mut c, 1);
            c.reset();
            return n;
        }
        11 => {
            // The same within a request.
            let b = set(r.range(10, 3000));
            let k = r.range(1, b.len() - 1);
            c.send(&[inc.clone(), b[..k].to_vec()].concat()).ok();
            expect(&mut c, 1);
            c.reset();
            return n;
        }
        _ => {
            // Resets after a parse error, which the server answers before it waits for the end.
            c.send(&[inc.clone(), vec![0x7f; 3]].concat()).ok();
            expect(&mut c, 2);
            c.reset();
            return n;
        }
    }
    drop(c);
    n
}

const VISITS: usize = 13;

/// Memory that grows in round after round, however many there are, isn't what the allocator keeps for later.
fn creeping(what: &str, per_round: u64, start: u64, mut round: impl FnMut() -> u64) -> u64 {
    let mut was = start;
    let mut grown = vec![];
    while grown.len() < 8 {
        let now = round();
        count("rounds_measured", 1);
        grown.push(now.saturating_sub(was));
        was = now;
        if grown.last().is_some_and(|g| g * 1024 < per_round) {
            return now;
        }
    }
    fail(
        "P29: the server's memory grows with what it has served",
        format!("round after round of {what}, after {start} kB at first, made it grow by {grown:?} kB, at least {} kB each", per_round / 1024),
    )
}

fn p29_rounds(r: &mut Rng) {
    let c = ctx();
    let s = Server::start("resources", Some(300), None);
    let idle = {
        // The connection that Server::start made may still be open.
        std::thread::sleep(Duration::from_millis(300));
        used(&s)
    };
    if idle.files == 0 || idle.kb == 0 {
        inconclusive("the server's resources can't be read");
    }
    let mut replies = 0u64;
    let mut conns = 0u64;
    let mut round = |r: &mut Rng, n: usize, only: Option<usize>| {
        for i in 0..n {
            replies += visit(&s, r, only.unwrap_or(i % VISITS));
            conns += 1;
            // Some at once, but never more than may be open.
            if i % 25 == 24 {
                settle(&s, idle.files + 10, "between connections");
            }
        }
        settle(&s, idle.files, "after a round of connections")
    };
    round(r, c.scale(400, 1000), None);
    let n = c.scale(1500, 8000);
    let first = round(r, n, None);
    let mut last = first;
    last.kb = creeping("connections of all kinds", n as u64 * 200, first.kb, || round(r, n, None).kb);
    // Each kind of visit alone.
    let per = c.scale(500, 1500);
    for kind in 0..VISITS {
        describe(format!("P29 visits of kind {kind}"));
        let was = used(&s).kb;
        last.kb = creeping(&format!("connections of kind {kind}"), per as u64 * 200, was, || round(r, per, Some(kind)).kb);
    }
    // One connection that makes many requests, of varying size.
    let mut one = s.must("P29");
    let stream = |one: &mut Conn, n: usize, r: &mut Rng| {
        let mut left = n;
        while left > 0 {
            let k = left.min(500);
            let mut b = vec![];
            for _ in 0..k {
                match r.below(5) {
                    0 => b.extend(req(INCR, Some(INT), &[b"counter"]).encode()),
                    1 => b.extend(req::<&[u8]>(STATS, None, &[]).encode()),
                    2 => b.extend(req(GET, None, &[b"missing"]).encode()),
                    3 => b.extend(req(ECHO, None, &[vec![b'e'; r.range(1, 400)]]).encode()),
                    _ => b.extend(req(SET, Some(BYTES), &[b"value".to_vec(), vec![b'v'; r.range(1, 400)]]).encode()),
                }
            }
            if let Err(e) = one.send(&b) {
                fail("P29: a long connection broke", format!("{e:?}; {:?}", s.ended()));
            }
            for _ in 0..k {
                if let Err(e) = one.recv() {
                    fail("P29: a long connection broke", format!("{e:?}; {:?}", s.ended()));
                }
            }
            left -= k;
        }
        used(&s)
    };
    let n1 = c.scale(15_000, 100_000);
    let a = stream(&mut one, n1, r);
    let mut streamed = n1;
    let b = creeping("requests on one connection", n1 as u64 * 16, a.kb, || {
        streamed += n1 * 2;
        stream(&mut one, n1 * 2, r).kb
    });
    // The same with reads that never end where a request ends.
    let b2 = req(ECHO, None, &[vec![b't'; r.range(1000, 20_000)]]).encode();
    let (head, tail) = b2.split_at(r.range(1, b2.len() - 1));
    let both = [tail, head].concat();
    let broke = |e: String| -> ! { fail("P29: a long connection broke", format!("{e}; {:?}", s.ended())) };
    one.send(head).ok();
    let mut turned = |k: usize| {
        for _ in 0..k {
            one.send(&both).unwrap_or_else(|e| broke(format!("{e:?}")));
            one.recv().map(|_| ()).unwrap_or_else(|e| broke(format!("{e:?}")));
        }
        used(&s)
    };
    let t1 = turned(100);
    let k2 = c.scale(500, 3_000);
    creeping("requests that are received in parts", k2 as u64 * 64, t1.kb, || {
        count("requests_received_in_parts", k2 as u64);
        turned(k2).kb
    });
    drop(one);
    let end = settle(&s, idle.files, "after a long connection");
    eval(conns + streamed as u64);
    count("connections", conns);
    count("replies", replies);
    count("requests_on_one_connection", streamed as u64);
    maxi("files_open_when_idle", idle.files);
    maxi("memory_kb_after_first_round", first.kb);
    maxi("memory_kb_after_last_round", last.kb);
    if end.threads > idle.threads + 64 || last.threads > first.threads + 16 {
        fail("P29: finished connections leave threads behind", format!("{} threads when idle, {} at the end", idle.threads, end.threads));
    }
    distinct(&("round", idle.files, first.kb / 64, last.kb / 64));
    for k in 0..VISITS {
        distinct(&("visit", k));
    }
    // Large requests are given back too.
    let big = |r: &mut Rng| {
        let mut c = s.must("P29");
        let b = req(ECHO, None, &[vec![b'x'; 8 << 20]]).encode();
        c.send(&b[..b.len() - r.range(1, 100)]).ok();
        drop(c);
        let mut c = s.must("P29");
        c.send(&b).ok();
        if let Err(e) = c.recv() {
            fail("P29: a large reply is missing", format!("{e:?}; {:?}", s.ended()));
        }
    };
    big(r);
    let m1 = settle(&s, idle.files, "after a large request");
    let k = c.scale(4, 10);
    let mut bigs = 1;
    creeping("large requests", (k as u64 * 2) << 20, m1.kb, || {
        for _ in 0..k {
            big(r);
        }
        bigs += k;
        settle(&s, idle.files, "after large requests").kb
    });
    count("large_requests", bigs as u64);
    eval(bigs as u64);
    let end2 = settle(&s, idle.files, "at the end");
    maxi("threads_at_the_end", end2.threads);
    sample(|| format!("idle {idle:?}; after {n} connections {first:?}; after {conns} {last:?}; one connection: {} kB, later {b} kB", a.kb));
}

pub fn p29() {
    let c = ctx();
    rule("a case is one connection that ends in one of thirteen ways (unused, after replies, within a request, after a parse error, half-closed, reset before, within and after a request, replies unread) or one request of a long connection, or one 8 MiB request, with the server's open files, threads and memory read from the kernel when it is idle again; distinct by kind of visit and resources seen");
    let mut r = c.rng(29);
    let mut i = 0;
    loop {
        i += 1;
        describe(format!("P29 round {i}"));
        p29_rounds(&mut r);
        if c.over() {
            break;
        }
    }
    if get_count("connections") < 1000 {
        inconclusive("too few connections");
    }
}

// ---- P30: the server listens where it is told --------------------------------------------------

/// The IPv4 addresses on which a process listens, from the kernel.
fn listening(pid: u32) -> BTreeSet<(u32, u16)> {
    let mut mine = BTreeSet::new();
    if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/fd")) {
        for f in d.flatten() {
            if let Ok(l) = std::fs::read_link(f.path()) {
                if let Some(i) = l.to_string_lossy().strip_prefix("socket:[").and_then(|s| s.strip_suffix(']')) {
                    mine.insert(i.to_owned());
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    for l in std::fs::read_to_string(format!("/proc/{pid}/net/tcp")).unwrap_or_default().lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() > 9 && f[3] == "0A" && mine.contains(f[9]) {
            if let Some((a, p)) = f[1].split_once(':') {
                out.insert((u32::from_str_radix(a, 16).unwrap_or(0).swap_bytes(), u16::from_str_radix(p, 16).unwrap_or(0)));
            }
        }
    }
    out
}

const DEFAULT_PORT: u16 = 46733;

fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map(|a| a.port()).unwrap_or(0)
}

fn port_is_free(p: u16) -> bool {
    std::net::TcpListener::bind(("0.0.0.0", p)).is_ok()
}

struct Kill(std::process::Child);
impl Drop for Kill {
    fn drop(&mut self) {
        self.0.kill().ok();
        self.0.wait().ok();
    }
}

fn spawn(host: Option<&std::ffi::OsStr>, port: Option<&std::ffi::OsStr>) -> Kill {
    let c = ctx();
    let mut cmd = Command::new(&c.server);
    cmd.env_clear().env("LD_PRELOAD", &c.shim).current_dir(&c.out).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(h) = host {
        cmd.env("HOST", h);
    }
    if let Some(p) = port {
        cmd.env("PORT", p);
    }
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    match cmd.spawn() {
        Ok(c) => Kill(c),
        Err(e) => inconclusive(&format!("can't start the server: {e}")),
    }
}

fn works(addr: SocketAddr) -> Result<(), String> {
    let mut s = TcpStream::connect_timeout(&addr, Duration::from_secs(5)).map_err(|e| format!("connecting to {addr}: {e}"))?;
    s.set_read_timeout(Some(STUCK)).ok();
    s.write_all(&req(ECHO, None, &[b"hello"]).encode()).map_err(|e| e.to_string())?;
    let mut got = vec![];
    let mut b = [0; 64];
    loop {
        match s.read(&mut b) {
            Ok(0) => return Err("closed without a reply".into()),
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(e) => return Err(format!("no reply: {e}")),
        }
        match decode_reply(&got) {
            Ok(Some((Reply::Val(MVal::List(l)), _))) if l == [b"hello".to_vec()] => return Ok(()),
            Ok(None) => {}
            x => return Err(format!("another reply: {x:?}")),
        }
    }
}

fn p30_case(r: &mut Rng, host: Option<&[u8]>, want_host: u32, port: Option<Vec<u8>>, want_port: Option<u16>, seen: &mut BTreeSet<u64>) {
    use std::os::unix::ffi::OsStrExt;
    if let Some(p) = want_port {
        if !port_is_free(p) {
            // Something else has it: nothing can be told.
            count("skipped_because_the_port_is_taken", 1);
            return;
        }
    }
    let what = format!(
        "HOST {} PORT {}",
        host.map(hex).unwrap_or_else(|| "unset".into()),
        port.as_deref().map(hex).unwrap_or_else(|| "unset".into())
    );
    let mut k = spawn(host.map(std::ffi::OsStr::from_bytes), port.as_deref().map(std::ffi::OsStr::from_bytes));
    let t = Instant::now();
    let on = loop {
        let l = listening(k.0.id());
        if !l.is_empty() {
            break l;
        }
        if let Ok(Some(s)) = k.0.try_wait() {
            if let Some(p) = want_port {
                if !port_is_free(p) {
                    count("skipped_because_the_port_is_taken", 1);
                    return;
                }
            }
            fail("P30: the server ended instead of listening", format!("{what}: {s}"));
        }
        if t.elapsed() > STUCK {
            fail("P30: the server doesn't listen", what);
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let (a, p) = *on.iter().next().expect("one");
    let port_ok = match want_port {
        Some(w) => p == w,
        None => p != 0,
    };
    if on.len() != 1 || a != want_host || !port_ok {
        fail(
            "P30: the server listens elsewhere than it was told",
            format!(
                "{what}: listens on {:?}, expected {}:{}",
                on.iter().map(|(a, p)| format!("{}:{p}", std::net::Ipv4Addr::from(*a))).collect::<Vec<_>>(),
                std::net::Ipv4Addr::from(want_host),
                want_port.map(|p| p.to_string()).unwrap_or_else(|| "any port".into())
            ),
        );
    }
    let to = if a == 0 { std::net::Ipv4Addr::new(127, 0, 0, r.range(1, 200) as u8) } else { a.into() };
    if let Err(e) = works((to, p).into()) {
        fail("P30: the server doesn't serve where it listens", format!("{what}: {e}"));
    }
    // A second one for the same address has to give up, and leaves the first one be.
    if r.chance(1, 4) {
        let ps = p.to_string();
        let mut second = spawn(host.map(std::ffi::OsStr::from_bytes), Some(std::ffi::OsStr::new(&ps)));
        let t = Instant::now();
        loop {
            match second.0.try_wait() {
                Ok(Some(s)) if s.success() => fail("P30: a server that can't listen reports success", format!("{what}, port taken: {s}")),
                Ok(Some(_)) => break,
                _ => {}
            }
            let l = listening(second.0.id());
            if !l.is_empty() {
                fail("P30: the server listens elsewhere than it was told", format!("{what}, port taken: listens on {l:?}"));
            }
            if t.elapsed() > STUCK {
                fail("P30: a server that can't listen neither gives up nor listens", what);
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        if let Err(e) = works((to, p).into()) {
            fail("P30: a second server broke the first one", format!("{what}: {e}"));
        }
        count("second_servers_refused", 1);
    }
    count("servers_started", 1);
    eval(1);
    seen.insert(hash64(&(host, &port)));
    distinct(&(host, want_port == Some(DEFAULT_PORT), port.as_ref().map(|p| p.len())));
    sample(|| format!("{what}: listens on {}:{p}", std::net::Ipv4Addr::from(a)));
}

pub fn p30() {
    let c = ctx();
    rule("a case is one start of the server with a HOST and a PORT that are unset, valid, or invalid in some way, with the addresses it listens on read from the kernel and a request made there, and sometimes a second server for the same address; distinct by settings");
    let mut r = c.rng(30);
    const ANY: u32 = 0;
    let lo = |d: u8| u32::from(std::net::Ipv4Addr::new(127, 0, 0, d));
    let hosts: Vec<(Option<&[u8]>, u32)> = vec![
        (None, ANY),
        (Some(b"127.0.0.1"), lo(1)),
        (Some(b"127.0.0.2"), lo(2)),
        (Some(b"127.0.0.253"), lo(253)),
        (Some(b"127.1.2.3"), u32::from(std::net::Ipv4Addr::new(127, 1, 2, 3))),
        (Some(b"0.0.0.0"), ANY),
        (Some(b""), ANY),
        (Some(b"localhost"), ANY),
        (Some(b"127.0.0.1:80"), ANY),
        (Some(b" 127.0.0.1"), ANY),
        (Some(b"127.0.0.1 "), ANY),
        (Some(b"127.0.0.256"), ANY),
        (Some(b"127.0.0"), ANY),
        (Some(b"\xff\xfe"), ANY),
    ];
    let bad_ports: Vec<&[u8]> = vec![b"", b"65536", b"99999999999999999999", b"-1", b"abc", b"80 ", b" 80", b"0x50", b"1e3", b"80.0", b"\xff", b"8080\n"];
    let mut seen = BTreeSet::new();
    let mut i = 0usize;
    while !c.over() || i < 40 {
        describe(format!("P30 start {i}"));
        let (h, wh) = hosts[if i < hosts.len() { i } else { r.below(hosts.len()) }];
        match if i < 2 * hosts.len() { i % 2 } else { r.below(10) } {
            0 | 2 | 3 => {
                let p = free_port();
                p30_case(&mut r, h, wh, Some(p.to_string().into_bytes()), Some(p), &mut seen);
            }
            // Any number can be a port, those of known services too.
            8 | 9 => {
                let lim = *r.pick(&[10usize, 100, 1024, 10_000, 65_536]);
                let p = r.range(1, lim - 1) as u16;
                if !port_is_free(p) {
                    count("skipped_because_the_port_is_taken", 1);
                    i += 1;
                    continue;
                }
                if p < 1024 {
                    count("starts_on_low_ports", 1);
                }
                p30_case(&mut r, h, wh, Some(p.to_string().into_bytes()), Some(p), &mut seen);
            }
            4 => p30_case(&mut r, h, wh, Some(b"0".to_vec()), None, &mut seen),
            5 => p30_case(&mut r, h, wh, None, Some(DEFAULT_PORT), &mut seen),
            _ => {
                let p = bad_ports[if i < 2 * hosts.len() { (i / 2) % bad_ports.len() } else { r.below(bad_ports.len()) }];
                p30_case(&mut r, h, wh, Some(p.to_vec()), Some(DEFAULT_PORT), &mut seen);
            }
        }
        i += 1;
        if i > 4000 {
            break;
        }
    }
    assume("P30: addresses are IPv4 addresses of the loopback interface, which is what the sandbox has and what the locked net2 crate can bind");
    if get_count("servers_started") < 20 {
        inconclusive("too few servers started");
    }
}
