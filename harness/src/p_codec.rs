//! P11-P14: the wire formats against an independent codec.
use crate::{alloc, common::*, eng::*, gen, rng::Rng, wire::*};
use hop_engine::{
    command::{
        request::{Context as ReqContext, ParseError as ReqParse, Request, RequestBuilder, RequestBuilderError as BErr},
        response::{Context as RepContext, Instruction, ParseError as RepParse, Response},
    },
    state::Value,
};
use std::{fmt::Write as _, ops::{Bound, RangeBounds}};

/// Everything a request says, through its accessors.
fn view(q: &Request) -> Req {
    Req {
        cmd: q.command_id() as u8,
        kt: q.key_type().map(kty_no),
        args: (0..q.arg_count()).map(|i| q.arg(i).map_or(b"<no such argument>".to_vec(), |a| a.to_vec())).collect(),
    }
}

/// Is every accessor of the request consistent with what it should hold?
fn audit(q: &Request, want: &Req, r: &mut Rng) -> Result<(), String> {
    let got = view(q);
    if got != *want {
        return Err(format!("holds {got:?} instead of {want:?}"));
    }
    let n = want.args.len();
    if q.arg_count() != n {
        return Err(format!("argument count {} instead of {n}", q.arg_count()));
    }
    for i in [n, n + 1, 255, 256, 300] {
        if i >= n && q.arg(i).is_some() {
            return Err(format!("argument {i} of {n} exists"));
        }
    }
    let bytes = want.encode();
    if q.as_bytes() != &bytes[..] {
        return Err(format!("bytes {} instead of {}", hex(q.as_bytes()), hex(&bytes)));
    }
    let key = if matches!(want.cmd, ECHO | STATS) { None } else { want.args.first().map(|x| &x[..]) };
    if q.key() != key {
        return Err(format!("key {:?} instead of {key:?}", q.key()));
    }
    if let Some(a) = want.args.first() {
        if q.typed_arg::<&[u8]>(0) != Some(&a[..]) {
            return Err("typed_arg differs from arg".into());
        }
    }
    for _ in 0..2 {
        let a = r.below(n + 3);
        let b = r.below(n + 3);
        let (lo, hi) = (a.min(b), a.max(b));
        let full: Vec<&[u8]> = want.args.iter().map(|x| &x[..]).collect();
        // Bounds of any kind, as far out as they go.
        let far = if r.chance(1, 8) { usize::MAX - r.below(2) } else { hi };
        let ends = [Bound::Included(far), Bound::Excluded(far), Bound::Unbounded];
        for start in [Bound::Included(lo), Bound::Excluded(lo), Bound::Unbounded] {
            for end in ends {
                let inside = |i: &usize| (start, end).contains(i);
                let want: Vec<&[u8]> = (0..full.len()).filter(inside).map(|i| full[i]).collect();
                let got: Vec<&[u8]> = q.args((start, end)).map(|a| a.collect()).unwrap_or_default();
                let len = q.args((start, end)).map_or(0, |a| a.len());
                if got != want || len != want.len() {
                    return Err(format!("arguments {start:?} to {end:?} of {n}: {} items of length {len} instead of {}", got.len(), want.len()));
                }
            }
        }
        let cases: [(&str, Option<Vec<&[u8]>>, Option<usize>, Vec<&[u8]>); 4] = [
            ("..", q.args(..).map(|a| a.collect()), q.args(..).map(|a| a.len()), full.clone()),
            ("lo..", q.args(lo..).map(|a| a.collect()), q.args(lo..).map(|a| a.len()), full.iter().skip(lo).copied().collect()),
            ("lo..hi", q.args(lo..hi).map(|a| a.collect()), q.args(lo..hi).map(|a| a.len()), full.iter().take(hi).skip(lo).copied().collect()),
            ("..=hi", q.args(..=hi).map(|a| a.collect()), q.args(..=hi).map(|a| a.len()), full.iter().take(hi + 1).copied().collect()),
        ];
        for (w, got, len, want) in cases {
            let got = got.unwrap_or_default();
            if got != want || len.unwrap_or(0) != want.len() {
                return Err(format!("arguments {w} (lo {lo}, hi {hi}) of {n}: {} items of length {len:?} instead of {}", got.len(), want.len()));
            }
        }
    }
    Ok(())
}

/// A request made of builder calls, and what it should be.
pub fn built_req(r: &mut Rng, big: bool) -> (Req, Request<'static>) {
    loop {
        let cmd = *r.pick(&ALL);
        let kt = if r.chance(1, 2) { None } else { Some(r.below(8) as u8) };
        let mut b = if kt.is_none() && r.chance(1, 2) { RequestBuilder::new(cid(cmd)) } else { RequestBuilder::new_with_key_type(cid(cmd), kt.map(kty)) };
        let mut want = Req { cmd, kt, args: vec![] };
        let n = if cmd == STATS {
            0
        } else {
            match r.below(10) {
                0 => 0,
                1 => 255,
                2 => *r.pick(&[253, 254, 127, 128, 129]),
                3 => r.below(256),
                _ => r.range(1, 5),
            }
        };
        let mut ok = true;
        while want.args.len() < n && ok {
            let left = n - want.args.len();
            if r.chance(1, 4) {
                let t = r.below(8) as u8;
                let mut v = gen::value(r, t, big && n < 10);
                if v.to_args().len() > left || v.to_args().iter().any(|a| a.is_empty()) {
                    v = MVal::Int(gen::int(r));
                }
                ok &= b.value(to_value(&v)).is_ok();
                match &v {
                    // Maps and sets come in the order of their own iteration.
                    MVal::Map(_) | MVal::Set(_) => {
                        let q = b.clone().into_request();
                        let have = view(&q);
                        let mut tail: Vec<Vec<u8>> = have.args.get(want.args.len()..).unwrap_or(&[]).to_vec();
                        let order = tail.clone();
                        let mut exp = v.to_args();
                        if v.kind() == MAP {
                            let mut p: Vec<&[Vec<u8>]> = tail.chunks(2).collect();
                            p.sort();
                            tail = p.concat();
                        } else {
                            tail.sort();
                            exp.sort();
                        }
                        if tail == exp {
                            want.args.extend(order);
                        } else {
                            want.args.extend(exp);
                        }
                    }
                    v => want.args.extend(v.to_args()),
                }
            } else {
                let l = if n > 20 { r.range(1, 20) } else { gen::len(r, big) };
                let x = gen::blob(r, l);
                ok &= b.bytes(x.clone()).is_ok();
                want.args.push(x);
            }
        }
        if ok {
            return (want, b.into_request());
        }
        fail("the builder refused valid arguments", format!("{want:?}"));
    }
}

fn cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    // Lengths of the buffer at each feed, ending with n.
    let mut v: Vec<usize> = match r.below(6) {
        0 => (0..=n).collect(),
        1 => vec![n.saturating_sub(1), n],
        2 => vec![r.below(n + 1), n],
        3 => {
            let step = r.range(1, 9);
            (0..n).step_by(step).chain([n]).collect()
        }
        4 => (0..n.min(24)).chain([n]).collect(),
        _ => {
            let mut v: Vec<usize> = (0..r.below(12)).map(|_| r.below(n + 1)).collect();
            v.push(n);
            v.sort();
            v
        }
    };
    if v.len() > 3000 {
        v = v.split_off(v.len() - 3000);
    }
    if r.chance(1, 4) {
        // A read that brought nothing new.
        let x = v[r.below(v.len())];
        if x < n {
            v.push(x);
        }
    }
    v.sort();
    v
}

/// A request with one argument of `n` bytes that came in these reads: no byte of it may be lost.
fn huge_request(r: &mut Rng, n: usize, at: usize, builder: bool) {
    describe(format!("a request whose argument {at} has {n} bytes"));
    let mut x = vec![0u8; n];
    for i in (0..n).step_by(4093) {
        x[i] = r.next() as u8;
    }
    x[n - 1] = 0xa5;
    let small = b"abc".to_vec();
    let args: Vec<&[u8]> = (0..3).map(|i| if i == at { &x[..] } else { &small[..] }).collect();
    let mut enc = vec![APPEND | 0x80, LIST, 3];
    for a in &args {
        enc.extend((a.len() as u32).to_be_bytes());
        enc.extend_from_slice(a);
    }
    let w = |e: &str| format!("argument {at} of {n} bytes: {e}");
    let check = |q: &Request| -> Result<(), String> {
        if q.arg_count() != 3 || q.as_bytes() != &enc[..] || q.command_id() as u8 != APPEND || q.key_type().map(kty_no) != Some(LIST) {
            return Err(format!("{} arguments, {} of {} bytes", q.arg_count(), q.as_bytes().len(), enc.len()));
        }
        for (i, a) in args.iter().enumerate() {
            if q.arg(i) != Some(*a) {
                return Err(format!("argument {i} has {:?} bytes instead of {}", q.arg(i).map(|x| x.len()), a.len()));
            }
        }
        let mut it = q.args(..).ok_or("no arguments")?;
        for a in &args {
            if it.next() != Some(*a) {
                return Err("iterating over the arguments yields others".into());
            }
        }
        Ok(())
    };
    if builder {
        let mut b = RequestBuilder::new_with_key_type(cid(APPEND), kty(LIST));
        for a in &args {
            if !matches!(cut(|| b.bytes(*a).is_ok()), Ok(true)) {
                fail("the builder refused an argument that fits", w(""));
            }
        }
        if let Err(e) = check(&b.into_request()) {
            fail("a built request doesn't hold its arguments", w(&e));
        }
        eval(1);
        distinct(&("huge built", n, at));
        return;
    }
    let mut cx = ReqContext::new();
    let end = enc.len();
    let mut cs = vec![0, 1, 6, 10, 11, 14, 15, 18, end / 3, end / 2, end - small.len() - 5, end - 1];
    cs.extend((0..3).map(|_| r.below(end)));
    cs.sort_unstable();
    for &k in &cs {
        match cut(|| cx.feed(&enc[..k]).map(|o| o.is_some())) {
            Ok(Ok(false)) => {}
            other => fail("P11: a huge request was judged before its last byte", w(&format!("{other:?} at {k} of {end} bytes"))),
        }
    }
    match cut(|| cx.feed(&enc).map(|o| o.map(|q| check(&q)))) {
        Ok(Ok(Some(Ok(())))) => {}
        other => fail("P11: a huge request was decoded wrong", w(&format!("{other:?}"))),
    }
    eval(1);
    count("reads", cs.len() as u64 + 1);
    distinct(&("huge", n, at));
}

/// Sizes around where a byte of a length field starts to matter.
fn huge_sizes() -> Vec<usize> {
    let mut v = vec![(1 << 24) - 1, 1 << 24, (1 << 24) + 300, (1 << 25) + 70_001];
    if ctx().thorough {
        v.extend([(1 << 28) + 9, (1 << 31) - 1, (1 << 31) + 5]);
    }
    v
}

pub fn p11() {
    let c = ctx();
    for (i, n) in huge_sizes().into_iter().enumerate() {
        huge_request(&mut c.rng(11_900 + i as u64), n, i % 3, false);
        count("huge_requests", 1);
    }
    // Wear: one decoder for more than 2^16 requests.
    let mut worn = ReqContext::new();
    for i in 0..c.scale(67_000, 300_000) as u32 {
        let want = match i % 3 {
            0 => Req { cmd: STATS, kt: None, args: vec![] },
            1 => req(ECHO, Some(STR), &[&i.to_be_bytes()]),
            _ => req(GET, None, &[&i.to_be_bytes()[1..]]),
        };
        let bytes = want.encode();
        let cut_at = i as usize % bytes.len();
        let got = cut(|| {
            let early = worn.feed(&bytes[..cut_at]).map(|o| o.is_some());
            (early, worn.feed(&bytes).map(|o| o.map(|q| view(&q))))
        });
        match got {
            Ok((Ok(false), Ok(Some(q)))) if q == want => {}
            other => fail("P11: a decoder wears out", format!("request {i} of one decoder: {other:?} instead of {want:?}")),
        }
    }
    eval(1);
    count("requests_through_one_decoder", 67_000);
    rule("a case is one request in one segmentation, or one pipeline; distinct by (command, stated type, argument count, argument lengths, number of reads, sizes of first and last read, bytes following)");
    let mut i = 0u64;
    let mut ctx_kept = ReqContext::new();
    while !c.over() || i < 100 {
        i += 1;
        let mut r = c.rng(11_000 + i);
        let big = r.chance(1, 8);
        let (want, q) = built_req(&mut r, big);
        describe(format!("{want:?}"));
        let bytes = q.as_bytes().to_vec();
        if let Err(e) = cut(|| audit(&q, &want, &mut Rng::new(1, i))).and_then(|x| x) {
            // What the builder makes is P14's business; here it only has to be a request.
            if view(&q) != want {
                fail("P11: the built request doesn't hold its arguments", format!("{want:?}: {e}"));
            }
        }
        let shape = (want.cmd, want.kt, want.args.len(), want.args.iter().take(3).map(|a| a.len().min(600)).collect::<Vec<_>>());
        // One request, any segmentation, optionally followed by other bytes.
        for rep in 0..4 {
            let tail = match r.below(3) {
                0 => vec![],
                1 => {
                    let n = r.range(1, 40);
                    gen::blob(&mut r, n)
                }
                _ => built_req(&mut r, false).1.into_bytes().into_owned(),
            };
            let mut all = bytes.clone();
            all.extend_from_slice(&tail);
            let cs = if rep == 0 && bytes.len() < 200 { (0..=bytes.len()).collect() } else { cuts(&mut r, bytes.len()) };
            let mut fresh = ReqContext::new();
            let cx = if rep % 2 == 0 { &mut fresh } else { &mut ctx_kept };
            let w = |e: &str| format!("{want:?}\nbytes {}\nreads ending at {cs:?}, followed by {} more bytes\n{e}", hex(&bytes), tail.len());
            for (j, &n) in cs.iter().enumerate() {
                let last = n == bytes.len();
                let buf = if last { &all[..] } else { &all[..n] };
                let res = cut(|| cx.feed(buf).map(|o| o.map(|q| (view(&q), q.as_bytes().to_vec(), audit(&q, &want, &mut r)))));
                match res {
                    Err(e) => fail("P11: decoding a valid request panicked", w(&e)),
                    Ok(Err(e)) => fail("P11: a valid request was rejected", w(&format!("{e:?} at read {j} ({n} bytes)"))),
                    Ok(Ok(None)) if last => fail("P11: a complete request wasn't recognised", w("")),
                    Ok(Ok(None)) => {}
                    Ok(Ok(Some((got, _, _)))) if !last => fail("P11: a request was reported before its last byte", w(&format!("{got:?} at {n} bytes"))),
                    Ok(Ok(Some((got, b, a)))) => {
                        if got != want || b != bytes {
                            fail("P11: the decoded request differs from the one sent", w(&format!("{got:?}, took {} of {} bytes", b.len(), bytes.len())));
                        }
                        if let Err(e) = a {
                            fail("P11: the decoded request is inconsistent", w(&e));
                        }
                    }
                }
            }
            eval(1);
            count("reads", cs.len() as u64);
            distinct(&(&shape, cs.len(), cs[0], cs.get(cs.len().wrapping_sub(2)), tail.len().min(64)));
        }
        sample(|| format!("{want:?} as {}", hex(&bytes)));
        // A pipeline through one decoder, in arbitrary reads.
        if i % 3 == 0 {
            let m = r.range(2, 40);
            let reqs: Vec<(Req, Vec<u8>)> = (0..m)
                .map(|_| {
                    let (w, q) = built_req(&mut r, false);
                    let b = w.encode();
                    let own = q.as_bytes().to_vec();
                    if own != b {
                        fail("P11: a request's bytes aren't its encoding", format!("{w:?}: {}", hex(&own)));
                    }
                    (w, b)
                })
                .collect();
            let stream: Vec<u8> = reqs.iter().flat_map(|x| x.1.clone()).collect();
            let mut buf: Vec<u8> = vec![];
            let mut sent = 0;
            let mut got = vec![];
            let mut cx = ReqContext::new();
            let max = *r.pick(&[1usize, 3, 17, 200, 5000, 1 << 20]);
            let max = if stream.len() > 20_000 { max.max(200) } else { max };
            let mut reads = 0u64;
            while sent < stream.len() {
                let n = r.range(1, max).min(stream.len() - sent);
                buf.extend_from_slice(&stream[sent..sent + n]);
                sent += n;
                reads += 1;
                loop {
                    let res = cut(|| cx.feed(&buf).map(|o| o.map(|q| (view(&q), q.as_bytes().len()))));
                    match res {
                        Ok(Ok(Some((q, n)))) => {
                            if got.len() >= reqs.len() || q != reqs[got.len()].0 || n != reqs[got.len()].1.len() {
                                fail("P11: a pipelined request was decoded wrong", format!("request {} of {m}: {q:?} ({n} bytes), expected {:?}; reads of up to {max}", got.len(), reqs.get(got.len())));
                            }
                            buf.drain(..n);
                            got.push(q);
                        }
                        Ok(Ok(None)) => break,
                        other => fail("P11: decoding a pipeline failed", format!("{other:?} after {} of {m}; reads of up to {max}", got.len())),
                    }
                }
            }
            if got.len() != reqs.len() || !buf.is_empty() {
                fail("P11: a pipeline lost requests", format!("{} of {m}, {} bytes left", got.len(), buf.len()));
            }
            eval(1);
            count("pipelines", 1);
            count("pipelined_requests", m as u64);
            count("reads", reads);
            distinct(&("pipe", m, max, hash64(&stream)));
        }
    }
    count("requests", i);
}

// ---- P12 ------------------------------------------------------------------------------------

fn reply_view(r: &Response) -> Reply {
    match r {
        Response::Value(v) => Reply::Val(mval(v)),
        Response::DispatchError(e) => Reply::Err(derr(*e)),
        Response::ParseError(e) => Reply::Parse(*e as u8),
    }
}

/// Decode `bytes` (one reply) in these reads; checks what the decoder asks for.
fn decode_in(cx: &mut RepContext, bytes: &[u8], cs: &[usize], tail: &[u8]) -> Result<Reply, String> {
    let mut all = bytes.to_vec();
    all.extend_from_slice(tail);
    for &n in cs {
        let last = n == bytes.len();
        let buf = if last { &all[..] } else { &all[..n] };
        match cut(|| cx.feed(buf).map(|i| match i {
            Instruction::Concluded(r) => Ok(reply_view(&r)),
            Instruction::ReadBytes(k) => Err(k),
        })) {
            Err(e) => return Err(format!("panicked at {n} of {} bytes: {e}", bytes.len())),
            Ok(Err(e)) => return Err(format!("rejected with {e:?} at {n} of {} bytes", bytes.len())),
            Ok(Ok(Ok(r))) if last => return Ok(r),
            Ok(Ok(Ok(r))) => return Err(format!("concluded {} at {n} of {} bytes", crate::model::show_reply(&r), bytes.len())),
            Ok(Ok(Err(k))) => {
                if last {
                    return Err(format!("asked for {k} more bytes of a complete reply of {} bytes", bytes.len()));
                }
                if k == 0 || k > bytes.len() - n {
                    return Err(format!("asked for {k} bytes at {n} of {}", bytes.len()));
                }
            }
        }
    }
    Err("no read".into())
}

/// A reader that obeys the decoder: returns the replies and how much it consumed of each.
fn obey(stream: &[u8], r: &mut Rng) -> Result<Vec<(Reply, usize)>, String> {
    let mut out = vec![];
    let mut pos = 0;
    let mut cx = RepContext::new();
    while pos < stream.len() {
        let start = pos;
        let mut steps = 0;
        loop {
            let res = cut(|| cx.feed(&stream[start..pos]).map(|i| match i {
                Instruction::Concluded(r) => Ok(reply_view(&r)),
                Instruction::ReadBytes(k) => Err(k),
            }));
            match res {
                Ok(Ok(Ok(rep))) => {
                    out.push((rep, pos - start));
                    break;
                }
                Ok(Ok(Err(k))) => {
                    if k == 0 || pos + k > stream.len() {
                        return Err(format!("reply {}: asked for {k} bytes after {} with {} left", out.len(), pos - start, stream.len() - pos));
                    }
                    // The network may deliver less than was asked for.
                    pos += if r.chance(1, 3) { r.range(1, k) } else { k };
                }
                other => return Err(format!("reply {}: {other:?} after {} bytes", out.len(), pos - start)),
            }
            steps += 1;
            if steps > 200_000 {
                return Err("never concluded".into());
            }
        }
    }
    Ok(out)
}

fn any_reply(r: &mut Rng, big: bool) -> Reply {
    match r.below(12) {
        0 => Reply::Err(r.below(8) as u8),
        1 => Reply::Parse(r.below(2) as u8),
        2 => Reply::Val(match r.below(5) {
            0 => MVal::Bytes(vec![]),
            1 => MVal::Str(vec![]),
            2 => MVal::List(vec![]),
            3 => MVal::Map(Default::default()),
            _ => MVal::Set(Default::default()),
        }),
        3 => {
            // With empty members.
            let mut v = { let t = *r.pick(&[LIST, MAP, SETT]); gen::value(r, t, false) };
            match &mut v {
                MVal::List(l) => {
                    let i = r.below(l.len() + 1);
                    l.insert(i, vec![]);
                }
                MVal::Map(m) => {
                    let x = gen::blob(r, 3);
                    m.insert(vec![], x);
                    m.insert(b"e".to_vec(), vec![]);
                }
                MVal::Set(s) => {
                    s.insert(vec![]);
                }
                _ => {}
            }
            Reply::Val(v)
        }
        _ => {
            let t = r.below(8) as u8;
            Reply::Val(gen::value(r, t, big))
        }
    }
}

fn to_response(r: &Reply) -> Response {
    use std::convert::TryFrom;
    match r {
        Reply::Val(v) => Response::Value(to_value(v)),
        Reply::Err(e) => Response::from(hop_engine::command::DispatchError::try_from(*e).expect("known")),
        Reply::Parse(e) => Response::from(ReqParse::try_from(*e).expect("known")),
    }
}

fn judge_reply(want: &Reply, bytes: &[u8], r: &mut Rng, kept: &mut RepContext, reps: usize) {
    let w = |e: &str| format!("{}\nbytes {}\n{e}", crate::model::show_reply(want), hex(bytes));
    match decode_reply(bytes) {
        Ok(Some((got, n))) if n == bytes.len() && got == *want => {}
        other => fail("P12: a reply's bytes don't say what the reply is", w(&format!("{other:?}"))),
    }
    for rep in 0..reps {
        let cs: Vec<usize> = if rep == 0 && bytes.len() < 200 { (0..=bytes.len()).collect() } else { cuts(r, bytes.len()) };
        let tail = if r.chance(1, 3) { r.bytes(9) } else { vec![] };
        let mut fresh = RepContext::new();
        let cx = if rep % 2 == 0 { &mut fresh } else { &mut *kept };
        match decode_in(cx, bytes, &cs, &tail) {
            Ok(got) if got == *want => {}
            Ok(got) => fail("P12: a reply was decoded to another one", w(&format!("{} with reads ending at {cs:?}", crate::model::show_reply(&got)))),
            Err(e) => fail("P12: a reply can't be decoded, or the decoder asks for the wrong bytes", w(&format!("{e}; reads ending at {cs:?}"))),
        }
        eval(1);
        count("reads", cs.len() as u64);
        let shape = match want {
            Reply::Val(v) => (v.kind(), v.to_args().len(), bytes.len()),
            Reply::Err(e) => (100, *e as usize, 0),
            Reply::Parse(e) => (101, *e as usize, 0),
        };
        distinct(&(shape, cs.len(), cs[0], cs.get(cs.len().wrapping_sub(2))));
    }
}

pub fn p12() {
    let c = ctx();
    rule("a case is one reply in one segmentation, or one stream read by an obedient reader; distinct by (type, number of elements, length, number of reads, first and last but one read)");
    let mut kept = RepContext::new();
    let mut r = c.rng(12);
    // Directed: every error, and values at the limits of the format.
    let mut limits: Vec<Reply> = (0..8).map(Reply::Err).chain((0..2).map(Reply::Parse)).collect();
    limits.push(Reply::Val(MVal::List((0..65535u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect())));
    limits.push(Reply::Val(MVal::List(vec![vec![]; 65535])));
    limits.push(Reply::Val(MVal::Set((0..65535u32).map(|i| i.to_be_bytes()[2..].to_vec()).collect())));
    limits.push(Reply::Val(MVal::Map((0..65535u32).map(|i| (i.to_be_bytes()[2..].to_vec(), vec![i as u8])).collect())));
    limits.push(Reply::Val(MVal::Map([(vec![b'k'; 255], vec![b'v'; 70_000]), (vec![b'l'; 128], vec![]), (vec![], b"x".to_vec())].into())));
    limits.push(Reply::Val(MVal::Set([vec![b'k'; 65535], vec![b'l'; 32768], vec![1; 256], vec![2; 255]].into())));
    limits.push(Reply::Val(MVal::List(vec![vec![0; 65536], vec![0; 256], vec![1; 16_777_216]])));
    limits.push(Reply::Val(MVal::Bytes(vec![9; 16_777_300])));
    limits.push(Reply::Val(MVal::Map([(b"k".to_vec(), vec![3; 16_777_217]), (b"l".to_vec(), vec![])].into())));
    limits.push(Reply::Val(MVal::Str("é".repeat(8_400_000).into_bytes())));
    for n in [255usize, 256, 257, 511, 512, 65535, 65536, 65537] {
        limits.push(Reply::Val(MVal::Bytes(gen::blob(&mut r, n))));
        limits.push(Reply::Val(MVal::List(vec![gen::blob(&mut r, n); 3])));
        if n < 60000 {
            limits.push(Reply::Val(MVal::List((0..n).map(|i| vec![i as u8; i % 3]).collect())));
            limits.push(Reply::Val(MVal::Set((0..n).map(|i| i.to_string().into_bytes()).collect())));
            limits.push(Reply::Val(MVal::Map((0..n).map(|i| (i.to_string().into_bytes(), vec![0; i % 5])).collect())));
        }
    }
    for f in gen::floats() {
        limits.push(Reply::Val(MVal::f(f)));
    }
    for i in gen::INTS {
        limits.push(Reply::Val(MVal::Int(*i)));
    }
    for want in &limits {
        describe(crate::model::show_reply(want));
        let bytes = match cut(|| to_response(want).as_bytes()) {
            Ok(b) => b,
            Err(e) => fail("P12: writing a reply panicked", format!("{}: {e}", crate::model::show_reply(want))),
        };
        let reps = if bytes.len() > 100_000 { 2 } else { 6 };
        if bytes.len() > 100_000 {
            // Few reads: each looks at the whole buffer again.
            match decode_in(&mut RepContext::new(), &bytes, &[0, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, bytes.len() / 2, bytes.len() - 1, bytes.len()], &[]) {
                Ok(g) if g == *want => eval(1),
                other => fail("P12: a large reply was decoded wrong", format!("{}\n{other:?}", crate::model::show_reply(want))),
            }
        } else {
            judge_reply(want, &bytes, &mut r, &mut kept, reps);
        }
    }
    count("directed_replies", limits.len() as u64);
    // Wear: one decoder for more than 2^16 replies.
    let mut worn = RepContext::new();
    for i in 0..c.scale(67_000, 300_000) as i64 {
        let want = match i % 4 {
            0 => Reply::Val(MVal::Int(i)),
            1 => Reply::Err((i % 8) as u8),
            2 => Reply::Val(MVal::List(vec![i.to_be_bytes().to_vec()])),
            _ => Reply::Val(MVal::Str(i.to_string().into_bytes())),
        };
        let bytes = encode_reply(&want);
        match cut(|| decode_in(&mut worn, &bytes, &[i as usize % bytes.len(), bytes.len()], &[])).and_then(|x| x) {
            Ok(g) if g == want => {}
            other => fail("P12: a decoder wears out", format!("reply {i} of one decoder: {other:?} instead of {want:?}")),
        }
    }
    eval(1);
    count("replies_through_one_decoder", 67_000);
    let mut i = 0u64;
    while !c.over() || i < 100 {
        i += 1;
        let mut r = c.rng(12_000 + i);
        let big = r.chance(1, 6);
        let want = any_reply(&mut r, big);
        describe(crate::model::show_reply(&want));
        // Appended to whatever the buffer holds.
        let pre = if r.chance(1, 2) { r.bytes(5) } else { vec![] };
        let mut buf = pre.clone();
        if let Err(e) = cut(|| to_response(&want).copy_to(&mut buf)) {
            fail("P12: writing a reply panicked", format!("{}: {e}", crate::model::show_reply(&want)));
        }
        if !buf.starts_with(&pre) {
            fail("P12: writing a reply changed what the buffer held", format!("{}: {}", crate::model::show_reply(&want), hex(&buf)));
        }
        let bytes = buf[pre.len()..].to_vec();
        judge_reply(&want, &bytes, &mut r, &mut kept, 3);
        sample(|| format!("{} as {}", crate::model::show_reply(&want), hex(&bytes)));
        // A stream of replies that the engine wrote, read by an obedient reader.
        if i % 4 == 0 {
            let hop = crate::eng::hop();
            let keys = gen::keys(&mut r, 4);
            let mut stream = vec![];
            let mut want: Vec<Reply> = vec![];
            for _ in 0..r.range(2, 30) {
                let d = crate::eng::dump(&hop);
                let q = gen::any_req(&mut r, &keys, &|k| d.get(k).map(|v| v.kind()), false);
                let Ok(raw) = dispatch(&hop, &q, &[], Via::Builder) else { continue };
                let b = match raw.res {
                    Ok(()) => raw.buf,
                    Err(e) => to_response(&Reply::Err(e)).as_bytes(),
                };
                match decode_reply(&b) {
                    Ok(Some((rep, n))) if n == b.len() => want.push(rep),
                    other => fail("P12: the engine wrote something that isn't one reply", format!("{q:?}: {} {other:?}", hex(&b))),
                }
                stream.extend(b);
            }
            match obey(&stream, &mut r) {
                Ok(got) => {
                    let g: Vec<Reply> = got.iter().map(|x| x.0.clone()).collect();
                    let lens: Vec<usize> = want.iter().map(|x| encode_reply(x).len()).collect();
                    if g != want || got.iter().map(|x| x.1).ne(lens.iter().copied()) {
                        fail("P12: a reader that obeys the decoder got other replies", format!("expected {want:?}\ngot {got:?}"));
                    }
                }
                Err(e) => fail("P12: a reader that obeys the decoder can't read a stream of replies", format!("{e}\n{want:?}")),
            }
            eval(1);
            count("streams", 1);
            count("streamed_replies", want.len() as u64);
            distinct(&("stream", hash64(&stream)));
        }
    }
    count("random_replies", i);
}

// ---- P13 ------------------------------------------------------------------------------------

fn hostile_request(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        1 => {
            // Any first two bytes.
            let n = r.below(20);
            let mut b = vec![r.next() as u8, *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 255])];
            b.extend(r.bytes(n));
            b
        }
        2 => {
            // A huge length.
            let mut b = vec![*r.pick(&ALL), *r.pick(&[1, 2, 255])];
            b.extend(r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 30, 0x00ff_ffff, 65536]).to_be_bytes());
            let n = r.below(30);
            b.extend(r.bytes(n));
            b
        }
        3 => {
            // Empty arguments: all, most, the first, the last or one of any number.
            let n = if r.chance(1, 2) { *r.pick(&[1usize, 2, 3, 127, 128, 254, 255]) } else { r.below(256) };
            let mut b = vec![*r.pick(&ALL), n as u8];
            if r.chance(1, 2) {
                b = vec![*r.pick(&ALL) | 0x80, r.below(8) as u8, n as u8];
            }
            let (kind, at) = (r.below(5), r.below(n.max(1)));
            for i in 0..n {
                let empty = match kind {
                    0 => true,
                    1 => r.chance(9, 10),
                    2 => i == 0,
                    3 => i + 1 == n,
                    _ => i == at,
                };
                b.extend(if empty { &[0, 0, 0, 0][..] } else { &[0, 0, 0, 1, b'x'] });
            }
            b
        }
        _ => {
            // A valid request, damaged.
            let (w, _) = built_req(r, false);
            let mut b = w.encode();
            let head = b.len().min(600);
            b.truncate(5000);
            for _ in 0..r.below(3) {
                let i = if r.chance(1, 2) { r.below(head.min(12)) } else { r.below(b.len()) };
                b[i] = *r.pick(&[0, 1, 2, 8, 0x7f, 0x80, 0xff, b'\n']);
            }
            if r.chance(1, 3) {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            b
        }
    }
}

fn hostile_reply(r: &mut Rng) -> Vec<u8> {
    let msg = |p: &[u8]| {
        let mut b = (p.len() as u32).to_be_bytes().to_vec();
        b.extend_from_slice(p);
        b
    };
    match r.below(12) {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        1 => {
            let mut p = vec![r.next() as u8];
            let n = r.below(30);
            p.extend(r.bytes(n));
            msg(&p)
        }
        2 => {
            // Unknown error codes.
            let p = [*r.pick(&[R_PARSE, R_DISPATCH]), r.next() as u8];
            msg(&p)
        }
        3 => {
            let t = gen::bad_text(r);
            let mut p = vec![R_STR];
            p.extend((t.len() as u32).to_be_bytes());
            p.extend(&t);
            msg(&p)
        }
        4 => {
            // Claims of many elements in a small message.
            let mut p = vec![*r.pick(&[R_LIST, R_MAP, R_SET])];
            p.extend(r.pick(&[65535u16, 65534, 40000, 1000]).to_be_bytes());
            let n = r.below(40);
            if r.chance(1, 2) {
                p.extend(vec![0; n]);
            } else {
                p.extend(r.bytes(n));
            }
            msg(&p)
        }
        5 => {
            // Claims of a long element.
            let t = *r.pick(&[R_BYTES, R_STR, R_LIST, R_MAP, R_SET]);
            let mut p = vec![t];
            if t == R_LIST || t == R_MAP || t == R_SET {
                p.extend(1u16.to_be_bytes());
            }
            if t == R_MAP {
                p.extend([1, b'k']);
            }
            p.extend(r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 30, 0x00ff_ffff]).to_be_bytes());
            let n = r.below(20);
            p.extend(r.bytes(n));
            msg(&p)
        }
        6 => {
            // A huge message.
            let mut b = r.pick(&[u32::MAX, u32::MAX - 4, 1 << 31, 1 << 30]).to_be_bytes().to_vec();
            let n = r.below(30);
            b.push(r.below(10) as u8);
            b.extend(r.bytes(n));
            b
        }
        7 => msg(&[]),
        _ => {
            let rep = any_reply(r, false);
            let mut b = encode_reply(&rep);
            b.truncate(5000);
            for _ in 0..r.below(3) {
                let i = if r.chance(1, 2) { r.below(b.len().min(12)) } else { r.below(b.len()) };
                b[i] = *r.pick(&[0, 1, 2, 8, 10, 0x7f, 0x80, 0xff]);
            }
            if r.chance(1, 2) {
                // Keep the message length right, so that the payload is what's wrong.
                let n = b.len().max(4) - 4;
                b[..4].copy_from_slice(&(n as u32).to_be_bytes());
            }
            b
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
enum RV {
    More,
    Req(Req, usize),
    Err(ReqErr),
}

/// What a fault of a complete message has to be reported as, if it is one that has its own error.
#[derive(Debug, PartialEq)]
enum Want {
    Reply(Reply),
    Type,
    Dispatch,
    Parse,
    Text,
    Any,
}

fn want_reply(b: &[u8]) -> Want {
    match decode_reply(b) {
        Ok(Some((rep @ Reply::Val(_), _))) => return Want::Reply(rep),
        Ok(Some((Reply::Err(e), _))) => return if e < 8 { Want::Reply(Reply::Err(e)) } else { Want::Dispatch },
        Ok(Some((Reply::Parse(e), _))) => return if e < 2 { Want::Reply(Reply::Parse(e)) } else { Want::Parse },
        Ok(None) => return Want::Any,
        Err(_) => {}
    }
    let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
    let p = &b[4..4 + n];
    match p.first() {
        Some(t) if *t > 9 => Want::Type,
        Some(&R_STR) if p.len() >= 5 => {
            let l = u32::from_be_bytes(p[1..5].try_into().unwrap()) as usize;
            if p.len() == 5 + l && std::str::from_utf8(&p[5..]).is_err() {
                Want::Text
            } else {
                Want::Any
            }
        }
        _ => Want::Any,
    }
}

pub fn p13() {
    let c = ctx();
    rule("a case is one hostile byte string in one segmentation, through the request or reply decoder, with the verdict at every read compared with an independent decoder; distinct by the bytes' first 16, length, verdict and number of reads");
    assume("proportionate: the heap used during one decode stays below 256 KiB plus 64 times the bytes received");
    alloc::counting(true);
    let mut i = 0u64;
    let (mut done, mut more, mut errs) = (0u64, 0u64, 0u64);
    let budget_ok = |n: usize, base: i64, b: &[u8], what: &str| {
        let used = alloc::peak() - base;
        maxi("largest_heap_use_of_one_decode", used.max(0) as u64);
        if used > 256 * 1024 + 64 * n as i64 {
            fail("P13: a decoder allocated out of proportion to what it received", format!("{what}: {used} bytes of heap for {n} bytes received: {}", hex(b)));
        }
    };
    while !c.over() || i < 500 {
        i += 1;
        let mut r = c.rng(13_000 + i);
        // Requests: the verdict at every read is the independent decoder's.
        let b = hostile_request(&mut r);
        describe(format!("request bytes {}", hex(&b)));
        let mut verdicts = vec![];
        for rep in 0..3 {
            let cs: Vec<usize> = match rep {
                0 => vec![b.len()],
                1 if b.len() < 300 => (0..=b.len()).collect(),
                _ => cuts(&mut r, b.len()),
            };
            let base = alloc::reset_peak();
            let mut cx = ReqContext::new();
            let mut last = RV::More;
            for &n in &cs {
                let want = match decode_req(&b[..n]) {
                    Ok(None) => RV::More,
                    Ok(Some((q, k))) => RV::Req(q, k),
                    Err(e) => RV::Err(e),
                };
                let got = cut(|| match cx.feed(&b[..n]) {
                    Ok(None) => RV::More,
                    Ok(Some(q)) => RV::Req(view(&q), q.as_bytes().len()),
                    Err(ReqParse::CommandIdInvalid) => RV::Err(ReqErr::Command),
                    Err(ReqParse::KeyTypeInvalid) => RV::Err(ReqErr::KeyType),
                });
                let w = || format!("bytes {} in reads ending at {cs:?}, at {n}", hex(&b));
                match got {
                    Err(e) => fail("P13: the request decoder panicked", format!("{}: {e}", w())),
                    Ok(g) if g == want => last = g,
                    Ok(g) => fail("P13: the request decoder's verdict is wrong", format!("{}: {g:?} instead of {want:?}", w())),
                }
                if last != RV::More {
                    break;
                }
            }
            budget_ok(b.len(), base, &b, "request");
            match &last {
                RV::More => more += 1,
                RV::Req(..) => done += 1,
                RV::Err(_) => errs += 1,
            }
            eval(1);
            distinct(&(&b[..b.len().min(16)], b.len(), format!("{:?}", std::mem::discriminant(&last)), cs.len()));
            verdicts.push(last);
        }
        // The first read that decides may differ, the verdict on the whole may not.
        if verdicts.windows(2).any(|v| v[0] != v[1]) {
            fail("P13: the request decoder's verdict depends on the segmentation", format!("{}: {verdicts:?}", hex(&b)));
        }
        // Replies.
        let b = hostile_reply(&mut r);
        describe(format!("reply bytes {}", hex(&b)));
        let want = if b.len() >= 4 { want_reply(&b) } else { Want::Any };
        for rep in 0..3 {
            let cs: Vec<usize> = match rep {
                0 => vec![b.len()],
                1 if b.len() < 300 => (0..=b.len()).collect(),
                _ => cuts(&mut r, b.len()),
            };
            let base = alloc::reset_peak();
            let mut cx = RepContext::new();
            let mut verdict = None;
            let w = |n: usize| format!("bytes {} in reads ending at {cs:?}, at {n}", hex(&b));
            for &n in &cs {
                let got = cut(|| cx.feed(&b[..n]).map(|i| match i {
                    Instruction::Concluded(r) => Some(reply_view(&r)),
                    Instruction::ReadBytes(k) => {
                        if k == 0 {
                            fail("P13: the reply decoder asks for nothing and would loop", w(n));
                        }
                        None
                    }
                }));
                match got {
                    Err(e) => fail("P13: the reply decoder panicked", format!("{}: {e}", w(n))),
                    Ok(Ok(None)) => {}
                    Ok(v) => {
                        verdict = Some((v, n));
                        break;
                    }
                }
            }
            budget_ok(b.len(), base, &b, "reply");
            let ok = match (&want, &verdict) {
                (Want::Reply(x), Some((Ok(Some(g)), _))) => x == g,
                (Want::Type, Some((Err(RepParse::ResponseTypeInvalid), _))) => true,
                (Want::Dispatch, Some((Err(RepParse::DispatchErrorInvalid), _))) => true,
                (Want::Parse, Some((Err(RepParse::ParseErrorInvalid), _))) => true,
                (Want::Text, Some((Err(RepParse::StringInvalid), _))) => true,
                (Want::Any, _) => true,
                _ => false,
            };
            if !ok {
                fail("P13: the reply decoder's verdict is wrong", format!("bytes {} in reads ending at {cs:?}: {verdict:?} instead of {want:?}", hex(&b)));
            }
            match &verdict {
                None => more += 1,
                Some((Ok(_), _)) => done += 1,
                Some((Err(_), _)) => errs += 1,
            }
            eval(1);
            distinct(&("reply", &b[..b.len().min(16)], b.len(), verdict.is_some(), cs.len()));
        }
        sample(|| format!("reply bytes {} -> {want:?}", hex(&b)));
    }
    // Every first byte, and every pair of first and second byte.
    for b0 in 0..=255u8 {
        for b1 in 0..=255u8 {
            let b = [b0, b1];
            let mut cx = ReqContext::new();
            let got = cut(|| match cx.feed(&b) {
                Ok(None) => RV::More,
                Ok(Some(q)) => RV::Req(view(&q), q.as_bytes().len()),
                Err(ReqParse::CommandIdInvalid) => RV::Err(ReqErr::Command),
                Err(ReqParse::KeyTypeInvalid) => RV::Err(ReqErr::KeyType),
            });
            let want = match decode_req(&b) {
                Ok(None) => RV::More,
                Ok(Some((q, k))) => RV::Req(q, k),
                Err(e) => RV::Err(e),
            };
            if got.as_ref() != Ok(&want) {
                fail("P13: the request decoder's verdict is wrong", format!("bytes {}: {got:?} instead of {want:?}", hex(&b)));
            }
            if b0 >= 4 && b1 == 0 {
                for t in [b0, b0.wrapping_add(100)] {
                    let m = [0, 0, 0, 2, t, 0xff];
                    if let Err(e) = cut(|| RepContext::new().feed(&m).is_ok()) {
                        fail("P13: the reply decoder panicked", format!("{}: {e}", hex(&m)));
                    }
                }
            }
        }
        eval(256);
    }
    for t in [R_PARSE, R_DISPATCH] {
        for e in 0..=255u8 {
            let m = [0, 0, 0, 2, t, e];
            let got = cut(|| RepContext::new().feed(&m).map(|i| match i {
                Instruction::Concluded(r) => Some(reply_view(&r)),
                _ => None,
            }));
            let ok = match got {
                Ok(Ok(Some(Reply::Err(x)))) => t == R_DISPATCH && x == e && e < 8,
                Ok(Ok(Some(Reply::Parse(x)))) => t == R_PARSE && x == e && e < 2,
                Ok(Err(RepParse::DispatchErrorInvalid)) => t == R_DISPATCH && e >= 8,
                Ok(Err(RepParse::ParseErrorInvalid)) => t == R_PARSE && e >= 2,
                _ => false,
            };
            if !ok {
                fail("P13: an error reply was decoded wrong", format!("{}: {got:?}", hex(&m)));
            }
        }
    }
    // Large inputs take time in proportion, too.
    let mut b = vec![0u8; 4];
    let mut p = vec![R_LIST];
    p.extend(65535u16.to_be_bytes());
    p.extend(vec![0; 4 * 65535]);
    b[..4].copy_from_slice(&(p.len() as u32).to_be_bytes());
    b.extend(p);
    describe("a list of 65535 empty items".into());
    let base = alloc::reset_peak();
    if let Err(e) = cut(|| RepContext::new().feed(&b).is_ok()) {
        fail("P13: the reply decoder panicked", e);
    }
    budget_ok(b.len(), base, &b, "reply");
    alloc::counting(false);
    count("inputs", 2 * i);
    count("decoded", done);
    count("asked_for_more", more);
    count("rejected", errs);
}

// ---- P14 ------------------------------------------------------------------------------------

pub fn p14() {
    let c = ctx();
    for (i, n) in huge_sizes().into_iter().enumerate() {
        huge_request(&mut c.rng(14_900 + i as u64), n, i % 3, true);
        count("huge_requests", 1);
    }
    rule("a case is one sequence of builder calls with the request audited after each (count, every argument, ranges, key, bytes); distinct by (command, stated type, call kinds, argument count, outcome)");
    let mut i = 0u64;
    while !c.over() || i < 200 {
        i += 1;
        let mut r = c.rng(14_000 + i);
        let cmd = if r.chance(1, 16) { STATS } else { *r.pick(&ALL) };
        let kt = if r.chance(1, 2) { None } else { Some(r.below(8) as u8) };
        let mut b = if kt.is_none() && r.chance(1, 2) { RequestBuilder::new(cid(cmd)) } else { RequestBuilder::new_with_key_type(cid(cmd), kt.map(kty)) };
        let mut want = Req { cmd, kt, args: vec![] };
        let max = if cmd == STATS { 0 } else { 255 };
        let mut log = String::new();
        // Often work around the limit.
        let fill = match r.below(4) {
            0 => r.range(245, 255),
            1 => *r.pick(&[100, 126, 127, 128, 129, 200, 254, 255]),
            _ => 0,
        };
        for _ in 0..fill.min(max) {
            let x = { let n = r.range(1, 6); gen::blob(&mut r, n) };
            if !matches!(cut(|| b.bytes(x.clone()).is_ok()), Ok(true)) {
                fail("P14: the builder refused an argument that fits", format!("{want:?} + {}", hex(&x)));
            }
            want.args.push(x);
        }
        let _ = writeln!(log, "{} {:?} with {} arguments", cmd_name(cmd), kt.map(type_name), want.args.len());
        for step in 0..r.range(3, 14) {
            let n = want.args.len();
            let before = b.clone();
            match r.below(9) {
                0 => {
                    // Turn the request back into a builder and go on; sometimes by way of the wire.
                    let q = b.into_request();
                    b = if r.chance(1, 2) {
                        let mut bytes = q.as_bytes().to_vec();
                        let tail = r.below(3) * 7;
                        bytes.extend(r.bytes(tail));
                        let mut cx = ReqContext::new();
                        let res = cut(|| match cx.feed(&bytes) {
                            Ok(Some(q)) => Some(RequestBuilder::from(q)),
                            _ => None,
                        });
                        match res {
                            Ok(Some(b)) => b,
                            other => fail("P14: a built request can't be decoded to continue it", format!("{log}{want:?}: {:?}", other.err())),
                        }
                    } else {
                        match cut(|| RequestBuilder::from(q)) {
                            Ok(b) => b,
                            Err(e) => fail("P14: turning a request into a builder panicked", format!("{log}{want:?}: {e}")),
                        }
                    };
                    let _ = writeln!(log, "rebuilt");
                }
                1..=4 => {
                    let x = if r.chance(1, 6) { vec![] } else { let l = gen::len(&mut r, step == 0); gen::blob(&mut r, l) };
                    let _ = writeln!(log, "bytes {}", hex(&x));
                    let res = match cut(|| b.bytes(x.clone()).map(|_| ())) {
                        Ok(x) => x,
                        Err(e) => fail("P14: the builder panicked", format!("{log}{want:?}: {e}")),
                    };
                    let fits = n + 1 <= max;
                    let ok = match &res {
                        Ok(()) => !x.is_empty() && fits,
                        Err(BErr::ArgumentEmpty) => x.is_empty(),
                        Err(BErr::TooManyArguments) => !fits,
                        Err(BErr::ValueEmpty) => false,
                    };
                    if !ok {
                        fail("P14: the builder's verdict on an argument is wrong", format!("{log}with {n} arguments: {res:?}"));
                    }
                    if res.is_ok() {
                        want.args.push(x);
                    } else {
                        same(&before, &b, &log);
                    }
                }
                _ => {
                    let t = r.below(8) as u8;
                    let mut v = gen::value(&mut r, t, step == 0);
                    if r.chance(1, 2) {
                        // Exactly as many elements as fit, or one more.
                        let room = max.saturating_sub(n);
                        let m = if r.chance(1, 2) { room } else { room + 1 };
                        let el = |i: usize| format!("e{i}").into_bytes();
                        match t {
                            LIST => v = MVal::List((0..m).map(el).collect()),
                            SETT => v = MVal::Set((0..m).map(el).collect()),
                            MAP => v = MVal::Map((0..(m + 1) / 2).map(|i| (el(i), el(i + 1000))).collect()),
                            _ => {}
                        }
                    }
                    let mut holed = false;
                    if r.chance(1, 6) {
                        match &mut v {
                            MVal::Bytes(b) | MVal::Str(b) => b.clear(),
                            MVal::List(l) if r.chance(1, 2) => l.clear(),
                            MVal::List(l) => {
                                let i = if r.chance(1, 2) { l.len() } else { r.below(l.len() + 1) };
                                l.insert(i, vec![]);
                                if l.len() > 1 && r.chance(2, 3) {
                                    // As long as it was.
                                    l.remove(usize::from(i == 0));
                                }
                                holed = true;
                            }
                            MVal::Map(m) => m.clear(),
                            MVal::Set(m) => m.clear(),
                            _ => {}
                        }
                    }
                    let args = v.to_args();
                    let empty = args.is_empty() || (matches!(v, MVal::Bytes(_) | MVal::Str(_)) && args[0].is_empty()) || holed;
                    let fits = n + args.len() <= max;
                    let _ = writeln!(log, "value {v:?}");
                    let res = match cut(|| b.value(to_value(&v)).map(|_| ())) {
                        Ok(x) => x,
                        Err(e) => fail("P14: the builder panicked", format!("{log}{want:?}: {e}")),
                    };
                    let ok = match &res {
                        Ok(()) => !empty && fits,
                        Err(BErr::ValueEmpty) => empty,
                        Err(BErr::ArgumentEmpty) => holed,
                        Err(BErr::TooManyArguments) => !fits || (cmd == STATS && empty),
                    };
                    if !ok {
                        fail("P14: the builder's verdict on a value is wrong", format!("{log}with {n} arguments: {res:?}"));
                    }
                    if res.is_ok() {
                        let q = b.clone().into_request();
                        let tail: Vec<Vec<u8>> = match cut(|| view(&q).args.get(n..).unwrap_or(&[]).to_vec()) {
                            Ok(t) => t,
                            Err(e) => fail("P14: reading a request panicked", format!("{log}: {e}")),
                        };
                        let same = match &v {
                            MVal::Map(_) => {
                                let mut p: Vec<&[Vec<u8>]> = tail.chunks(2).collect();
                                p.sort();
                                p.concat() == args
                            }
                            MVal::Set(_) => {
                                let mut t = tail.clone();
                                t.sort();
                                t == args
                            }
                            _ => tail == args,
                        };
                        if !same {
                            fail("P14: an accepted value doesn't appear in the request unchanged", format!("{log}arguments {:?}", tail.iter().map(|x| hex(x)).take(20).collect::<Vec<_>>()));
                        }
                        want.args.extend(tail);
                    } else {
                        same(&before, &b, &log);
                    }
                    distinct(&(cmd, kt, t, n.min(260), args.len(), format!("{res:?}")));
                }
            }
            let q = b.clone().into_request();
            match cut(|| audit(&q, &want, &mut r)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => fail("P14: the request isn't what the builder was given", format!("{log}{e}")),
            }
            if *b.command_id_ref() as u8 != cmd || b.key_type_ref().copied().map(kty_no) != kt {
                fail("P14: the builder names another command or type", log);
            }
            eval(1);
            maxi("most_arguments", want.args.len() as u64);
        }
        sample(|| log.chars().take(400).collect());
        distinct(&(cmd, kt, want.args.len(), log.len()));
    }
    count("builders", i);
    // Numbers and booleans: exact bytes.
    for f in gen::floats() {
        scalar(Value::Float(f), f.to_bits().to_be_bytes().to_vec());
    }
    for x in gen::INTS {
        scalar(Value::Integer(*x), x.to_be_bytes().to_vec());
    }
    scalar(Value::Boolean(true), vec![1]);
    scalar(Value::Boolean(false), vec![0]);
}

fn scalar(v: Value, want: Vec<u8>) {
    let s = format!("{v:?}");
    let mut b = RequestBuilder::new(cid(SET));
    let ok = b.value(v).is_ok();
    let q = b.into_request();
    if !ok || q.arg(0) != Some(&want[..]) {
        fail("P14: a number isn't in the request exactly", format!("{s}: {:?}", q.arg(0)));
    }
}

fn same(before: &RequestBuilder, after: &RequestBuilder, log: &str) {
    let (a, b) = (before.clone().into_request(), after.clone().into_request());
    if view(&a) != view(&b) || a.as_bytes() != b.as_bytes() {
        fail("P14: a refused argument changed the request", format!("{log}before {} after {}", hex(a.as_bytes()), hex(b.as_bytes())));
    }
}
