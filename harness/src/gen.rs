//! Inputs: boundary-heavy keys, values, arguments and requests.
use crate::{rng::Rng, wire::*};

pub const LENS: &[usize] = &[
    1, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000,
    1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193,
];
pub const BIG: &[usize] = &[16384, 20000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 100_000];

pub const INTS: &[i64] = &[
    0, 1, -1, 2, -2, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
    2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740992, 9007199254740993,
    -9007199254740993, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, i64::MAX / 2, i64::MAX / 2 + 1, i64::MIN / 2,
    0x0a0a0a0a0a0a0a0a, 0x0102030405060708, 0x0a, 0x0a00, 0x7f00000000000000,
];
pub fn floats() -> Vec<f64> {
    vec![
        0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1e-9, 1.5, 2.5, 1e15, 9007199254740992.0, 9007199254740993.0, 1e16, 1e100, 1e308,
        f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON,
        16777217.0, 4294967296.5, -123456.789, 3.0e-310, 1.7976931348623155e308,
        f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(0xfff8_0000_0000_1234), 2147483648.0, 9.3e18, -9.3e18,
    ]
}

/// A length: mostly small, often a boundary, sometimes large.
pub fn len(r: &mut Rng, big: bool) -> usize {
    match r.below(20) {
        0..=11 => r.range(1, 20),
        12..=17 => *r.pick(LENS),
        18 => r.range(20, 3000),
        _ => {
            if big {
                *r.pick(BIG)
            } else {
                *r.pick(LENS)
            }
        }
    }
}

/// Text that looks like something else.
fn lookalike(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = match r.below(7) {
        0 => (0..n).map(|_| b'0' + r.below(10) as u8).collect(),
        1 => format!("-{}", r.next()).into_bytes(),
        2 => format!("{:?}", f64::from_bits(r.next())).into_bytes(),
        3 => r.pick(&["true", "false", "null", "NaN", "inf", "-0", "1e5", "0x10", "{}", "[]", "\"\"", "()", "None", "\r\n", "%00", "\\0", "../"]).as_bytes().to_vec(),
        4 => (0..n).map(|_| *r.pick(b"0123456789abcdef")).collect(),
        5 => vec![*r.pick(b" \t\n\r\0a0="); n],
        // Lines, of one or another ending.
        _ => (0..n).map(|_| *r.pick(b"ab \r\n\t")).collect(),
    };
    b.truncate(n);
    b
}
pub fn blob(r: &mut Rng, n: usize) -> Vec<u8> {
    if n > 0 && n < 400 && r.chance(1, 10) {
        let mut b = lookalike(r, n);
        b.resize(n, b'0');
        return b;
    }
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![b'\n'; n],
        2 => vec![0xff; n],
        3 => (0..n).map(|i| i as u8).collect(),
        4 | 5 => (0..n).map(|_| b'a' + (r.next() % 26) as u8).collect(),
        _ => r.bytes(n),
    }
}

pub const CHARS: &[char] = &[
    'a', 'Z', '0', ' ', '\n', '\0', '\r', '\t', '\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '漢', '\u{ffff}',
    '\u{10000}', '😀', '\u{10ffff}', '\u{301}', '\u{200d}', 'ﬁ', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{2028}', 'İ', '"', '\\', '\u{1b}',
];
pub fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    if n > 0 && n < 400 && r.chance(1, 10) {
        return lookalike(r, n);
    }
    let mode = r.below(4);
    let mut s = String::new();
    while s.len() < n {
        s.push(match mode {
            0 => (b'a' + (r.next() % 26) as u8) as char,
            1 => *r.pick(CHARS),
            2 => *r.pick(&['é', '漢', '😀']),
            _ => {
                if r.chance(1, 8) {
                    *r.pick(CHARS)
                } else {
                    (b' ' + (r.next() % 90) as u8) as char
                }
            }
        });
    }
    s.into_bytes()
}

pub fn int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0..=2 => *r.pick(INTS),
        3 => r.next() as i64,
        4 => {
            let b = r.below(63);
            let x = 1i64 << b;
            let d = r.below(3) as i64 - 1;
            if r.chance(1, 2) {
                x.wrapping_add(d)
            } else {
                x.wrapping_neg().wrapping_add(d)
            }
        }
        _ => r.below(2000) as i64 - 1000,
    }
}
pub fn float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0..=2 => *r.pick(&floats()),
        3 => f64::from_bits(r.next()),
        4 => r.below(2000) as f64 - 1000.0,
        // Few bits of any magnitude, which other formats hold exactly as well.
        5 => (r.below(512) as f64 - 256.0) * 2f64.powi(r.below(300) as i32 - 150),
        6 => (r.below(64) as f64 - 32.0) * 2f64.powi(r.below(2100) as i32 - 1050),
        _ => (r.next() as i64) as f64 / 1e6,
    }
}

/// How many elements: small, or around the boundaries of the argument count.
pub fn amount(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(12) {
        0..=7 => r.range(1, 6),
        8 => r.range(1, 40),
        9 => *r.pick(&[15, 16, 17, 31, 32, 63, 64, 65, 100]),
        10 => *r.pick(&[126, 127, 128, 129]),
        _ => *r.pick(&[200, 252, 253, 254]),
    };
    n.min(max)
}

pub fn value(r: &mut Rng, kt: u8, big: bool) -> MVal {
    match kt {
        BYTES => {
            let n = len(r, big);
            MVal::Bytes(blob(r, n))
        }
        BOOL => MVal::Bool(r.chance(1, 2)),
        FLOAT => MVal::f(float(r)),
        INT => MVal::Int(int(r)),
        STR => {
            let n = len(r, big);
            MVal::Str(text(r, n))
        }
        LIST => {
            let n = amount(r, 254);
            let same = r.chance(1, 6);
            let b = big && r.chance(1, 10);
            let first = blob(r, 3);
            MVal::List(
                (0..n)
                    .map(|_| {
                        if same {
                            first.clone()
                        } else {
                            let n = if n > 20 { r.range(1, 30) } else { len(r, b) };
                            blob(r, n)
                        }
                    })
                    .collect(),
            )
        }
        MAP => {
            let n = amount(r, 127);
            let b = big && r.chance(1, 10);
            MVal::Map(
                (0..n)
                    .map(|_| {
                        let kl = if r.chance(1, 8) { *r.pick(&[1, 2, 127, 128, 129, 200, 254, 255]) } else { r.range(1, 12) };
                        let vl = if n > 20 { r.range(1, 30) } else { len(r, b) };
                        (blob(r, kl), blob(r, vl))
                    })
                    .collect(),
            )
        }
        _ => {
            let n = amount(r, 254);
            let b = big && r.chance(1, 10);
            MVal::Set(
                (0..n)
                    .map(|_| {
                        let l = if n > 20 { r.range(1, 30) } else { len(r, b).min(65535) };
                        blob(r, l)
                    })
                    .collect(),
            )
        }
    }
}

/// A universe of keys for one history.
pub fn keys(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    while v.len() < n {
        let k = match r.below(12) {
            0 => {
                let l = *r.pick(LENS);
                blob(r, l)
            }
            1 if r.chance(1, 12) => {
                let l = *r.pick(BIG);
                blob(r, l)
            }
            2 => vec![r.next() as u8],
            3 => {
                // A prefix or an extension of another key.
                match v.last() {
                    Some(k) if k.len() > 1 && r.chance(1, 2) => k[..k.len() - 1].to_vec(),
                    Some(k) => {
                        let mut k = k.clone();
                        k.push(r.next() as u8);
                        k
                    }
                    None => b"k".to_vec(),
                }
            }
            4 => text(r, 6),
            5 if r.chance(1, 3) => r.pick(&[&b"__HOP__:x"[..], b"__Hop__:", b" __hop__:x", b"__hop__ :x", b"__hop__;x", b"\0__hop__:", b"__hop__/x", b"__hop:x", b"hop:", b"__"]).to_vec(),
            5 => r.pick(&[&b"__hop__"[..], b"__hop_:x", b"_hop__:", b"x__hop__:", b"\n", b"\0", b"\0\0", b"foo\nbar", b"KEY", b"key"]).to_vec(),
            _ => format!("key{}", r.below(10_000)).into_bytes(),
        };
        if !v.contains(&k) {
            v.push(k);
        }
    }
    v
}

/// Bytes that don't form valid UTF-8.
pub fn bad_text(r: &mut Rng) -> Vec<u8> {
    let bad: [&[u8]; 8] = [b"\xff", b"\xc3", b"a\x80", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf", b"ok\xe2\x82", b"\xf4\x90\x80\x80"];
    let mut v = b"x".repeat(r.below(5));
    v.extend_from_slice(r.pick(&bad));
    v
}

/// Arguments for a request of type `kt`, valid or not.
pub fn set_req(r: &mut Rng, key: &[u8], kt: u8, typed: bool, big: bool) -> Req {
    let v = value(r, kt, big);
    let mut a = vec![key.to_vec()];
    a.extend(v.to_args());
    if kt == MAP && r.chance(1, 6) {
        // A repeated key: the last one wins.
        let mut k = a[1].clone();
        if r.chance(1, 3) {
            k.push(0);
            k.truncate(255);
        }
        if a.len() + 2 <= 255 {
            a.push(k);
            let n = r.range(1, 10);
            a.push(blob(r, n));
        }
    }
    if kt == SETT && r.chance(1, 6) && a.len() < 255 {
        a.push(a[1].clone());
    }
    if matches!(kt, BYTES | STR | BOOL | INT | FLOAT) && r.chance(1, 12) {
        // Extra arguments are ignored.
        a.push(b"extra".to_vec());
    }
    if matches!(kt, INT | FLOAT) && r.chance(1, 12) {
        // Only the first eight bytes count.
        a[1].extend_from_slice(b"tail");
    }
    Req { cmd: SET, kt: if typed { Some(kt) } else { None }, args: a }
}

pub fn append_req(r: &mut Rng, key: &[u8], kt: u8, typed: bool, big: bool) -> Req {
    let n = if r.chance(1, 10) { 0 } else { amount(r, 254) };
    let mut a = vec![key.to_vec()];
    let b = big && n < 4;
    for _ in 0..n {
        let l = if n > 20 { r.range(1, 12) } else { len(r, b) };
        a.push(if kt == STR { text(r, l) } else { blob(r, l) });
    }
    if a.len() > 255 {
        a.truncate(255);
    }
    Req { cmd: APPEND, kt: if typed { Some(kt) } else { None }, args: a }
}

/// Any request at all on these keys; mostly sensible, sometimes faulty.
pub fn any_req(r: &mut Rng, keys: &[Vec<u8>], kinds: &dyn Fn(&[u8]) -> Option<u8>, big: bool) -> Req {
    let k = r.pick(keys).clone();
    let have = kinds(&k);
    // Prefer the type the key has.
    let kt = match have {
        Some(t) if r.chance(3, 4) => t,
        _ => r.below(8) as u8,
    };
    let typed = r.chance(1, 2);
    match r.below(20) {
        0..=4 => set_req(r, &k, kt, typed || have != Some(kt), big),
        5 | 6 => req(GET, if r.chance(1, 2) { Some(kt) } else { None }, &[k]),
        7 => req(DELETE, if r.chance(1, 12) { Some(kt) } else { None }, &[k]),
        8 => {
            let n = amount(r, 6);
            let mut a = vec![k];
            for _ in 1..n {
                a.push(r.pick(keys).clone());
            }
            req(EXISTS, if r.chance(1, 12) { Some(kt) } else { None }, &a)
        }
        9 => {
            let n = amount(r, 4);
            let mut a = vec![k];
            for _ in 1..n {
                a.push(r.pick(keys).clone());
            }
            req(IS, if r.chance(1, 12) { None } else { Some(kt) }, &a)
        }
        10 => {
            let d = r.pick(keys).clone();
            req(RENAME, if r.chance(1, 12) { Some(kt) } else { None }, &[k, d])
        }
        11 => req(TYPE, if r.chance(1, 12) { Some(kt) } else { None }, &[k]),
        12..=14 => {
            let t = if matches!(kt, BYTES | LIST | STR) { kt } else { *r.pick(&[BYTES, LIST, STR, kt]) };
            append_req(r, &k, t, typed, big)
        }
        15 => req(LENGTH, if typed { Some(kt) } else { None }, &[k]),
        16 => req(KEYS, if typed { Some(if r.chance(2, 3) { MAP } else { kt }) } else { None }, &[k]),
        17 | 18 => incr_req(r, &k, kt),
        _ => {
            if r.chance(1, 3) {
                req::<&[u8]>(STATS, None, &[])
            } else {
                let n = if r.chance(1, 5) { 0 } else { amount(r, 255) };
                let a: Vec<Vec<u8>> = (0..n)
                    .map(|_| {
                        let l = r.range(1, 20);
                        blob(r, l)
                    })
                    .collect();
                req(ECHO, if r.chance(1, 6) { Some(kt) } else { None }, &a)
            }
        }
    }
}

pub fn incr_req(r: &mut Rng, k: &[u8], kt: u8) -> Req {
    let cmd = *r.pick(&[INCR, DECR, INCRBY, DECRBY]);
    let t = match kt {
        FLOAT | INT if r.chance(2, 3) => Some(kt),
        _ => *r.pick(&[None, None, Some(INT), Some(FLOAT)]),
    };
    let mut a = vec![k.to_vec()];
    if matches!(cmd, INCRBY | DECRBY) || r.chance(1, 20) {
        // An untyped request works on the key's type, so either encoding may be right.
        let fl = t == Some(FLOAT) || (t.is_none() && kt == FLOAT);
        a.push(if fl { float(r).to_be_bytes().to_vec() } else { int(r).to_be_bytes().to_vec() });
        if r.chance(1, 25) {
            let n = r.below(8);
            a[1].truncate(n);
            if a[1].is_empty() {
                a.pop();
            }
        }
    }
    Req { cmd, kt: t, args: a }
}
