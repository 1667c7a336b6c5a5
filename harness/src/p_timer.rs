//! P24: the timer, on the real clock and on a scripted one.
use crate::{common::*, rng::Rng};
use hop_internal_timer::Timer;
use std::{cell::Cell, fmt::Write as _, time::Duration};

thread_local! {
    /// The nanoseconds the scripted monotonic clock shows, while there is one.
    static SCRIPT: Cell<Option<u128>> = const { Cell::new(None) };
    static WALL: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

/// Stands in for libc's: the same for everybody, except on threads with a scripted clock.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(ns)) = SCRIPT.try_with(|s| s.get()) {
        READS.with(|r| r.set(r.get() + 1));
        match id {
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => {
                (*ts).tv_sec = (ns / 1_000_000_000) as _;
                (*ts).tv_nsec = (ns % 1_000_000_000) as _;
            }
            _ => {
                // A wall clock that is set back again and again.
                let n = WALL.with(|w| {
                    w.set(w.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
                    w.get()
                });
                (*ts).tv_sec = (n >> 33) as _;
                (*ts).tv_nsec = (n % 1_000_000_000) as _;
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

fn mono() -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

/// What a timer should be: when it was started and stopped, each between two readings of the clock.
#[derive(Clone, Default)]
struct Model {
    start: Option<(Duration, Duration)>,
    stop: Option<(Duration, Duration)>,
    measured: Option<Duration>,
}

struct Run {
    t: Timer,
    m: Model,
}

fn step(x: &mut Run, op: usize, scripted: bool, trace: &mut String) {
    let bad = |what: &str, trace: &str| -> ! { fail(&format!("P24: {what}"), trace.to_owned()) };
    let clock = || if scripted { SCRIPT.with(|s| s.get()).map(|n| Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)).unwrap() } else { mono() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
        0 => {
            let a = clock();
            let got = x.t.start();
            let b = clock();
            let want = x.m.start.is_none();
            let _ = writeln!(trace, "start at {b:?}: {got}");
            if got != want {
                return Err("start didn't succeed exactly on a fresh or reset timer");
            }
            if got {
                x.m.start = Some((a, b));
            }
            Ok(())
        }
        1 => {
            let a = clock();
            let got = x.t.stop();
            let b = clock();
            let want = x.m.start.is_some() && x.m.stop.is_none();
            let _ = writeln!(trace, "stop at {b:?}: {got:?}");
            if got.is_some() != want {
                return Err("stop didn't succeed exactly on a running timer");
            }
            if let Some(d) = got {
                x.m.stop = Some((a, b));
                x.m.measured = Some(d);
                let (s0, s1) = x.m.start.unwrap();
                let (lo, hi) = (a - s1, b - s0);
                let _ = writeln!(trace, "  elapsed between {lo:?} and {hi:?}");
                if d < lo || d > hi {
                    return Err("a measured duration is not the time that elapsed");
                }
            }
            Ok(())
        }
        2 => {
            x.t.reset();
            x.m = Model::default();
            let _ = writeln!(trace, "reset");
            if x.t != Timer::new() {
                return Err("a reset timer isn't like a new one");
            }
            Ok(())
        }
        _ => Ok(()),
    }));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => bad(e, trace),
        Err(_) => bad("an operation panicked", trace),
    }
    // What can be asked never changes anything.
    for _ in 0..2 {
        let d = x.t.duration();
        if d != x.m.measured {
            let _ = writeln!(trace, "duration: {d:?}, expected {:?}", x.m.measured);
            bad("the duration is not available exactly after a stop, or changed", trace);
        }
        let run = x.t.is_running();
        if run != (x.m.start.is_some() && x.m.stop.is_none()) {
            let _ = writeln!(trace, "is running: {run}");
            bad("the timer doesn't know whether it is running", trace);
        }
    }
    eval(1);
}

fn rounds(r: &mut Rng, scripted: bool) {
    let mut now: u128 = 0;
    if scripted {
        now = match r.below(6) {
            0 => r.below(3_000_000_000) as u128,
            1 => 999_999_999,
            2 => (u32::MAX as u128) * 1_000_000_000 - r.below(1000) as u128,
            3 => (r.next() >> r.below(40)) as u128,
            4 => ((1u128 << 53) - 3) + r.below(7) as u128,
            _ => r.below(1 << 40) as u128 * 1_000_000_000 + *r.pick(&[0u128, 1, 999_999_999, 500_000_000]),
        };
        WALL.with(|w| w.set(r.next()));
        SCRIPT.with(|s| s.set(Some(now)));
    }
    let mut runs = vec![Run { t: if r.chance(1, 2) { Timer::new() } else { Timer::default() }, m: Model::default() }];
    let mut trace = String::new();
    let mut shape = vec![];
    let n = r.range(3, 40);
    for _ in 0..n {
        if scripted {
            now += match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 999_999_999,
                3 => 1_000_000_000,
                4 => r.below(3_000_000_000) as u128,
                5 => 1_000_000_000 - now % 1_000_000_000,
                6 => (r.next() >> r.range(10, 50)) as u128,
                // Just before the next full second, so that the nanoseconds borrow.
                _ => 1_999_999_999 - now % 1_000_000_000,
            };
            SCRIPT.with(|s| s.set(Some(now)));
        } else if r.chance(1, 6) {
            let us = *r.pick(&[0u64, 1, 20, 300]);
            if us == 0 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(us));
            }
        }
        let i = r.below(runs.len());
        if r.chance(1, 12) && runs.len() < 4 {
            // A copy goes its own way.
            let c = Run { t: runs[i].t.clone(), m: runs[i].m.clone() };
            if c.t != runs[i].t {
                SCRIPT.with(|s| s.set(None));
                fail("P24: a copy of a timer differs from it", trace);
            }
            let _ = writeln!(trace, "timer {} is a copy of timer {i}", runs.len());
            runs.push(c);
        }
        let op = *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3]);
        shape.push((i, op, runs[i].m.start.is_some(), runs[i].m.stop.is_some()));
        let _ = write!(trace, "timer {i}: ");
        step(&mut runs[i], op, scripted, &mut trace);
    }
    SCRIPT.with(|s| s.set(None));
    count(if scripted { "sequences_on_the_scripted_clock" } else { "sequences_on_the_real_clock" }, 1);
    distinct(&(scripted, shape));
    sample(|| trace);
}

pub fn p24() {
    let c = ctx();
    rule("a case is one sequence of start, stop, reset, duration and is-running calls on up to four timers (copies included) against a model, on the real monotonic clock with readings around every call or on a scripted one that crosses seconds, stands still, jumps and grows huge while the wall clock is set back; distinct by the operations and the states they met");
    let mut r = c.rng(24);
    let mut i = 0u64;
    while !c.over() {
        i += 1;
        describe(format!("P24 sequence {i}"));
        rounds(&mut r, i % 3 != 0);
        if i % 2000 == 1 {
            // A longer real measurement, across at least one full second at times.
            let mut t = Timer::new();
            let a = mono();
            t.start();
            let b = mono();
            std::thread::sleep(Duration::from_millis(if c.thorough { 1100 } else { 120 }));
            let x = mono();
            let d = t.stop();
            let y = mono();
            if !d.is_some_and(|d| d >= x - b && d <= y - a) {
                fail("P24: a measured duration is not the time that elapsed", format!("{d:?}, elapsed between {:?} and {:?}", x - b, y - a));
            }
            count("longer_measurements", 1);
        }
        if c.thorough && i > 3_000_000 || !c.thorough && i > 300_000 {
            break;
        }
    }
    // Wear: one timer used far more often than 2^16 times.
    let mut t = Timer::new();
    for n in 0..c.scale(140_000, 600_000) {
        let a = mono();
        let begun = t.start();
        let x = mono();
        let d = t.stop();
        let b = mono();
        let again = (t.start(), t.stop(), t.is_running());
        let same = t.duration() == d;
        t.reset();
        if !begun || again != (false, None, false) || !same || !d.is_some_and(|d| d <= b - a && d <= b.max(x) - a) || t.duration().is_some() {
            fail("P24: a timer wears out", format!("use {n}: started {begun}, {d:?} of at most {:?}, then {again:?}", b - a));
        }
    }
    eval(1);
    count("uses_of_one_timer", 140_000);
    let reads = READS.with(|r| r.get());
    count("reads_of_the_scripted_clock", reads);
    if get_count("sequences_on_the_real_clock") < 100 || reads < 1000 {
        inconclusive("the timer never asked the scripted clock");
    }
}
