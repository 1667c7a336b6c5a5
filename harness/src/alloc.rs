//! Global allocator: counts the heap, refuses absurd requests, and perturbs schedules.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
};

pub struct Counting;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static BIGGEST: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// A single allocation beyond this is refused, which aborts the process.
const REFUSE: usize = 6 << 30;

thread_local! {
    static PERTURB: Cell<u64> = const { Cell::new(0) };
    static PROB: Cell<u32> = const { Cell::new(0) };
    static MINE: Cell<i64> = const { Cell::new(0) };
}

/// Yield or sleep at roughly one in `den` allocations of this thread (0: never).
pub fn perturb(seed: u64, den: u32) {
    PERTURB.with(|p| p.set(seed | 1));
    PROB.with(|p| p.set(den));
}

/// Start counting (only the checks that look at the heap pay for it).
pub fn counting(on: bool) {
    ON.store(on, Ordering::SeqCst);
}
/// What this thread allocated less what it freed, since it started.
pub fn mine() -> i64 {
    MINE.with(|m| m.get())
}
/// What the harness itself keeps is not to be seen by `mine`.
pub fn unseen<R>(f: impl FnOnce() -> R) -> R {
    let m = mine();
    let r = f();
    MINE.with(|c| c.set(m));
    r
}
pub fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
/// Highest amount of live heap above the level at the call of `reset_peak`.
pub fn reset_peak() -> i64 {
    let l = live();
    PEAK.store(l, Ordering::Relaxed);
    BIGGEST.store(0, Ordering::Relaxed);
    l
}
pub fn peak() -> i64 {
    PEAK.load(Ordering::Relaxed)
}

#[inline]
fn point() {
    let _ = PROB.try_with(|d| {
        let den = d.get();
        if den == 0 {
            return;
        }
        let _ = PERTURB.try_with(|p| {
            let mut x = p.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            p.set(x);
            if (x >> 20) % den as u64 == 0 {
                match (x >> 40) % 16 {
                    0..=5 => unsafe {
                        libc::sched_yield();
                    },
                    6..=14 => {
                        for _ in 0..((x >> 44) % 1500) {
                            std::hint::spin_loop();
                        }
                    }
                    _ => unsafe {
                        let ts = libc::timespec { tv_sec: 0, tv_nsec: ((x >> 44) % 80_000) as _ };
                        libc::nanosleep(&ts, std::ptr::null_mut());
                    },
                }
            }
        });
    });
}

#[inline]
fn add(n: usize) {
    if ON.load(Ordering::Relaxed) {
        let _ = MINE.try_with(|m| m.set(m.get() + n as i64));
        let l = LIVE.fetch_add(n as i64, Ordering::Relaxed) + n as i64;
        if l > PEAK.load(Ordering::Relaxed) {
            PEAK.fetch_max(l, Ordering::Relaxed);
        }
        if n as u64 > BIGGEST.load(Ordering::Relaxed) {
            BIGGEST.fetch_max(n as u64, Ordering::Relaxed);
        }
    }
}
#[inline]
fn sub(n: usize) {
    if ON.load(Ordering::Relaxed) {
        let _ = MINE.try_with(|m| m.set(m.get() - n as i64));
        LIVE.fetch_sub(n as i64, Ordering::Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l);
        point();
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

// ---- preemption at arbitrary instructions ---------------------------------------------------

static SIG_STATE: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);
pub static PREEMPTIONS: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: libc::c_int) {
    // Only async-signal-safe calls here.
    unsafe {
        let errno = *libc::__errno_location();
        let x = SIG_STATE.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 27;
        PREEMPTIONS.fetch_add(1, Ordering::Relaxed);
        if z & 15 < 4 {
            libc::sched_yield();
        } else if z & 15 < 14 {
            for _ in 0..((z >> 8) % 4000) {
                std::hint::spin_loop();
            }
        } else {
            let ts = libc::timespec { tv_sec: 0, tv_nsec: ((z >> 8) % 120_000) as _ };
            libc::nanosleep(&ts, std::ptr::null_mut());
        }
        *libc::__errno_location() = errno;
    }
}

extern "C" {
    fn timer_create(clock: libc::c_int, sev: *mut SigEvent, id: *mut *mut libc::c_void) -> libc::c_int;
    fn timer_settime(id: *mut libc::c_void, flags: libc::c_int, new: *const ITimerSpec, old: *mut ITimerSpec) -> libc::c_int;
    fn timer_delete(id: *mut libc::c_void) -> libc::c_int;
}
#[repr(C)]
struct SigEvent {
    value: usize,
    signo: libc::c_int,
    notify: libc::c_int,
    tid: libc::c_int,
    pad: [u8; 64],
}
#[repr(C)]
struct ITimerSpec {
    interval: libc::timespec,
    value: libc::timespec,
}

/// Interrupts the calling thread about every `ns` nanoseconds for as long as it lives.
pub struct Preempt(*mut libc::c_void);
impl Preempt {
    pub fn new(ns: u64) -> Option<Self> {
        if ns == 0 || cfg!(miri) {
            return None;
        }
        unsafe {
            let sig = libc::SIGUSR1;
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
            let tid = libc::syscall(libc::SYS_gettid) as libc::c_int;
            let mut ev = SigEvent { value: 0, signo: sig, notify: 4, tid, pad: [0; 64] };
            let mut id = std::ptr::null_mut();
            if timer_create(libc::CLOCK_MONOTONIC, &mut ev, &mut id) != 0 {
                return None;
            }
            let t = || libc::timespec { tv_sec: 0, tv_nsec: ns as _ };
            timer_settime(id, 0, &ITimerSpec { interval: t(), value: t() }, std::ptr::null_mut());
            Some(Preempt(id))
        }
    }
}
impl Drop for Preempt {
    fn drop(&mut self) {
        unsafe {
            timer_delete(self.0);
        }
    }
}
