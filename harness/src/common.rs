//! Verdicts, evidence counters, the watchdog and the boundary around the code under test.
use std::{
    cell::Cell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: PathBuf,
    pub budget: Duration,
    pub server: PathBuf,
    pub cli: PathBuf,
    pub shim: PathBuf,
    pub start: Instant,
}

impl Ctx {
    pub fn over(&self) -> bool {
        self.start.elapsed() >= self.budget
    }
    /// Has this fraction of the time budget been used?
    pub fn over_frac(&self, f: f64) -> bool {
        self.start.elapsed() >= self.budget.mul_f64(f)
    }
    pub fn rng(&self, stream: u64) -> crate::rng::Rng {
        crate::rng::Rng::new(self.seed, stream)
    }
    /// Scale an amount of work by tier.
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

static CTX: OnceLock<Ctx> = OnceLock::new();
pub fn init(c: Ctx) {
    let _ = CTX.set(c);
}
pub fn ctx() -> &'static Ctx {
    CTX.get().expect("ctx")
}

#[derive(Default)]
struct Rep {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
}
static REP: Mutex<Option<Rep>> = Mutex::new(None);
static EVALS: AtomicU64 = AtomicU64::new(0);

fn with<R>(f: impl FnOnce(&mut Rep) -> R) -> R {
    let mut g = REP.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Rep::default))
}
pub fn eval(n: u64) {
    EVALS.fetch_add(n, Ordering::Relaxed);
    progress();
}
pub fn count(name: &str, n: u64) {
    progress();
    with(|r| *r.counters.entry(name.to_owned()).or_default() += n)
}
pub fn maxi(name: &str, n: u64) {
    with(|r| {
        let e = r.counters.entry(name.to_owned()).or_default();
        *e = (*e).max(n)
    })
}
pub fn get_count(name: &str) -> u64 {
    with(|r| r.counters.get(name).copied().unwrap_or(0))
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Record a non-trivial case by its fingerprint.
pub fn distinct<T: Hash + ?Sized>(t: &T) {
    let h = hash64(t);
    with(|r| {
        if r.distinct.len() < 5_000_000 {
            r.distinct.insert(h);
        }
    })
}
pub fn distinct_many(hs: &[u64]) {
    with(|r| {
        for h in hs {
            if r.distinct.len() < 5_000_000 {
                r.distinct.insert(*h);
            }
        }
    })
}
pub fn sample(s: impl FnOnce() -> String) {
    if with(|r| r.samples.len() >= 6) {
        return;
    }
    let mut s = s();
    with(|r| {
        if r.samples.len() < 6 {
            if s.len() > 1200 {
                let mut n = 1200;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            r.samples.push(s);
        }
    })
}
pub fn rule(s: &str) {
    with(|r| r.rule = s.to_owned())
}
pub fn assume(s: &str) {
    with(|r| r.assumptions.push(s.to_owned()))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_result() {
    let c = ctx();
    let s = with(|r| {
        let mut s = String::from("{");
        let _ = write!(
            s,
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            EVALS.load(Ordering::Relaxed),
            r.distinct.len(),
            jstr(&r.rule)
        );
        let _ = write!(s, "\"samples\":[{}]", r.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        for (k, v) in &r.counters {
            let _ = write!(s, ",{}:{}", jstr(k), v);
        }
        s.push('}');
        format!(
            "{{\"coverage\":{},\"assumptions\":[{}]}}",
            s,
            r.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
        )
    });
    std::fs::write(c.out.join("result.json"), s).expect("write result");
}

static FAILED: AtomicBool = AtomicBool::new(false);
/// Report a violation of the property and end the process.
pub fn fail(what: &str, witness: String) -> ! {
    if FAILED.swap(true, Ordering::SeqCst) {
        // Another thread is already reporting.
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let c = ctx();
    let mut w = witness;
    if w.len() > 200_000 {
        let mut n = 200_000;
        while !w.is_char_boundary(n) {
            n -= 1;
        }
        w.truncate(n);
    }
    let s = format!(
        "{{\"property\":{},\"seed\":{},\"tier\":{},\"what\":{},\"witness\":{}}}",
        jstr(&c.prop),
        c.seed,
        jstr(if c.thorough { "thorough" } else { "quick" }),
        jstr(what),
        jstr(&w)
    );
    std::fs::write(c.out.join("violation.json"), s).expect("write violation");
    let head: String = w.chars().take(3000).collect();
    eprintln!("violation: {what}\n{head}");
    unsafe { libc::_exit(1) }
}

/// The run observed too little, or the environment misbehaved: no verdict.
pub fn inconclusive(why: &str) -> ! {
    eprintln!("inconclusive: {why}");
    std::fs::write(ctx().out.join("inconclusive.txt"), why).ok();
    unsafe { libc::_exit(3) }
}

// ---- the boundary around the code under test -------------------------------------------------

const SLOTS: usize = 512;
static SLOT_SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static SLOT_WHAT: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % SLOTS;
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn now_ms() -> u64 {
    ctx().start.elapsed().as_millis() as u64 + 1
}

/// Describe what this thread is about to execute, for the watchdog's report.
pub fn describe(s: String) {
    SLOT.with(|i| {
        SLOT_WHAT.lock().unwrap_or_else(|e| e.into_inner()).insert(*i, s);
    })
}

/// Run code under test: a panic inside is returned as an error, a hang is caught by the watchdog.
pub fn cut<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    SLOT.with(|i| SLOT_SINCE[*i].store(now_ms(), Ordering::Relaxed));
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    SLOT.with(|i| SLOT_SINCE[*i].store(0, Ordering::Relaxed));
    progress();
    r.map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        format!("{} ({})", m, LAST_PANIC.with(|l| l.borrow().clone()))
    })
}

pub fn in_cut() -> bool {
    DEPTH.with(|d| d.get() > 0)
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    let repo = std::env::var("HOP_REPO").unwrap_or_else(|_| "/repo".into()) + "/";
    std::panic::set_hook(Box::new(move |info| {
        let at = info.location().map(|l| l.to_string()).unwrap_or_default();
        if in_cut() {
            LAST_PANIC.with(|l| *l.borrow_mut() = at);
        } else {
            default(info);
            // The harness's own files are relative, hop's aren't.
            if at.starts_with(&repo) {
                fail("the code under test panicked", at);
            }
        }
    }));
}

/// A call into the code under test that takes this long on tiny inputs hangs.
pub const HANG_MS: u64 = 45_000;
/// So does a thread's whole part of a round, or a worker in which nothing at all ends.
const STALL_MS: u64 = 100_000;

static BODY_SINCE: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Something ended.
pub fn progress() {
    PROGRESS.store(now_ms(), Ordering::Relaxed);
}
/// Run one thread's part of a round, which is to end.
pub fn body<R>(f: impl FnOnce() -> R) -> R {
    SLOT.with(|i| BODY_SINCE[*i].store(now_ms(), Ordering::Relaxed));
    let r = f();
    SLOT.with(|i| BODY_SINCE[*i].store(0, Ordering::Relaxed));
    progress();
    r
}

pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = now_ms();
        // Time in which this process itself was stopped doesn't count.
        let mut skew = 0u64;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = now_ms();
            if now - last > 2_000 {
                skew = now;
            }
            last = now;
            let stalled = now.saturating_sub(PROGRESS.load(Ordering::Relaxed).max(skew));
            if stalled > STALL_MS {
                fail("nothing ends any more (hang or deadlock)", format!("no call or round ended in {stalled} ms"));
            }
            for (i, (s, limit)) in SLOT_SINCE.iter().map(|s| (s, HANG_MS)).chain(BODY_SINCE.iter().map(|s| (s, STALL_MS))).enumerate() {
                let i = i % SLOTS;
                let since = s.load(Ordering::Relaxed);
                if since == 0 {
                    continue;
                }
                if now.saturating_sub(since.max(skew)) > limit {
                    let what = SLOT_WHAT
                        .try_lock()
                        .ok()
                        .and_then(|g| g.get(&i).cloned())
                        .unwrap_or_default();
                    fail(
                        "a call never returned (hang or deadlock)",
                        format!("no return after {} ms; last described operation of that thread: {}", now - since, what),
                    );
                }
            }
        }
    });
}

pub fn hex(b: &[u8]) -> String {
    const MAX: usize = 96;
    let mut s = String::new();
    let plain = !b.is_empty() && b.iter().all(|c| (0x20..0x7f).contains(c));
    if plain {
        let shown: String = b.iter().take(MAX).map(|c| *c as char).collect();
        let _ = write!(s, "'{}'", shown);
    } else {
        s.push_str("0x");
        for c in b.iter().take(MAX) {
            let _ = write!(s, "{:02x}", c);
        }
    }
    if b.len() > MAX {
        let _ = write!(s, "..({} bytes, hash {:016x})", b.len(), hash64(b));
    }
    s
}
