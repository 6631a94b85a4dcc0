//! Shared by both harness crates: deterministic randomness, panic capture, the case runner with
//! its three-valued verdict, evidence and replay files.
#![allow(dead_code)]

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn of(seed: u64, stream: &str, index: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Rng::new(
            seed.wrapping_mul(0xD134_2543_DE82_EF95)
                ^ h
                ^ index.wrapping_mul(0xA24B_AED4_963E_E407),
        )
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    /// A size that favours the small and the boundary values.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.range(0, max.min(8)),
            1 => self.range(0, max.min(100)),
            _ => self.range(0, max),
        }
    }
}

// ---------------------------------------------------------------- panics of the code under test

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static IN_SUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics seen on threads that are not inside `sut` (spawned tasks, for instance).
pub static STRAY_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if IN_SUT.with(|f| f.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else {
            eprintln!("{text}");
            STRAY_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(text);
        }
    }));
}

/// Runs code under test; a panic in it is an observation, not a harness failure.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = IN_SUT.with(|x| x.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(outer));
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

// ---------------------------------------------------------------- JSON out

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn short_hex(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..48]), b.len())
    }
}

// ---------------------------------------------------------------- run context

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub only_case: Option<u64>,
    pub threads: usize,
    start: Instant,
    evaluations: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    maxima: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    distinct_sets: Mutex<BTreeMap<String, HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    inconclusive: Mutex<Vec<String>>,
    exhaustive: AtomicBool,
    bumps: [AtomicU64; 8],
    scale: AtomicU64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: u64,
    pub what: String,
    pub detail: String,
}

/// What a case found wrong.
pub struct Bad {
    pub what: String,
    pub detail: String,
}

pub fn bad<T>(what: impl Into<String>, detail: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { what: what.into(), detail: detail.into() })
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29) ^ (b.len() as u64) << 40
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let mut args = std::env::args().skip(1);
        let property = args.next().expect("usage: <property> [--case N]");
        let mut only_case = None;
        let mut rest: Vec<String> = args.collect();
        if rest.len() >= 2 && rest[0] == "--case" {
            only_case = Some(rest[1].parse().expect("case number"));
            rest.drain(..2);
        }
        Ctx {
            property,
            tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            only_case,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            start: Instant::now(),
            evaluations: AtomicU64::new(0),
            counters: Mutex::default(),
            maxima: Mutex::default(),
            distinct: Mutex::default(),
            distinct_sets: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            inconclusive: Mutex::default(),
            exhaustive: AtomicBool::new(false),
            bumps: Default::default(),
            scale: AtomicU64::new(1),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `quick` cases at the quick tier, `thorough` at the thorough one.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let scale = self.scale.load(Ordering::Relaxed);
        if self.thorough() { thorough * scale } else { quick * scale }
    }
    pub fn set_scale(&self, k: u64) {
        self.scale.store(k, Ordering::Relaxed);
    }
    pub fn set_exhaustive(&self) {
        self.exhaustive.store(true, Ordering::Relaxed);
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    pub fn eval(&self, n: u64) {
        self.evaluations.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, key: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        if let Some(v) = c.get_mut(key) {
            *v += n;
        } else {
            c.insert(key.to_string(), n);
        }
    }
    /// A counter for the hot path, named when `flush_bumps` is called.
    pub fn bump(&self, i: usize) {
        self.bumps[i].fetch_add(1, Ordering::Relaxed);
    }
    pub fn flush_bumps(&self, names: &[&str]) {
        for (b, n) in self.bumps.iter().zip(names) {
            self.count(n, b.swap(0, Ordering::Relaxed));
        }
    }
    pub fn counter(&self, key: &str) -> u64 {
        self.counters.lock().unwrap().get(key).copied().unwrap_or(0)
    }
    pub fn maximum(&self, key: &str, v: u64) {
        let mut m = self.maxima.lock().unwrap();
        let e = m.entry(key.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    /// One non-trivial case, identified by the hash of what was observed.
    pub fn distinct(&self, h: u64) {
        self.distinct.lock().unwrap().insert(h);
    }
    pub fn distinct_in(&self, set: &str, h: u64) {
        let mut s = self.distinct_sets.lock().unwrap();
        if let Some(x) = s.get_mut(set) {
            x.insert(h);
        } else {
            s.insert(set.to_string(), HashSet::from([h]));
        }
    }
    /// As `distinct_in`, for the hot path: remembers per thread what it already reported.
    pub fn distinct_cheap(&self, set: &'static str, v: u64) {
        thread_local! {
            static SEEN: std::cell::RefCell<HashSet<(&'static str, u64)>> = std::cell::RefCell::default();
        }
        if SEEN.with(|s| s.borrow_mut().insert((set, v))) {
            self.distinct_in(set, v);
        }
    }
    pub fn distinct_count(&self, set: &str) -> usize {
        self.distinct_sets.lock().unwrap().get(set).map_or(0, |s| s.len())
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let s = s();
            v.push(s);
        }
    }
    pub fn violation(&self, case: u64, b: Bad) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            eprintln!("violation in case {case}: {} -- {}", b.what, b.detail);
            v.push(Violation { case, what: b.what, detail: b.detail });
        }
    }
    pub fn has_violation(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    pub fn inconclusive(&self, why: impl Into<String>) {
        let why = why.into();
        eprintln!("inconclusive: {why}");
        self.inconclusive.lock().unwrap().push(why);
    }
    /// A floor on what must have been observed; below it the run decided nothing.
    pub fn require(&self, key: &str, min: u64) {
        if self.only_case.is_some() || self.has_violation() {
            return;
        }
        let have = self.counter(key);
        if have < min {
            self.inconclusive(format!("only {have} x '{key}' observed, {min} required"));
        }
    }

    /// Runs `cases` cases over all cores. A case that uses more than `cpu_limit` seconds of its own
    /// thread's processor time has not terminated (a case takes a small fraction of that).
    pub fn run<F>(self: &Arc<Self>, stream: &'static str, cases: u64, cpu_limit: u64, f: F)
    where
        F: Fn(&Ctx, u64, &mut Rng) -> Result<(), Bad> + Send + Sync + 'static,
    {
        let base = hash64(stream.as_bytes()) % 1_000_000 * 1_000_000_000;
        let f = Arc::new(f);
        let next = Arc::new(AtomicU64::new(0));
        let finished = Arc::new(AtomicUsize::new(0));
        struct Slot {
            case: AtomicU64,
            tid: AtomicU64,
            cpu_at_start: AtomicU64,
        }
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..self.threads)
                .map(|_| Slot {
                    case: AtomicU64::new(u64::MAX),
                    tid: AtomicU64::new(0),
                    cpu_at_start: AtomicU64::new(0),
                })
                .collect(),
        );
        for t in 0..self.threads {
            let (ctx, f, next, finished, slots) =
                (self.clone(), f.clone(), next.clone(), finished.clone(), slots.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    slots[t].tid.store(gettid(), Ordering::SeqCst);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || ctx.violations.lock().unwrap().len() >= 3 {
                            break;
                        }
                        if let Some(only) = ctx.only_case {
                            if only != base + i {
                                continue;
                            }
                        }
                        slots[t].cpu_at_start.store(thread_cpu_ticks(gettid()), Ordering::SeqCst);
                        slots[t].case.store(i, Ordering::SeqCst);
                        let mut rng = Rng::of(ctx.seed, stream, i);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ctx, base + i, &mut rng)));
                        slots[t].case.store(u64::MAX, Ordering::SeqCst);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(b)) => ctx.violation(base + i, b),
                            Err(_) => ctx.inconclusive(format!("harness panicked in case {}", base + i)),
                        }
                    }
                    finished.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        let mut stuck: HashSet<usize> = HashSet::new();
        while finished.load(Ordering::SeqCst) + stuck.len() < self.threads {
            std::thread::sleep(Duration::from_millis(5));
            for (t, s) in slots.iter().enumerate() {
                let case = s.case.load(Ordering::SeqCst);
                if case == u64::MAX || stuck.contains(&t) {
                    continue;
                }
                let started = s.cpu_at_start.load(Ordering::SeqCst);
                let now = thread_cpu_ticks(s.tid.load(Ordering::SeqCst));
                if s.case.load(Ordering::SeqCst) == case && now.saturating_sub(started) > cpu_limit * 100 {
                    stuck.insert(t);
                    self.violation(
                        base + case,
                        Bad {
                            what: "does not terminate".into(),
                            detail: format!("still running after {cpu_limit} s of processor time in case {case} of '{stream}'"),
                        },
                    );
                }
            }
        }
    }

    /// Prints the verdict, writes evidence and replay files, and exits.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> ! {
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let violations = self.violations.lock().unwrap().clone();
        let inconclusive = self.inconclusive.lock().unwrap().clone();
        let mut cov = String::new();
        let _ = write!(cov, "\"evaluations\":{},", self.evaluations.load(Ordering::Relaxed));
        let _ = write!(cov, "\"distinct_nontrivial\":{},", self.distinct.lock().unwrap().len());
        let _ = write!(cov, "\"rule\":{},", jstr(rule));
        if self.exhaustive.load(Ordering::Relaxed) {
            cov.push_str("\"exhaustive\":true,");
        }
        let _ = write!(
            cov,
            "\"samples\":[{}],",
            self.samples.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        );
        let obs: Vec<String> = self
            .counters
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v))
            .collect();
        let _ = write!(cov, "\"observed\":{{{}}},", obs.join(","));
        let mx: Vec<String> =
            self.maxima.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let _ = write!(cov, "\"maxima\":{{{}}},", mx.join(","));
        let ds: Vec<String> = self
            .distinct_sets
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}:{}", jstr(k), v.len()))
            .collect();
        let _ = write!(cov, "\"distinct\":{{{}}},", ds.join(","));
        let _ = write!(
            cov,
            "\"inconclusive\":[{}]",
            inconclusive.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        );
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            jstr(&self.property),
            jstr(if self.thorough() { "thorough" } else { "quick" }),
            self.seed,
            jstr(level),
            cov,
            assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            self.start.elapsed().as_secs_f64(),
            violations.len()
        );
        let path = std::env::var("VERIF_EVIDENCE_OUT")
            .unwrap_or_else(|_| format!("{verif}/evidence/{}.json", self.property));
        if let Some(d) = std::path::Path::new(&path).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&path, ev).expect("cannot write evidence");
        for (k, v) in self.counters.lock().unwrap().iter() {
            println!("  observed {k}: {v}");
        }
        println!(
            "  evaluations {}  distinct {}  wall {:.1}s",
            self.evaluations.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64()
        );
        use std::io::Write as _;
        if !violations.is_empty() {
            let _ = std::fs::create_dir_all(format!("{verif}/replays"));
            for (i, v) in violations.iter().enumerate() {
                let path = format!("{verif}/replays/{}-{}-{}.json", self.property, self.seed, i);
                let _ = std::fs::write(
                    &path,
                    format!(
                        "{{\"property\":{},\"crate\":{},\"tier\":{},\"seed\":{},\"case\":{},\"what\":{},\"detail\":{}}}\n",
                        jstr(&self.property),
                        jstr(&std::env::var("VERIF_CRATE").unwrap_or_default()),
                        jstr(&self.tier),
                        self.seed,
                        v.case,
                        jstr(&v.what),
                        jstr(&v.detail)
                    ),
                );
                println!("  {}: {}", v.what, v.detail);
                println!("VIOLATION property={} replay={}", self.property, path);
            }
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        if !inconclusive.is_empty() {
            println!("INCONCLUSIVE property={}", self.property);
            let _ = std::io::stdout().flush();
            std::process::exit(2);
        }
        println!("HELD property={} on what was explored", self.property);
        let _ = std::io::stdout().flush();
        std::process::exit(0);
    }
}

pub fn gettid() -> u64 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// Processor time of one of our own threads, in clock ticks (100 per second).
pub fn thread_cpu_ticks(tid: u64) -> u64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return 0 };
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

/// Processor time of the calling thread.
pub fn thread_cpu() -> Duration {
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut ts = [0i64; 2];
    // SAFETY: `ts` has the layout of a timespec on the 64-bit Linux this runs on.
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    Duration::new(ts[0] as u64, ts[1] as u32)
}
