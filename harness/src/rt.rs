//! Run context: counters, verdicts, evidence, panic monitor, hang watchdog, virtual wall clock.
#![allow(dead_code)]

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};

// ---------------------------------------------------------------- virtual wall clock

static CLOCK_OFFSET: AtomicI64 = AtomicI64::new(0);

/// Shadows libc's `clock_gettime` for the whole process, so `SystemTime::now()` inside the code
/// under test follows a clock the harness can move. The monotonic clock is untouched.
#[cfg(not(feature = "realclock"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, tp) as libc::c_int;
    if r == 0 && clk == libc::CLOCK_REALTIME {
        (*tp).tv_sec += CLOCK_OFFSET.load(Ordering::Relaxed);
    }
    r
}

/// Moves the wall clock of this process forwards (or backwards).
pub fn clock_shift(secs: i64) {
    CLOCK_OFFSET.fetch_add(secs, Ordering::SeqCst);
}
pub fn clock_reset() {
    CLOCK_OFFSET.store(0, Ordering::SeqCst);
}
pub fn clock_is_virtual() -> bool {
    let a = unix_now();
    clock_shift(1000);
    let b = unix_now();
    clock_shift(-1000);
    b >= a + 999
}
pub fn unix_now() -> u32 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs() as u32
}

// ---------------------------------------------------------------- panics

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
static HARNESS_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| (l.file().to_string(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let text = format!("{}:{}: {}", loc.0, loc.1, msg);
        // A panic inside a library counts for the code under test only if that called it
        let ours = loc.0.starts_with("src/")
            || (!loc.0.contains("/repo/src/") && std::thread::current().name() != Some("node") && {
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                !bt.contains("everscale_network")
            });
        if ours {
            eprintln!("HARNESS PANIC {text}");
            HARNESS_PANICS.lock().unwrap().push(text);
        } else {
            eprintln!("PANIC {text}");
            let file = loc.0.rsplit("/repo/").next().unwrap_or(&loc.0).to_string();
            let file = file.rsplit("/registry/src/").next().unwrap_or(&file).to_string();
            PANICS.lock().unwrap().push((file, text));
        }
    }));
}

pub fn panic_count() -> usize {
    PANICS.lock().unwrap().len()
}
pub fn take_panics() -> Vec<(String, String)> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, String>,
    inconclusive: Vec<String>,
    assumptions: Vec<String>,
    ops: BTreeMap<u64, (String, Instant)>,
    rule: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub start: Instant,
    pub dir: std::path::PathBuf,
    slack: u64,
    known_sigs: Vec<String>,
    next_op: AtomicU64,
    finished: AtomicBool,
    inner: Mutex<Inner>,
}

pub type C = Arc<Ctx>;

pub struct OpGuard<'a>(&'a Ctx, u64);
impl Drop for OpGuard<'_> {
    fn drop(&mut self) {
        self.0.inner.lock().unwrap().ops.remove(&self.1);
    }
}

impl Ctx {
    pub fn new(prop: &str) -> C {
        let dir: std::path::PathBuf = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let known = std::fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
        let known_sigs = known
            .lines()
            .filter(|l| l.starts_with(&format!("known: property={prop} ")))
            .filter_map(|l| l.split_whitespace().find_map(|w| w.strip_prefix("sig=")))
            .map(|s| s.to_string())
            .collect();
        Arc::new(Ctx {
            prop: prop.into(),
            seed,
            tier,
            start: Instant::now(),
            dir,
            slack: std::env::var("EVMON_SLACK").ok().and_then(|x| x.parse().ok()).unwrap_or(5),
            known_sigs,
            next_op: AtomicU64::new(0),
            finished: AtomicBool::new(false),
            inner: Default::default(),
        })
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` on the quick tier, `t` on the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
    /// Whether less than `q` (quick) or `t` (thorough) seconds have passed and nothing is broken yet.
    pub fn within(&self, q: u64, t: u64) -> bool {
        // a slow machine gets more time for the same number of rounds
        let slack = if self.quick() { self.slack } else { 1 };
        self.start.elapsed() < Duration::from_secs(self.pick(q, t) * slack) && !self.violated()
    }
    pub fn rng(&self, stream: u64) -> SmallRng {
        SmallRng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03))
    }

    /// One evaluated case; `sig` identifies it for the count of distinct cases.
    pub fn case(&self, sig: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        sig.hash(&mut h);
        let mut i = self.inner.lock().unwrap();
        i.evaluations += 1;
        i.distinct.insert(h.finish());
    }
    /// One evaluated case that counts as trivial.
    pub fn trivial(&self) {
        self.inner.lock().unwrap().evaluations += 1;
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.into()).or_default() += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(v);
        }
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rule = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    pub fn violation(&self, sig: &str, detail: impl Into<String>) {
        let detail = detail.into();
        let mut i = self.inner.lock().unwrap();
        if self.known_sigs.iter().any(|k| k == sig) {
            i.known.entry(sig.into()).or_insert(detail);
        } else {
            if i.violations.len() < 12 {
                eprintln!("violation {sig}: {detail}");
            }
            i.violations.push((sig.into(), detail));
        }
    }
    pub fn inconclusive(&self, what: impl Into<String>) {
        let w = what.into();
        eprintln!("inconclusive: {w}");
        self.inner.lock().unwrap().inconclusive.push(w);
    }
    /// A run that observed too little is not a verdict.
    pub fn require(&self, counter: &str, min: u64) {
        let v = self.counter(counter);
        if v < min && !self.violated() {
            self.inconclusive(format!("observed only {v} of at least {min} '{counter}'"));
        }
    }
    /// Marks an operation that has to return; one outstanding for more than a minute is a hang.
    pub fn op(&self, name: &str) -> OpGuard<'_> {
        let id = self.next_op.fetch_add(1, Ordering::Relaxed);
        self.inner.lock().unwrap().ops.insert(id, (name.into(), Instant::now()));
        OpGuard(self, id)
    }
    /// Turns panics recorded in the code under test into violations.
    pub fn check_panics(&self, what: &str) {
        for (file, text) in take_panics() {
            self.violation(&format!("panic@{file}"), format!("panic during {what}: {text}"));
        }
    }

    /// Writes the evidence, prints the verdict and exits the process.
    pub fn finish(&self) -> ! {
        if self.finished.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        self.check_panics("the workload");
        let i = self.inner.lock().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut coverage = serde_json::Map::new();
        coverage.insert("evaluations".into(), json!(i.evaluations));
        coverage.insert("distinct_nontrivial".into(), json!(i.distinct.len()));
        coverage.insert("rule".into(), json!(i.rule));
        coverage.insert("samples".into(), json!(i.samples));
        let mut counters = i.counters.clone();
        if logged() > 0 {
            counters.insert("log_events_formatted".into(), logged());
        }
        coverage.insert("observed".into(), json!(counters));
        let ev = json!({
            "property": self.prop,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": i.assumptions,
            "wall_s": wall,
            "violations": i.violations.len(),
            "inconclusive": i.inconclusive,
            "known_findings_seen": i.known,
        });
        let evdir = self.dir.join("evidence");
        std::fs::create_dir_all(&evdir).ok();
        std::fs::write(evdir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).ok();

        println!(
            "{}: {} evaluations, {} distinct, {:.1}s, observed {:?}",
            self.prop, i.evaluations, i.distinct.len(), wall, i.counters
        );
        for (sig, what) in &i.known {
            println!("KNOWN-FINDING: property={} sig={} {}", self.prop, sig, what);
        }
        let mut code = 0;
        if !i.violations.is_empty() {
            let rdir = self.dir.join("replays");
            std::fs::create_dir_all(&rdir).ok();
            let path = rdir.join(format!("{}-{}.json", self.prop, self.seed));
            let v = json!({
                "property": self.prop, "seed": self.seed,
                "tier": format!("{:?}", self.tier).to_lowercase(),
                "replay": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {}", self.seed, format!("{:?}", self.tier).to_lowercase(), self.prop),
                "violations": i.violations.iter().map(|(s, d)| json!({"sig": s, "detail": d})).collect::<Vec<_>>(),
            });
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
            for (s, d) in i.violations.iter().take(5) {
                println!("  violated {s}: {}", d.chars().take(600).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", self.prop, path.display());
            code = 1;
        } else {
            let hp = HARNESS_PANICS.lock().unwrap();
            for p in hp.iter() {
                println!("HARNESS-ERROR property={} {p}", self.prop);
            }
            for p in &i.inconclusive {
                println!("INCONCLUSIVE property={} {p}", self.prop);
            }
            if !hp.is_empty() || !i.inconclusive.is_empty() || i.evaluations == 0 {
                code = 2;
            } else {
                println!("OK property={}", self.prop);
            }
        }
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(code)
    }

    /// Hang detection (outstanding operations) and an overall cap whose firing is inconclusive.
    pub fn start_watchdog(self: &Arc<Self>, cap: Duration) {
        let ctx = self.clone();
        // (the clean-up after a violation may itself hang)
        let (mut bad, mut still, mut last) = (0, 0, (0, 0, 0));
        std::thread::spawn(move || loop {
            let t = Instant::now();
            std::thread::sleep(Duration::from_millis(500));
            let now = {
                let i = ctx.inner.lock().unwrap();
                bad += !i.violations.is_empty() as u32;
                (i.evaluations, i.counters.values().sum::<u64>(), i.distinct.len())
            };
            if bad > 60 {
                ctx.finish();
            }
            // counted in wakeups that came in time, so that a starved machine does not count
            still = match now == last {
                true if t.elapsed() < Duration::from_millis(800) => still + 1,
                true => still,
                false => 0,
            };
            last = now;
            if still > ctx.pick(300, 1000) {
                ctx.violation("hang/no-progress", "the workload came to a standstill: what the node under test has to do does not happen");
                ctx.finish();
            }
            let hung = {
                let i = ctx.inner.lock().unwrap();
                i.ops
                    .values()
                    .find(|(_, t)| t.elapsed() > Duration::from_secs(60))
                    .map(|(n, t)| (n.clone(), t.elapsed()))
            };
            if let Some((name, t)) = hung {
                ctx.violation(&format!("hang/{name}"), format!("operation '{name}' did not return for {t:?}"));
                ctx.finish();
            }
            if ctx.start.elapsed() > cap {
                let ops: Vec<String> = ctx.inner.lock().unwrap().ops.values().map(|(n, _)| n.clone()).collect();
                ctx.inconclusive(format!("watchdog after {cap:?}; outstanding: {ops:?}"));
                ctx.finish();
            }
        });
    }
}

pub fn rand_bytes(rng: &mut impl Rng, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    rng.fill(v.as_mut_slice());
    v
}
pub fn rand32(rng: &mut impl Rng) -> [u8; 32] {
    rng.gen()
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn sha256(d: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(d).into()
}

/// CPU time (in clock ticks) used so far by each runtime thread whose name starts with `prefix`.
fn thread_ticks(prefix: &str) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for e in dir.flatten() {
            let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
            let (Some(a), Some(b)) = (s.find('('), s.rfind(')')) else { continue };
            if !s[a + 1..b].starts_with(prefix) {
                continue;
            }
            let f: Vec<&str> = s[b + 2..].split_whitespace().collect();
            let t = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
            out.insert(e.file_name().to_string_lossy().into_owned(), t);
        }
    }
    out
}

/// While nothing is being sent, no node thread should stay busy: reports a thread that used
/// most of several consecutive windows.
pub async fn spinning(prefix: &str) -> Option<String> {
    let mut busy: BTreeMap<String, u32> = BTreeMap::new();
    for round in 0..4 {
        let a = thread_ticks(prefix);
        tokio::time::sleep(Duration::from_millis(500)).await;
        let b = thread_ticks(prefix);
        let mut any = false;
        for (k, v) in &b {
            // 50 ticks per window at 100 Hz is fully busy
            if v.saturating_sub(*a.get(k).unwrap_or(v)) >= 35 {
                *busy.entry(k.clone()).or_default() += 1;
                any = true;
            }
        }
        if !any {
            return None;
        }
        let _ = round;
    }
    // tasks may migrate between threads
    if busy.values().sum::<u32>() >= 4 {
        Some(format!("{busy:?}"))
    } else {
        None
    }
}

// ---------------------------------------------------------------- log output

/// Formats every event the code under test logs, so that what only runs with logging enabled runs too.
struct Sink;
static LOGGED: AtomicU64 = AtomicU64::new(0);

struct Fields(usize);
impl tracing::field::Visit for Fields {
    fn record_debug(&mut self, _: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        self.0 += format!("{value:?}").len();
    }
}
impl tracing::Subscriber for Sink {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("everscale_network")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields(0);
        e.record(&mut f);
        LOGGED.fetch_add((f.0 > 0) as u64, Ordering::Relaxed);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn with_logging() {
    tracing::subscriber::set_global_default(Sink).ok();
}
pub fn logged() -> u64 {
    LOGGED.load(Ordering::Relaxed)
}
