//! Monitoring framework shared by all checks: deterministic case generation,
//! panic capture, coverage accounting, evidence and verdict reporting.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub mod rng;
pub mod small;
pub use rng::VRng;

pub type Res = Result<(), String>;

/// Fails the current case with a message when the condition does not hold.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)+) => { if !($c) { return Err(format!($($t)+)); } };
}
/// Fails the current case when the two values differ.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)+), a, b)); }
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take());
            let m = m.unwrap_or_else(|| {
                e.downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_else(|| "panic".into())
            });
            Err(m)
        }
    }
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-style, stable across runs.
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<String>>,
}

/// One generated case: its own random stream and coverage recorder.
pub struct Case {
    pub rng: VRng,
    pub idx: usize,
    pub tier: Tier,
    st: Stats,
}
impl Case {
    /// Records one oracle evaluation on a non-trivial distinct input/state.
    pub fn seen<T: Hash + ?Sized>(&mut self, key: &T) {
        self.st.evals += 1;
        self.st.distinct.insert(hash64(key));
    }
    /// Records an oracle evaluation that is not counted as non-trivial.
    pub fn eval(&mut self) {
        self.st.evals += 1;
    }
    pub fn event(&mut self, k: &str, n: u64) {
        *self.st.events.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, group: &str, s: impl FnOnce() -> String) {
        let v = self.st.samples.entry(group.to_string()).or_default();
        if v.len() < 2 {
            let mut x = s();
            if x.len() > 600 {
                let mut k = 600;
                while !x.is_char_boundary(k) {
                    k -= 1;
                }
                x.truncate(k);
            }
            v.push(x);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.rng.below(v.len());
        &v[i]
    }
}

struct Violation {
    label: String,
    msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    budget: Duration,
    dir: String,
    only: Option<String>,
    st: Mutex<Stats>,
    viol: Mutex<Vec<Violation>>,
    rule: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<BTreeMap<String, u64>>,
    truncated: AtomicUsize,
    stop: AtomicBool,
    threads: usize,
    inconclusive: Mutex<Vec<String>>,
}

impl Ctx {
    fn new(prop: &str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let budget = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 40.0 } else { 900.0 });
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs_f64(budget),
            dir,
            only: std::env::var("VERIF_ONLY").ok(),
            st: Default::default(),
            viol: Default::default(),
            rule: Default::default(),
            assumptions: Default::default(),
            extra: Default::default(),
            truncated: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            threads,
            inconclusive: Default::default(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` cases in the quick tier, `t` in the thorough one.
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.quick() { q } else { t }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn rule(&self, s: &str) {
        self.rule.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn inconclusive(&self, s: &str) {
        self.inconclusive.lock().unwrap().push(s.into());
    }
    pub fn events(&self, k: &str) -> u64 {
        self.st.lock().unwrap().events.get(k).copied().unwrap_or(0)
    }
    fn crumb(&self, label: &str) {
        if let Ok(p) = std::env::var("VERIF_CRUMB") {
            let id = format!("{:?}", std::thread::current().id());
            let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
            let _ = std::fs::write(format!("{p}.{id}"), label);
        }
    }
    fn uncrumb(&self) {
        if let Ok(p) = std::env::var("VERIF_CRUMB") {
            let id = format!("{:?}", std::thread::current().id());
            let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
            let _ = std::fs::remove_file(format!("{p}.{id}"));
        }
    }
    fn one(&self, label: &str, idx: usize, f: &dyn Fn(&mut Case) -> Res) {
        let full = format!("{label}#{idx}");
        if let Some(o) = &self.only {
            if *o != full {
                return;
            }
        }
        self.crumb(&full);
        let mut c = Case {
            rng: VRng::new(hash64(&(self.seed, self.prop.as_str(), full.as_str()))),
            idx,
            tier: self.tier,
            st: Stats::default(),
        };
        let r = match catch(|| f(&mut c)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected panic: {p}")),
        };
        self.uncrumb();
        {
            let mut st = self.st.lock().unwrap();
            st.evals += c.st.evals;
            st.distinct.extend(c.st.distinct.drain());
            for (k, v) in std::mem::take(&mut c.st.events) {
                *st.events.entry(k).or_default() += v;
            }
            for (k, v) in std::mem::take(&mut c.st.samples) {
                let e = st.samples.entry(k).or_default();
                for s in v {
                    if e.len() < 2 {
                        e.push(s);
                    }
                }
            }
        }
        if let Err(mut msg) = r {
            if msg.len() > 1500 {
                let cut = |mut k: usize| {
                    while !msg.is_char_boundary(k) {
                        k -= 1;
                    }
                    k
                };
                let (a, b) = (cut(900), cut(msg.len() - 500));
                msg = format!("{} [...] {}", &msg[..a], &msg[b..]);
            }
            eprintln!("[{}] case {full} failed: {msg}", self.prop);
            self.viol.lock().unwrap().push(Violation { label: full, msg });
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    /// Runs `n` independent cases on all cores. Cases beyond the time budget
    /// are dropped and counted in the evidence.
    pub fn cases(&self, label: &str, n: usize, f: impl Fn(&mut Case) -> Res + Sync) {
        let next = AtomicUsize::new(0);
        let th = self.threads.min(n).max(1);
        std::thread::scope(|s| {
            for _ in 0..th {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || self.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            if self.out_of_time() && i > 0 {
                                self.truncated.fetch_add(1, Ordering::SeqCst);
                                continue;
                            }
                            self.one(label, i, &f);
                        }
                    })
                    .unwrap();
            }
        });
    }
    /// Same, on the calling thread only (for workloads that own global state).
    pub fn serial(&self, label: &str, n: usize, f: impl Fn(&mut Case) -> Res) {
        for i in 0..n {
            if self.stop.load(Ordering::SeqCst) {
                break;
            }
            if self.out_of_time() && i > 0 {
                self.truncated.fetch_add(1, Ordering::SeqCst);
                continue;
            }
            self.one(label, i, &f);
        }
    }
    fn finish(&self) -> i32 {
        let st = self.st.lock().unwrap();
        let viol = self.viol.lock().unwrap();
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
            q(&self.prop),
            q(if self.quick() { "quick" } else { "thorough" }),
            self.seed
        ));
        j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evals, st.distinct.len()));
        j.push_str(&format!("  \"rule\": {},\n", q(&self.rule.lock().unwrap().join(" "))));
        let mut samples = vec![];
        for (k, v) in &st.samples {
            for s in v {
                samples.push(q(&format!("{k}: {s}")));
            }
        }
        j.push_str(&format!("  \"samples\": [\n   {}\n  ],\n", samples.join(",\n   ")));
        let ev: Vec<String> = st.events.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
        j.push_str(&format!("  \"observed_events\": {{{}}},\n", ev.join(", ")));
        let ex: Vec<String> = self.extra.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
        j.push_str(&format!("  \"counts\": {{{}}},\n", ex.join(", ")));
        j.push_str(&format!("  \"cases_dropped_for_time\": {}\n }},\n", self.truncated.load(Ordering::SeqCst)));
        let asm: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| q(s)).collect();
        j.push_str(&format!(" \"assumptions\": [{}],\n", asm.join(", ")));
        j.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), viol.len()));
        let ev_path = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", self.dir, self.prop));
        if let Some(p) = std::path::Path::new(&ev_path).parent() {
            let _ = std::fs::create_dir_all(p);
        }
        std::fs::write(&ev_path, j).expect("write evidence");
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1}s",
            self.prop,
            st.evals,
            st.distinct.len(),
            viol.len(),
            self.start.elapsed().as_secs_f64()
        );
        if let Some(v) = viol.first() {
            let dir = format!("{}/evidence/replays", self.dir);
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}.json", self.prop);
            let body = format!(
                "{{\n \"property\": {},\n \"case\": {},\n \"seed\": {},\n \"tier\": {},\n \"what\": {},\n \"replay\": {}\n}}\n",
                q(&self.prop),
                q(&v.label),
                self.seed,
                q(if self.quick() { "quick" } else { "thorough" }),
                q(&v.msg),
                q(&format!(
                    "VERIF_SEED={} VERIF_TIER={} VERIF_ONLY='{}' {}/check {}",
                    self.seed,
                    if self.quick() { "quick" } else { "thorough" },
                    v.label,
                    self.dir,
                    self.prop
                ))
            );
            let _ = std::fs::write(&path, body);
            println!("{}: {}", v.label, v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
            let _ = std::io::stdout().flush();
            return 1;
        }
        let inc = self.inconclusive.lock().unwrap();
        if !inc.is_empty() {
            println!("INCONCLUSIVE {}: {}", self.prop, inc.join("; "));
            return 2;
        }
        if st.evals == 0 && self.only.is_none() {
            println!("INCONCLUSIVE {}: nothing was observed", self.prop);
            return 2;
        }
        0
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of every check binary: `<bin> <PROPERTY>`.
pub fn main(table: &[(&str, fn(&Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let want = args.get(1).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
    for (id, f) in table {
        if *id == want {
            let ctx = Ctx::new(id);
            let r = catch(|| f(&ctx));
            if let Err(p) = r {
                println!("harness error in {id}: {p}");
                std::process::exit(3);
            }
            std::process::exit(ctx.finish());
        }
    }
    eprintln!("unknown property {want}");
    std::process::exit(3);
}
