//! Shared plumbing of the monitors: seeded randomness, verdicts, evidence and replay files.
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

/// xoshiro256** seeded by splitmix64: small, fast, reproducible.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut s = [0u64; 4];
        for v in &mut s {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = x ^ (x >> 31);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi - lo == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        self.fill(&mut b);
        b
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.idx(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// What running a piece of the code under test did.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome<T> {
    Ret(T),
    Panic(String),
}

impl<T> Outcome<T> {
    pub fn ret(self) -> Option<T> {
        match self {
            Outcome::Ret(t) => Some(t),
            Outcome::Panic(_) => None,
        }
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, Outcome::Panic(_))
    }
}

thread_local! { static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
static HOOK: Once = Once::new();
/// Since when each thread has been inside observed code.
static RUNNING: Mutex<Vec<(std::thread::ThreadId, Instant)>> = Mutex::new(Vec::new());
/// An observed call that takes this long does not answer at all: nothing the monitors do takes seconds.
const HANGS: Duration = Duration::from_secs(300);

fn watch_for_hangs(property: String, seed: u64, root: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(5));
        let stuck = RUNNING.lock().unwrap().iter().any(|t| t.1.elapsed() > HANGS);
        if stuck {
            let dir = root.join("evidence").join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{property}-hang.json"));
            let what = "a call of the observed code does not return";
            let _ = std::fs::write(&path, json!({"property": property, "seed": seed, "what": what}).to_string());
            println!("hang: {what}\nVIOLATION property={property} replay={}", path.display());
            std::process::exit(1);
        }
    });
}

fn install_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) == 0 {
                old(i)
            }
        }));
    });
}

/// Runs `f`, turning a panic into a value. The panic message is kept but not printed.
pub fn observe<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    install_hook();
    let depth = QUIET.with(|q| q.replace(q.get() + 1));
    if depth == 0 {
        RUNNING.lock().unwrap().push((std::thread::current().id(), Instant::now()));
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if depth == 0 {
        RUNNING.lock().unwrap().retain(|t| t.0 != std::thread::current().id());
    }
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(t) => Outcome::Ret(t),
        Err(e) => Outcome::Panic(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }),
    }
}

struct StableHasher(u64);
impl Hasher for StableHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
}
pub fn fingerprint<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = StableHasher(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One run of one property's monitor.
pub struct Monitor {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    budget: Duration,
    evaluations: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    required: Vec<(String, u64)>,
    samples: Vec<Value>,
    rule: String,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, (String, u64)>,
    violation: Option<(String, Value)>,
    violations: u64,
    root: PathBuf,
}

impl Monitor {
    /// `quick`/`thorough`: wall-clock budget in seconds of the sampling loops.
    pub fn new(property: &str, quick: u64, thorough: u64, rule: &str) -> Self {
        install_hook();
        // symbolizing a backtrace takes longer than most of what is observed (here and in the processes started)
        std::env::set_var("RUST_BACKTRACE", "0");
        let env = |k: &str| std::env::var(k).ok();
        let tier = match env("VERIF_TIER").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut budget = if tier == Tier::Quick { quick } else { thorough };
        if let Some(b) = env("VERIF_BUDGET").and_then(|s| s.parse().ok()) {
            budget = b;
        }
        let root = PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| "/verif".into()));
        let known = std::fs::read_to_string(root.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // finding: property=<id> key=<key> <description>
                let l = l.trim().strip_prefix("finding: ")?;
                let mut it = l.splitn(3, ' ');
                let p = it.next()?.strip_prefix("property=")?.to_string();
                let k = it.next()?.strip_prefix("key=")?.to_string();
                (p == property).then(|| (k, it.next().unwrap_or("").to_string()))
            })
            .collect();
        static WATCH: Once = Once::new();
        WATCH.call_once(|| watch_for_hangs(property.into(), seed, root.clone()));
        Monitor {
            property: property.into(),
            tier,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            evaluations: 0,
            distinct: HashSet::new(),
            events: BTreeMap::new(),
            required: vec![],
            samples: vec![],
            rule: rule.into(),
            assumptions: vec![],
            known,
            known_hit: BTreeMap::new(),
            violation: None,
            violations: 0,
            root,
        }
    }
    pub fn rng(&self, stream: &str) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x9E37_79B9) ^ fingerprint(stream))
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() { thorough } else { quick }
    }
    /// True while this workload should continue: below `max` iterations, within its share of the
    /// budget (or, for the last one, still short of a required observation), and nothing violated yet. The first few iterations always run.
    pub fn go(&self, i: u64, min: u64, max: u64, share: f64) -> bool {
        if self.violation.is_some() || i >= max {
            return false;
        }
        let t = self.start.elapsed().as_secs_f64();
        let b = self.budget.as_secs_f64();
        // on a slow machine the last workload goes on until everything required was observed
        i < min || t < b * share || (share >= 1.0 && t < 4.0 * b && !self.complete())
    }
    fn complete(&self) -> bool {
        self.required.iter().all(|(n, k)| self.count(n) >= *k) && self.known.iter().all(|(k, _)| self.known_hit.contains_key(k))
    }
    pub fn violated(&self) -> bool {
        self.violation.is_some()
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    /// Count one evaluated case. `fp` identifies it; `nontrivial` by the stated rule.
    pub fn case<T: Hash + ?Sized>(&mut self, fp: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 5_000_000 {
            self.distinct.insert(fingerprint(fp));
        }
    }
    pub fn event(&mut self, name: &str) {
        self.events_n(name, 1)
    }
    pub fn events_n(&mut self, name: &str, n: u64) {
        if let Some(c) = self.events.get_mut(name) {
            *c += n
        } else {
            self.events.insert(name.into(), n);
        }
    }
    pub fn count(&self, name: &str) -> u64 {
        self.events.get(name).copied().unwrap_or(0)
    }
    /// The run is inconclusive unless event `name` was seen at least `n` times.
    pub fn require(&mut self, name: &str, n: u64) {
        self.required.push((name.into(), n));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 6 {
            let v = shorter(f(), 40);
            if v.to_string().len() < 20_000 {
                self.samples.push(v);
            }
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.samples.len() < 6
    }
    /// Report a violation. `key` is the exact signature matched against the known findings.
    pub fn violate(&mut self, key: &str, what: &str, detail: Value) {
        if let Some((k, d)) = self.known.iter().find(|(k, _)| k == key) {
            let e = self.known_hit.entry(k.clone()).or_insert((d.clone(), 0));
            e.1 += 1;
            return;
        }
        self.violations += 1;
        if self.violation.is_none() {
            self.violation = Some((
                format!("{key}: {what}"),
                json!({"key": key, "what": what, "detail": detail}),
            ));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            let d = detail();
            self.violate(key, what, d);
        }
        ok
    }
    /// Print what was observed, write the evidence file and return the exit code.
    pub fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut missing = vec![];
        if self.violation.is_none() {
            for (n, k) in &self.required {
                let c = self.count(n);
                if c < *k {
                    missing.push(format!("{n}: {c} < {k}"));
                }
            }
            if self.evaluations == 0 {
                missing.push("no evaluation".into());
            }
        }
        if self.samples.is_empty() {
            self.samples.push(json!("none"));
        }
        let mut cov = Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("events_observed".into(), json!(self.events));
        cov.insert("known_findings_seen".into(), json!(self.known_hit.iter().map(|(k, v)| (k.clone(), v.1)).collect::<BTreeMap<_, _>>()));
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": std::env::var("VERIF_LEVEL").unwrap_or_else(|_| "exploration".into()),
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": self.violations,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.property));
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write {}: {e}", path.display());
            return 2;
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {:.1}s; observed {}",
            self.property,
            self.evaluations,
            self.distinct.len(),
            wall,
            self.events.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        for (k, (d, n)) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {k} {d} (seen {n} times)", self.property);
        }
        if let Some((what, detail)) = &self.violation {
            let rdir = dir.join("replay");
            let _ = std::fs::create_dir_all(&rdir);
            let rp = rdir.join(format!("{}-{}.json", self.property, self.seed));
            let body = json!({"property": self.property, "seed": self.seed, "tier": ev["tier"],
                "rerun": format!("VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}", self.seed, ev["tier"].as_str().unwrap(), self.property),
                "violation": detail});
            let _ = std::fs::write(&rp, serde_json::to_string_pretty(&body).unwrap());
            println!("{what}");
            println!("VIOLATION property={} replay={}", self.property, rp.display());
            return 1;
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={}: {}", self.property, missing.join("; "));
            return 3;
        }
        0
    }
}

/// a sample for the evidence file: long lists and strings keep their beginning
fn shorter(v: Value, keep: usize) -> Value {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut a: Vec<Value> = a.into_iter().take(keep).map(|x| shorter(x, keep)).collect();
            if n > keep {
                a.push(json!(format!("and {} more", n - keep)));
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, x)| (k, shorter(x, keep))).collect()),
        Value::String(t) if t.chars().count() > 600 => Value::String(format!("{}... ({} bytes)", t.chars().take(500).collect::<String>(), t.len())),
        v => v,
    }
}
