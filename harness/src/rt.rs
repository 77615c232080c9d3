//! Runtime of the checks: seeding, sharding, shrinking, replay, known findings, evidence.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config as PtConfig, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

/// What a check observes about one case
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<String>,
    findings: Vec<(String, String)>,
    maxima: Vec<(&'static str, f64)>,
}

impl Obs {
    /// The case exercises the property
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Count the case under a label
    pub fn label(&mut self, label: impl Into<String>) {
        self.labels.push(label.into());
    }
    /// Record a failure that has the exact signature `sig`
    pub fn finding(&mut self, sig: &str, msg: impl Into<String>) {
        self.findings.push((sig.to_string(), msg.into()));
    }
    /// Track the largest value of a residual (relative to its limit)
    pub fn max(&mut self, name: &'static str, value: f64) {
        self.maxima.push((name, value));
    }
}

pub type Verdict = Result<(), String>;

pub enum Tier {
    Quick,
    Thorough,
}

const SHARDS: usize = 32;

struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    maxima: BTreeMap<&'static str, f64>,
    samples: Vec<Value>,
    findings: BTreeMap<String, (u64, String)>,
}

impl Stats {
    fn new() -> Self {
        Stats {
            evaluations: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: Vec::new(),
            findings: BTreeMap::new(),
        }
    }
    fn add(&mut self, case: &Value, obs: Obs) {
        self.evaluations += 1;
        for label in obs.labels {
            *self.labels.entry(label).or_insert(0) += 1;
        }
        for (name, value) in obs.maxima {
            let entry = self.maxima.entry(name).or_insert(0.);
            if value > *entry || value.is_nan() {
                *entry = value;
            }
        }
        for (sig, msg) in obs.findings {
            self.findings.entry(sig).or_insert((0, msg)).0 += 1;
        }
        if obs.nontrivial {
            let text = case.to_string();
            let mut hasher = std::collections::hash_map::DefaultHasher::new();
            text.hash(&mut hasher);
            self.nontrivial.insert(hasher.finish());
            if self.samples.len() < 2 {
                self.samples.push(case.clone());
            }
        }
    }
    fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.nontrivial.extend(other.nontrivial);
        for (k, v) in other.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.maxima {
            let e = self.maxima.entry(k).or_insert(0.);
            if v > *e || v.is_nan() {
                *e = v;
            }
        }
        for (k, (n, m)) in other.findings {
            self.findings.entry(k).or_insert((0, m)).0 += n;
        }
        for s in other.samples {
            if self.samples.len() < 2 {
                self.samples.push(s);
            }
        }
    }
}

struct Failure {
    leg: String,
    case: Value,
    msg: String,
    origin: Option<PathBuf>,
}

struct LegCtx {
    seed: u64,
    property: String,
    cases: u32,
    threads: usize,
    known: Arc<HashSet<String>>,
    hang: Option<u64>,
    root: PathBuf,
}

type RunLeg = Box<dyn Fn(&LegCtx) -> (Stats, Option<Failure>)>;
type ReplayLeg = Box<dyn Fn(&Value, &HashSet<String>) -> Result<(Obs, Verdict), String>>;

struct Leg {
    name: String,
    quick: u32,
    thorough: u32,
    may_be_vacuous: bool,
    run: RunLeg,
    hang: Option<u64>,
    replay: ReplayLeg,
}

/// A check of one property
pub struct Check {
    property: String,
    rule: String,
    assumptions: Vec<String>,
    legs: Vec<Leg>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}

/// Raised by the harness inside code called by sett-rs to stop a run that does more work than it may
pub struct Stop(pub String);

static HARNESS_FAULT: Mutex<Option<String>> = Mutex::new(None);

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(Cell::get) {
            let location = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let payload = payload_text(info.payload());
            PANIC.with(|p| *p.borrow_mut() = Some((location, payload)));
        } else {
            default(info);
        }
    }));
}

fn payload_text(payload: &dyn Any) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = payload.downcast_ref::<Stop>() {
        s.0.clone()
    } else {
        "panic".to_string()
    }
}

/// Run `f`, turning a panic into `Err(location, message)`
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    let before = GUARDED.with(|g| g.replace(true));
    let result = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    result.map_err(|payload| {
        if let Some(stop) = payload.downcast_ref::<Stop>() {
            return ("stop".to_string(), stop.0.clone());
        }
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("unknown".to_string(), payload_text(&*payload)))
    })
}

/// A panic raised by harness code says nothing about sett-rs
fn is_harness_location(location: &str) -> bool {
    location.starts_with("src/") || location.contains("/verif/harness/src")
}

fn eval<C>(
    check: &(dyn Fn(&C, &mut Obs) -> Verdict + Send + Sync),
    case: &C,
    known: &HashSet<String>,
) -> (Obs, Verdict) {
    let mut obs = Obs::default();
    let verdict = match guard(|| check(case, &mut obs)) {
        Ok(v) => v,
        Err((location, msg)) => {
            if is_harness_location(&location) {
                let mut fault = HARNESS_FAULT.lock().unwrap();
                if fault.is_none() {
                    *fault = Some(format!("{location}: {msg}"));
                }
                Ok(())
            } else {
                Err(format!("panic at {location}: {msg}"))
            }
        }
    };
    let verdict = verdict.and_then(|()| {
        for (sig, msg) in &obs.findings {
            if !known.contains(sig) {
                return Err(format!("[{sig}] {msg}"));
            }
        }
        Ok(())
    });
    (obs, verdict)
}

fn shard_seed(seed: u64, property: &str, leg: &str, shard: usize) -> [u8; 32] {
    // FNV-1a based expansion; only needs to be stable and well spread
    let mut out = [0u8; 32];
    for (block, chunk) in out.chunks_mut(8).enumerate() {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (block as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let text = format!("{seed}/{property}/{leg}/{shard}/{block}");
        for b in text.bytes() {
            h ^= u64::from(b);
            h = h.wrapping_mul(0x0000_0100_0000_01b3);
            h ^= h >> 29;
        }
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

impl Check {
    pub fn new(property: &str, rule: &str) -> Self {
        Check {
            property: property.to_string(),
            rule: rule.to_string(),
            assumptions: Vec::new(),
            legs: Vec::new(),
        }
    }

    pub fn assume(mut self, text: &str) -> Self {
        self.assumptions.push(text.to_string());
        self
    }

    /// Add a generated leg
    pub fn leg<C, F>(
        mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
        check: F,
    ) -> Self
    where
        C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
        F: Fn(&C, &mut Obs) -> Verdict + Send + Sync + 'static,
    {
        let check = Arc::new(check);
        let check2 = check.clone();
        let leg_name = name.to_string();
        let run: RunLeg = Box::new(move |ctx| run_leg(ctx, &leg_name, &strategy, &*check));
        let replay: ReplayLeg = Box::new(move |value, known| {
            let case: C = serde_json::from_value(value.clone()).map_err(|e| e.to_string())?;
            Ok(eval(&*check2, &case, known))
        });
        self.legs.push(Leg {
            name: name.to_string(),
            quick,
            thorough,
            may_be_vacuous: false,
            run,
            hang: None,
            replay,
        });
        self
    }

    /// The last added leg is allowed to have no non-trivial case
    pub fn may_be_vacuous(mut self) -> Self {
        if let Some(leg) = self.legs.last_mut() {
            leg.may_be_vacuous = true;
        }
        self
    }

    /// A case of the last added leg that isn't decided within so many seconds never ends
    pub fn must_end(mut self, seconds: u64) -> Self {
        if let Some(leg) = self.legs.last_mut() {
            leg.hang = Some(seconds);
        }
        self
    }

    /// Run the check and exit
    pub fn run(self) -> ! {
        let started = Instant::now();
        install_panic_hook();
        let args: Vec<String> = std::env::args().collect();
        let root = std::env::var("VERIF_ROOT")
            .map(PathBuf::from)
            .unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."));
        let seed: u64 = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse().ok())
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let tier_name = match tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let factor: f64 = std::env::var("SETTLAB_FACTOR")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.);
        let only = std::env::var("SETTLAB_LEG").ok();
        let threads = std::env::var("SETTLAB_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(8)
                    .min(8)
            });
        let (known, finding_text) = read_known(&root, &self.property);
        let known = Arc::new(known);

        // Replay mode
        if let Some(pos) = args.iter().position(|a| a == "--replay") {
            let path = PathBuf::from(args.get(pos + 1).cloned().unwrap_or_default());
            match self.replay_file(&path, &known) {
                Ok((_, Ok(()))) => {
                    println!("PASS property={} replay={}", self.property, path.display());
                    std::process::exit(0);
                }
                Ok((_, Err(msg))) => {
                    println!("{msg}");
                    println!(
                        "VIOLATION property={} replay={}",
                        self.property,
                        path.display()
                    );
                    std::process::exit(1);
                }
                Err(e) => {
                    eprintln!("cannot replay {}: {e}", path.display());
                    std::process::exit(2);
                }
            }
        }

        // Watchdog: inconclusive, never a violation
        let limit = match tier {
            Tier::Quick => 780,
            Tier::Thorough => std::env::var("SETTLAB_LIMIT")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(6 * 3600),
        };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("INCONCLUSIVE: the time budget of {limit} s ran out");
            std::process::exit(3);
        });

        let mut failure: Option<Failure> = None;
        let mut total = Stats::new();
        let mut leg_reports = Vec::new();
        let mut samples = Vec::new();
        let mut distinct = 0u64;
        let mut vacuous = Vec::new();

        // Regression corpus
        let corpus_dir = root.join("corpus").join(&self.property);
        let mut files: Vec<PathBuf> = std::fs::read_dir(&corpus_dir)
            .map(|rd| rd.filter_map(|e| e.ok().map(|e| e.path())).collect())
            .unwrap_or_default();
        files.retain(|p| p.extension().is_some_and(|e| e == "json"));
        files.sort();
        let mut corpus_stats = Stats::new();
        for file in &files {
            match self.replay_file(file, &known) {
                Ok((obs, verdict)) => {
                    let name = Value::String(file.display().to_string());
                    corpus_stats.add(&name, obs);
                    if let Err(msg) = verdict {
                        failure.get_or_insert(Failure {
                            leg: "corpus".into(),
                            case: Value::Null,
                            msg,
                            origin: Some(file.clone()),
                        });
                    }
                }
                Err(e) => {
                    eprintln!("corpus file {} is unusable: {e}", file.display());
                    std::process::exit(2);
                }
            }
        }
        if !files.is_empty() {
            leg_reports.push(json!({"leg": "corpus", "evaluations": corpus_stats.evaluations}));
            distinct += corpus_stats.nontrivial.len() as u64;
            corpus_stats.samples.clear();
            total.merge(corpus_stats);
        }

        if failure.is_none() {
            for leg in &self.legs {
                if only.as_ref().is_some_and(|o| o != &leg.name) {
                    continue;
                }
                let base = match tier {
                    Tier::Quick => leg.quick,
                    Tier::Thorough => leg.thorough,
                };
                let cases = ((f64::from(base) * factor).ceil() as u32).max(1);
                let t0 = Instant::now();
                let (stats, fail) = (leg.run)(&LegCtx {
                    seed,
                    property: self.property.clone(),
                    cases,
                    threads,
                    known: known.clone(),
                    hang: leg.hang,
                    root: root.clone(),
                });
                leg_reports.push(json!({
                    "leg": leg.name,
                    "evaluations": stats.evaluations,
                    "distinct_nontrivial": stats.nontrivial.len(),
                    "labels": stats.labels,
                    "largest_relative_residuals": stats.maxima.iter()
                        .map(|(k, v)| ((*k).to_string(), json!(format!("{v:.3e}")))).collect::<BTreeMap<_, _>>(),
                    "wall_s": t0.elapsed().as_secs_f64(),
                }));
                if std::env::var("SETTLAB_VERBOSE").is_ok() {
                    eprintln!(
                        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s",
                        self.property,
                        leg.name,
                        stats.evaluations,
                        stats.nontrivial.len(),
                        t0.elapsed().as_secs_f64()
                    );
                    for (k, v) in &stats.labels {
                        eprintln!("    {k}: {v}");
                    }
                    for (k, v) in &stats.maxima {
                        eprintln!("    max {k}: {v:.3e}");
                    }
                }
                if stats.nontrivial.is_empty() && !leg.may_be_vacuous && fail.is_none() {
                    vacuous.push(leg.name.clone());
                }
                distinct += stats.nontrivial.len() as u64;
                for s in &stats.samples {
                    samples.push(json!({"leg": leg.name, "case": s}));
                }
                total.merge(stats);
                if fail.is_some() {
                    failure = fail;
                    break;
                }
            }
        }

        let violations = usize::from(failure.is_some());
        let evidence = json!({
            "property": self.property,
            "tier": tier_name,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.evaluations,
                "distinct_nontrivial": distinct,
                "rule": self.rule,
                "samples": samples,
                "legs": leg_reports,
                "known_findings_seen": total.findings.iter()
                    .map(|(k, (n, m))| json!({"signature": k, "cases": n, "example": m})).collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": started.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        ) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }

        for (sig, (n, _)) in &total.findings {
            if let Some(text) = finding_text.get(sig) {
                println!(
                    "KNOWN-FINDING: property={} {sig}: {text} ({n} cases)",
                    self.property
                );
            }
        }

        if let Some(failure) = failure {
            let path = match failure.origin {
                Some(path) => path,
                None => {
                    let dir = root.join("replays");
                    let _ = std::fs::create_dir_all(&dir);
                    let path = dir.join(format!("{}-{}-s{}.json", self.property, failure.leg, seed));
                    let doc = json!({
                        "property": self.property,
                        "leg": failure.leg,
                        "case": failure.case,
                        "message": failure.msg,
                    });
                    let _ =
                        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n");
                    path
                }
            };
            println!("leg {}: {}", failure.leg, failure.msg);
            println!(
                "VIOLATION property={} replay={}",
                self.property,
                path.display()
            );
            std::process::exit(1);
        }
        if let Some(fault) = HARNESS_FAULT.lock().unwrap().take() {
            eprintln!("ERROR: the harness itself panicked: {fault}");
            std::process::exit(2);
        }
        if !vacuous.is_empty() {
            eprintln!("ERROR: no non-trivial case in {vacuous:?}");
            std::process::exit(2);
        }
        println!(
            "PASS property={} tier={tier_name} seed={seed} evaluations={} distinct_nontrivial={distinct} wall={:.1}s",
            self.property,
            total.evaluations,
            started.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }

    fn replay_file(
        &self,
        path: &PathBuf,
        known: &HashSet<String>,
    ) -> Result<(Obs, Verdict), String> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let doc: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let name = doc["leg"].as_str().ok_or("no leg")?;
        let leg = self
            .legs
            .iter()
            .find(|l| l.name == name)
            .ok_or_else(|| format!("unknown leg {name}"))?;
        (leg.replay)(&doc["case"], known)
    }
}

/// Save a case that doesn't end and exit, since it can't be stopped
fn report_hang(ctx: &LegCtx, leg: &str, case: &Value, msg: &str) -> ! {
    let dir = ctx.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-s{}.json", ctx.property, leg, ctx.seed));
    let doc = json!({"property": ctx.property, "leg": leg, "case": case, "message": msg});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n");
    let evidence = json!({
        "property": ctx.property,
        "tier": if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "interrupted by a case that doesn't end", "samples": [case]},
        "assumptions": [],
        "wall_s": 0.,
        "violations": 1,
    });
    let dir = ctx.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", ctx.property)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    );
    println!("leg {leg}: {msg}");
    println!("VIOLATION property={} replay={}", ctx.property, path.display());
    std::process::exit(1);
}

fn read_known(root: &std::path::Path, property: &str) -> (HashSet<String>, BTreeMap<String, String>) {
    let mut set = HashSet::new();
    let mut texts = BTreeMap::new();
    if let Ok(text) = std::fs::read_to_string(root.join("known-findings.txt")) {
        for line in text.lines() {
            // known: property=<id> signature=<sig> <text>
            let Some(rest) = line.strip_prefix("known: property=") else {
                continue;
            };
            let mut parts = rest.splitn(3, ' ');
            let id = parts.next().unwrap_or("");
            let sig = parts.next().and_then(|s| s.strip_prefix("signature="));
            let what = parts.next().unwrap_or("");
            if let (true, Some(sig)) = (id == property, sig) {
                set.insert(sig.to_string());
                texts.insert(sig.to_string(), what.to_string());
            }
        }
    }
    (set, texts)
}

fn run_leg<C>(
    ctx: &LegCtx,
    leg: &str,
    strategy: &(dyn Fn() -> BoxedStrategy<C> + Send + Sync),
    check: &(dyn Fn(&C, &mut Obs) -> Verdict + Send + Sync),
) -> (Stats, Option<Failure>)
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    let slow_ms: u64 = std::env::var("SETTLAB_SLOW")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let shards = SHARDS.min(ctx.cases as usize).max(1);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let failures: Mutex<BTreeMap<usize, Failure>> = Mutex::new(BTreeMap::new());
    let stats: Mutex<BTreeMap<usize, Stats>> = Mutex::new(BTreeMap::new());
    let running: Mutex<BTreeMap<usize, (Instant, Value)>> = Mutex::new(BTreeMap::new());
    let done = AtomicUsize::new(0);
    std::thread::scope(|scope| {
        if let Some(limit) = ctx.hang {
            let (running, done) = (&running, &done);
            scope.spawn(move || {
                while done.load(Ordering::Relaxed) < shards {
                    std::thread::sleep(Duration::from_millis(50));
                    for (start, case) in running.lock().unwrap().values() {
                        if start.elapsed() > Duration::from_secs(limit) {
                            let msg = format!("the case isn't decided within {limit} s");
                            report_hang(ctx, leg, case, &msg);
                        }
                    }
                }
            });
        }
        for _ in 0..ctx.threads.min(shards) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, || loop {
                    let shard = next.fetch_add(1, Ordering::Relaxed);
                    if shard >= shards {
                        break;
                    }
                    if stop.load(Ordering::Relaxed) {
                        done.fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    let cases = ctx.cases as usize * (shard + 1) / shards
                        - ctx.cases as usize * shard / shards;
                    if cases == 0 {
                        done.fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    let local = RefCell::new(Stats::new());
                    let failed = Cell::new(false);
                    let last_msg = RefCell::new(String::new());
                    let config = PtConfig {
                        cases: cases as u32,
                        failure_persistence: None,
                        max_shrink_iters: 600,
                        max_shrink_time: 40_000,
                        ..PtConfig::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &shard_seed(ctx.seed, &ctx.property, leg, shard),
                    );
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let result = runner.run(&strategy(), |case| {
                        if !failed.get() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let t0 = Instant::now();
                        if ctx.hang.is_some() {
                            let value = serde_json::to_value(&case).unwrap_or(Value::Null);
                            running.lock().unwrap().insert(shard, (t0, value));
                        }
                        let (obs, verdict) = eval(check, &case, &ctx.known);
                        if ctx.hang.is_some() {
                            running.lock().unwrap().remove(&shard);
                        }
                        if slow_ms > 0 && t0.elapsed().as_millis() as u64 > slow_ms {
                            eprintln!(
                                "slow {} ms: {:?} {}",
                                t0.elapsed().as_millis(),
                                obs.labels,
                                serde_json::to_string(&case).unwrap_or_default()
                            );
                        }
                        if !failed.get() {
                            let value = if obs.nontrivial {
                                serde_json::to_value(&case).unwrap_or(Value::Null)
                            } else {
                                Value::Null
                            };
                            local.borrow_mut().add(&value, obs);
                        }
                        match verdict {
                            Ok(()) => Ok(()),
                            Err(msg) => {
                                failed.set(true);
                                stop.store(true, Ordering::Relaxed);
                                *last_msg.borrow_mut() = msg.clone();
                                Err(TestCaseError::fail(msg))
                            }
                        }
                    });
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(_, case)) => {
                            // The message of the minimal case, recomputed
                            let (_, verdict) = eval(check, &case, &ctx.known);
                            let msg = verdict
                                .err()
                                .unwrap_or_else(|| last_msg.borrow().clone());
                            failures.lock().unwrap().insert(
                                shard,
                                Failure {
                                    leg: leg.to_string(),
                                    case: serde_json::to_value(&case).unwrap_or(Value::Null),
                                    msg,
                                    origin: None,
                                },
                            );
                        }
                        Err(TestError::Abort(reason)) => {
                            let mut fault = HARNESS_FAULT.lock().unwrap();
                            if fault.is_none() {
                                *fault = Some(format!("leg {leg} aborted: {reason}"));
                            }
                        }
                    }
                    stats.lock().unwrap().insert(shard, local.into_inner());
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .expect("can spawn a thread");
        }
    });
    let mut total = Stats::new();
    for (_, s) in stats.into_inner().unwrap() {
        total.merge(s);
    }
    let failure = failures.into_inner().unwrap().into_iter().next().map(|(_, f)| f);
    (total, failure)
}
