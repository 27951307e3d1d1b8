//! The property engine: generates cases, runs them on shards, shrinks
//! failures, writes evidence and replay files.
use std::{
    any::Any,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::BoxedStrategy,
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::hooks::NO_HOOKS;

/// What a test of one case observed besides its verdict.
#[derive(Default)]
pub struct Rec {
    labels: Vec<String>,
    nontrivial: bool,
    counts: Vec<(String, u64)>,
}

impl Rec {
    /// Classify the case.
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }

    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }

    /// The case is non-trivial by the facet's rule.
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }

    /// Add to a counter reported in the evidence.
    pub fn count(&mut self, name: &str, n: u64) {
        self.counts.push((name.to_string(), n));
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
}

impl Ctx {
    pub fn new(property: &str, tier: Tier, seed: u64) -> Self {
        Self {
            property: property.to_string(),
            tier,
            seed,
        }
    }
}

/// One executable statement of (a part of) a property.
pub struct Facet {
    pub name: &'static str,
    pub rule: &'static str,
    run: Box<dyn Fn(&Facet, &Ctx) -> FacetOutcome>,
    replay: Box<dyn Fn(&Value) -> Verdict>,
}

pub struct FacetOutcome {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(Value, String)>,
    pub wall_s: f64,
}

pub struct Budget {
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
    pub shrink_iters: u32,
}

impl Budget {
    pub fn new(quick: u32, thorough: u32) -> Self {
        Self {
            quick,
            thorough,
            shards: 8,
            shrink_iters: 3000,
        }
    }

    pub fn shards(mut self, n: usize) -> Self {
        self.shards = n;
        self
    }

    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink_iters = n;
        self
    }
}

fn hash64(x: impl Hash) -> u64 {
    // SipHash with fixed keys.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn seed32(ctx: &Ctx, facet: &str, shard: usize) -> [u8; 32] {
    let mut out = [0; 32];
    for i in 0..4u64 {
        let h = hash64((ctx.seed, &ctx.property, facet, shard, i, "v1"));
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn panic_msg(p: Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn guarded<C>(test: &(impl Fn(&C, &mut Rec) -> Verdict + ?Sized), c: &C, rec: &mut Rec) -> Verdict {
    match std::panic::catch_unwind(AssertUnwindSafe(|| test(c, rec))) {
        Ok(v) => v,
        Err(p) => Err(format!("panic: {}", panic_msg(p))),
    }
}

/// How long a single case may take, in seconds of the watchdog being awake.
/// Cases take milliseconds, few of them seconds: one that takes this long does
/// not terminate.
const CASE_LIMIT: u32 = 150;

/// The case each shard is at, and for how long.
static WATCH: Mutex<Vec<Option<(u32, String)>>> = Mutex::new(Vec::new());

/// The property and facet being checked, and violations found so far.
static CURRENT: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
static FOUND: Mutex<Vec<std::path::PathBuf>> = Mutex::new(Vec::new());
/// The first failing case of the facet being checked, before shrinking.
static FIRST: Mutex<Option<(Value, String)>> = Mutex::new(None);

fn watch_slot() -> usize {
    let mut w = WATCH.lock().unwrap();
    w.push(None);
    w.len() - 1
}

fn write_replay(
    property: &str,
    facet: &str,
    case: &Value,
    reason: &str,
    reruns: &[String],
    seed: u64,
) -> std::path::PathBuf {
    let dir = verif_dir().join("replays");
    _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{facet}.json"));
    let body = json!({
        "property": property, "facet": facet, "case": case, "reason": reason,
        "reruns": reruns, "seed": seed,
    });
    _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    path
}

fn announce(property: &str, paths: &[std::path::PathBuf]) {
    for path in paths {
        let path = path.canonicalize().unwrap_or(path.clone());
        println!("VIOLATION property={} replay={}", property, path.display());
    }
}

/// Ends the run if a case does not terminate.
pub fn spawn_watchdog(seed: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let mut w = WATCH.lock().unwrap();
        for (t, case) in w.iter_mut().flatten() {
            *t += 1;
            if *t > CASE_LIMIT {
                let (property, facet) = CURRENT.lock().unwrap().clone();
                let (case, reason) = FIRST.lock().unwrap().take().unwrap_or_else(|| {
                    (
                        serde_json::from_str(case).unwrap_or(Value::Null),
                        format!("hang: the case does not terminate within {CASE_LIMIT} s"),
                    )
                });
                eprintln!("  reason: {reason}\n  case: {}", trunc(&case));
                let mut found = FOUND.lock().unwrap().clone();
                found.push(write_replay(&property, &facet, &case, &reason, &[], seed));
                announce(&property, &found);
                std::process::exit(1);
            }
        }
    });
}

fn trunc(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        json!(format!("{}… ({} bytes)", &s[..n], s.len()))
    } else {
        v.clone()
    }
}

pub fn facet<C>(
    name: &'static str,
    rule: &'static str,
    budget: Budget,
    strategy: impl Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    test: impl Fn(&C, &mut Rec) -> Verdict + Send + Sync + 'static,
) -> Facet
where
    C: Serialize + DeserializeOwned + Debug + 'static,
{
    let strategy = Arc::new(strategy);
    let test = Arc::new(test);
    let test2 = test.clone();
    Facet {
        name,
        rule,
        run: Box::new(move |f, ctx| run_facet(f, ctx, &budget, &*strategy, &*test)),
        replay: Box::new(move |v| {
            let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay: {e}"))?;
            guarded(&*test2, &c, &mut Rec::default())
        }),
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<Value>,
    skipped: u64,
}

fn run_facet<C>(
    f: &Facet,
    ctx: &Ctx,
    budget: &Budget,
    strategy: &(impl Fn() -> BoxedStrategy<C> + Send + Sync),
    test: &(impl Fn(&C, &mut Rec) -> Verdict + Send + Sync),
) -> FacetOutcome
where
    C: Serialize + DeserializeOwned + Debug,
{
    let start = Instant::now();
    let total = match ctx.tier {
        Tier::Quick => budget.quick,
        Tier::Thorough => budget.thorough,
    };
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let total = ((total as f64 * scale) as u32).max(1);
    let shards = budget.shards.min(total as usize).max(1);
    let stats: Mutex<Stats> = Default::default();
    let failure: Mutex<Option<(Value, String)>> = Default::default();
    let stop = AtomicBool::new(false);
    let progress = AtomicU64::new(0);

    std::thread::scope(|s| {
        for shard in 0..shards {
            let (stats, failure, stop, progress) = (&stats, &failure, &stop, &progress);
            let name = f.name;
            let cases = total / shards as u32 + u32::from((shard as u32) < total % shards as u32);
            std::thread::Builder::new()
                .name(format!("shard-{shard}"))
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let slot = watch_slot();
                    let config = Config {
                        cases,
                        failure_persistence: None,
                        max_shrink_iters: budget.shrink_iters,
                        max_shrink_time: 40_000,
                        max_global_rejects: u32::MAX,
                        max_local_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed32(ctx, name, shard));
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let failed = AtomicBool::new(false);
                    let result = runner.run(&strategy(), |case| {
                        if stop.load(Ordering::Relaxed) && !failed.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let value = serde_json::to_value(&case).expect("case serializes");
                        let text = value.to_string();
                        WATCH.lock().unwrap()[slot] = Some((0, text.clone()));
                        let mut rec = Rec::default();
                        let verdict = guarded(test, &case, &mut rec);
                        WATCH.lock().unwrap()[slot] = None;
                        progress.fetch_add(1, Ordering::Relaxed);
                        if verdict.as_ref().is_err_and(|e| e.contains(NO_HOOKS)) {
                            stats.lock().unwrap().skipped += 1;
                            return Ok(());
                        }
                        if !failed.load(Ordering::Relaxed) {
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1;
                            for l in rec.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            for (k, n) in rec.counts {
                                *st.counts.entry(k).or_default() += n;
                            }
                            if rec.nontrivial {
                                let new = st.distinct.insert(hash64(&text));
                                if new && st.samples.len() < 3 {
                                    st.samples.push(trunc(&value));
                                }
                            }
                        }
                        match verdict {
                            Ok(()) => Ok(()),
                            Err(msg) => {
                                FIRST
                                    .lock()
                                    .unwrap()
                                    .get_or_insert_with(|| (value.clone(), msg.clone()));
                                failed.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(msg))
                            }
                        }
                    });
                    match result {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            let v = serde_json::to_value(&case).expect("case serializes");
                            failure
                                .lock()
                                .unwrap()
                                .get_or_insert((v, reason.message().to_string()));
                        }
                        Err(TestError::Abort(reason)) => {
                            eprintln!("generator aborted: {reason}");
                            std::process::exit(2);
                        }
                    }
                })
                .expect("spawn shard");
        }
    });

    let mut st = stats.into_inner().unwrap();
    if st.skipped > 0 {
        eprintln!("{}: {} cases skipped for lack of hooks", f.name, st.skipped);
        st.counts.insert("skipped for lack of hooks".into(), st.skipped);
    }
    FacetOutcome {
        name: f.name,
        rule: f.rule,
        evaluations: st.evaluations,
        distinct_nontrivial: st.distinct.len() as u64,
        labels: st.labels,
        counts: st.counts,
        samples: st.samples,
        failure: failure.into_inner().unwrap(),
        wall_s: start.elapsed().as_secs_f64(),
    }
}

pub struct Property {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Facet>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|| std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join(".."))
}

/// Runs the check of a property. Returns the exit code.
pub fn check(p: &Property, ctx: &Ctx) -> i32 {
    let start = Instant::now();
    let only = std::env::var("VERIF_FACET").ok();
    let mut outcomes = Vec::new();
    let mut violations = Vec::new();
    for f in &p.facets {
        if only.as_deref().is_some_and(|o| o != f.name) {
            continue;
        }
        // Where something is awaited in vain, failing takes long. Once is enough.
        if !violations.is_empty() && start.elapsed() > Duration::from_secs(100) {
            eprintln!("{} {}: not run any more", p.id, f.name);
            continue;
        }
        *CURRENT.lock().unwrap() = (p.id.to_string(), f.name.to_string());
        *FIRST.lock().unwrap() = None;
        let o = (f.run)(f, ctx);
        eprintln!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s{}",
            p.id,
            o.name,
            o.evaluations,
            o.distinct_nontrivial,
            o.wall_s,
            if o.failure.is_some() { " FAILED" } else { "" }
        );
        if std::env::var_os("VERIF_LABELS").is_some() {
            eprintln!("   labels {:?}\n   counts {:?}", o.labels, o.counts);
        }
        if let Some((case, reason)) = &o.failure {
            let slot = watch_slot();
            let begin = Instant::now();
            let reruns: Vec<String> = (0..3)
                .take_while(|_| begin.elapsed() < Duration::from_secs(20))
                .map(|_| {
                    WATCH.lock().unwrap()[slot] = Some((0, case.to_string()));
                    let r = (f.replay)(case);
                    WATCH.lock().unwrap()[slot] = None;
                    match r {
                        Ok(()) => "did not reproduce".to_string(),
                        Err(e) => e,
                    }
                })
                .collect();
            let path = write_replay(p.id, o.name, case, reason, &reruns, ctx.seed);
            eprintln!("  reason: {reason}\n  case: {}", trunc(case));
            FOUND.lock().unwrap().push(path.clone());
            violations.push(path);
        }
        outcomes.push(o);
    }
    write_evidence(p, ctx, &outcomes, start.elapsed().as_secs_f64());
    announce(p.id, &violations);
    i32::from(!violations.is_empty())
}

fn write_evidence(p: &Property, ctx: &Ctx, outcomes: &[FacetOutcome], wall_s: f64) {
    let evaluations: u64 = outcomes.iter().map(|o| o.evaluations).sum();
    let distinct: u64 = outcomes.iter().map(|o| o.distinct_nontrivial).sum();
    let rule = outcomes
        .iter()
        .map(|o| format!("[{}] {}", o.name, o.rule))
        .collect::<Vec<_>>()
        .join(" ");
    let samples: Vec<Value> = outcomes
        .iter()
        .flat_map(|o| {
            o.samples
                .iter()
                .map(|s| json!({"facet": o.name, "case": s}))
        })
        .collect();
    let facets: BTreeMap<_, _> = outcomes
        .iter()
        .map(|o| {
            (
                o.name,
                json!({
                    "evaluations": o.evaluations,
                    "distinct_nontrivial": o.distinct_nontrivial,
                    "labels": o.labels, "counts": o.counts, "wall_s": o.wall_s,
                }),
            )
        })
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "facets": facets,
        },
        "assumptions": p.assumptions,
        "wall_s": wall_s,
        "violations": outcomes.iter().filter(|o| o.failure.is_some()).count(),
    });
    let dir = verif_dir().join("evidence");
    _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
}

/// Re-executes a replay file. Returns the exit code.
pub fn replay(props: &[Property], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay file"))
        .expect("parse replay file");
    let p = props
        .iter()
        .find(|p| v["property"] == p.id)
        .expect("known property");
    let f = p
        .facets
        .iter()
        .find(|f| v["facet"] == f.name)
        .expect("known facet");
    match (f.replay)(&v["case"]) {
        Ok(()) => {
            println!("property {} held on the replayed case", p.id);
            0
        }
        Err(e) => {
            println!("{e}");
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
    }
}
