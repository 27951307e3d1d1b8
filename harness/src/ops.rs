//! Operations shared by the checks.
use std::{
    collections::{BTreeMap, HashMap},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Condvar, Mutex,
    },
    time::Duration,
};

use paladin::{
    operation::{
        FatalError, FatalStrategy, Monoid, Operation, OperationError, Result, RetryStrategy,
        TransientError,
    },
    AbortSignal, RemoteExecute,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

paladin::registry!();

/// `x -> a * x + b`
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Affine {
    pub a: i64,
    pub b: i64,
}

impl Operation for Affine {
    type Input = i64;
    type Output = i64;

    fn execute(&self, x: i64, _: AbortSignal) -> Result<i64> {
        Ok(self.a.wrapping_mul(x).wrapping_add(self.b))
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Render {
    pub prefix: String,
}

impl Operation for Render {
    type Input = i64;
    type Output = String;

    fn execute(&self, x: i64, _: AbortSignal) -> Result<String> {
        Ok(format!("{}{x}", self.prefix))
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Measure;

impl Operation for Measure {
    type Input = String;
    type Output = (usize, u64);

    fn execute(&self, s: String, _: AbortSignal) -> Result<(usize, u64)> {
        let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| {
            (h ^ b as u64).wrapping_mul(0x100000001b3)
        });
        Ok((s.chars().count(), h))
    }
}

/// A value exercising much of serde's data model.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Rich {
    Unit,
    Bool(bool),
    Small(i8, u16),
    Int(i64),
    Nat(u64),
    Float(f64),
    Char(char),
    Text(String),
    Bytes(bytes::Bytes),
    Opt(Option<u32>),
    List(Vec<Rich>),
    Map(BTreeMap<String, i32>),
    Record {
        name: String,
        pair: (u8, Option<String>),
        nested: Box<Option<Rich>>,
        big: [u16; 5],
    },
}

pub fn rich() -> BoxedStrategy<Rich> {
    let leaf = prop_oneof![
        Just(Rich::Unit),
        any::<bool>().prop_map(Rich::Bool),
        (any::<i8>(), any::<u16>()).prop_map(|(a, b)| Rich::Small(a, b)),
        prop_oneof![
            any::<i64>(),
            Just(i64::MIN),
            Just(i64::MAX),
            Just(-1),
            -300i64..300
        ]
        .prop_map(Rich::Int),
        prop_oneof![
            any::<u64>(),
            Just(u64::MAX),
            Just(0),
            0u64..70000,
            Just(u32::MAX as u64),
            Just(1 << 32)
        ]
        .prop_map(Rich::Nat),
        prop_oneof![
            any::<f64>().prop_filter("JSON has finite numbers only", |f| f.is_finite()),
            Just(0.0),
            Just(-0.0),
            Just(f64::MAX),
            Just(f64::MIN_POSITIVE)
        ]
        .prop_map(Rich::Float),
        any::<char>().prop_map(Rich::Char),
        ".{0,20}".prop_map(Rich::Text),
        proptest::collection::vec(any::<u8>(), 0..40).prop_map(|v| Rich::Bytes(v.into())),
        any::<Option<u32>>().prop_map(Rich::Opt),
        proptest::collection::btree_map("[a-z]{0,5}", any::<i32>(), 0..5).prop_map(Rich::Map),
    ];
    leaf.prop_recursive(4, 40, 6, |inner| {
        prop_oneof![
            proptest::collection::vec(inner.clone(), 0..6).prop_map(Rich::List),
            (
                ".{0,8}",
                any::<(u8, Option<String>)>(),
                proptest::option::of(inner),
                any::<[u16; 5]>()
            )
                .prop_map(|(name, pair, nested, big)| Rich::Record {
                    name,
                    pair,
                    nested: Box::new(nested),
                    big
                }),
        ]
    })
    .boxed()
}

/// Wraps the value such that input and output differ structurally.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Wrap {
    pub tag: u32,
}

impl Operation for Wrap {
    type Input = Rich;
    type Output = Rich;

    fn execute(&self, x: Rich, _: AbortSignal) -> Result<Rich> {
        Ok(Rich::List(vec![Rich::Nat(self.tag as u64), x]))
    }
}

/// The free monoid: every combination is visible in the result.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Concat {
    pub run: u64,
}

/// A segment of the input: positions with payloads.
pub type Seg = Vec<(u32, String)>;

/// The positions at which a segment begins and ends.
pub fn positions(s: &Seg) -> Option<(u32, u32)> {
    Some((s.first()?.0, s.last()?.0))
}

impl Monoid for Concat {
    type Elem = Seg;

    fn empty(&self) -> Seg {
        vec![]
    }

    fn combine(&self, mut a: Seg, mut b: Seg, _: AbortSignal) -> Result<Seg> {
        if let Some(r) = run(self.run) {
            r.log
                .lock()
                .unwrap()
                .push(format!("{:?} {:?}", positions(&a), positions(&b)));
        }
        a.append(&mut b);
        Ok(a)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Text;

impl Monoid for Text {
    type Elem = String;

    fn empty(&self) -> String {
        String::new()
    }

    fn combine(&self, a: String, b: String, _: AbortSignal) -> Result<String> {
        Ok(a + &b)
    }
}

/// Composition of affine maps modulo a prime; not commutative.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Compose {
    pub p: u64,
}

impl Monoid for Compose {
    type Elem = (u64, u64);

    fn empty(&self) -> (u64, u64) {
        (1, 0)
    }

    fn combine(&self, a: (u64, u64), b: (u64, u64), _: AbortSignal) -> Result<(u64, u64)> {
        Ok((a.0 * b.0 % self.p, (a.0 * b.1 + a.1) % self.p))
    }
}

/// Keeps the first element; associative, idempotent, with an identity.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct First;

impl Monoid for First {
    type Elem = Option<i64>;

    fn empty(&self) -> Option<i64> {
        None
    }

    fn combine(&self, a: Option<i64>, b: Option<i64>, _: AbortSignal) -> Result<Option<i64>> {
        Ok(a.or(b))
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct SumMod {
    pub m: u64,
}

impl Monoid for SumMod {
    type Elem = u64;

    fn empty(&self) -> u64 {
        0
    }

    fn combine(&self, a: u64, b: u64, _: AbortSignal) -> Result<u64> {
        Ok((a + b) % self.m)
    }
}

/// Values that serialize to nothing at all.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Sink;

impl Operation for Sink {
    type Input = i64;
    type Output = ();

    fn execute(&self, _: i64, _: AbortSignal) -> Result<()> {
        Ok(())
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Constant {
    pub value: i64,
}

impl Operation for Constant {
    type Input = ();
    type Output = i64;

    fn execute(&self, _: (), _: AbortSignal) -> Result<i64> {
        Ok(self.value)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Nothing;

impl Monoid for Nothing {
    type Elem = ();

    fn empty(&self) {}

    fn combine(&self, _: (), _: (), _: AbortSignal) -> Result<()> {
        Ok(())
    }
}

// --- Scripted operations -------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fatality {
    Terminate,
    Ignore,
}

impl From<Fatality> for FatalStrategy {
    fn from(f: Fatality) -> Self {
        match f {
            Fatality::Terminate => FatalStrategy::Terminate,
            Fatality::Ignore => FatalStrategy::Ignore,
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum Retry {
    Immediate(u32),
    After(u32, u64),
}

impl Retry {
    pub fn max(&self) -> u32 {
        match self {
            Retry::Immediate(n) | Retry::After(n, _) => *n,
        }
    }
}

impl From<&Retry> for RetryStrategy {
    fn from(r: &Retry) -> Self {
        match *r {
            Retry::Immediate(n) => RetryStrategy::Immediate {
                max_retries: n.try_into().unwrap(),
            },
            Retry::After(n, ms) => RetryStrategy::After {
                max_retries: n.try_into().unwrap(),
                duration: Duration::from_millis(ms),
            },
        }
    }
}

/// What executing a scripted operation on an element does.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum Act {
    Ok,
    Fatal(Fatality),
    Panic,
    /// Fail transiently the given number of times, then succeed.
    Flaky {
        failures: u32,
        retry: Retry,
        fatality: Fatality,
    },
    /// Block until the gate of the given number is opened (or an abort is
    /// signalled, if `heed` is set).
    Gate {
        gate: u32,
        heed: bool,
    },
}

/// State of one run, looked up by the scripted operations.
#[derive(Default)]
pub struct Run {
    pub script: Mutex<HashMap<u64, Act>>,
    pub log: Mutex<Vec<String>>,
    pub attempts: Mutex<HashMap<u64, u32>>,
    /// Virtual time of each attempt, in ms since the start of the run.
    pub times: Mutex<HashMap<u64, Vec<u64>>>,
    pub open: Mutex<std::collections::HashSet<u32>>,
    pub cv: Condvar,
    pub entered: Mutex<Vec<u64>>,
    pub active: AtomicU64,
    pub max_active: AtomicU64,
    /// The abort signals given to the executions, by key.
    pub signals: Mutex<HashMap<u64, AbortSignal>>,
    pub ended: Mutex<Vec<u64>>,
    pub entry: tokio::sync::Notify,
    pub start: Mutex<Option<tokio::time::Instant>>,
}

static RUNS: Mutex<Option<HashMap<u64, Arc<Run>>>> = Mutex::new(None);
static NEXT_RUN: AtomicU64 = AtomicU64::new(1);

pub fn run(id: u64) -> Option<Arc<Run>> {
    RUNS.lock()
        .unwrap()
        .as_ref()
        .and_then(|m| m.get(&id).cloned())
}

/// Registers a run for as long as the guard lives.
pub struct RunGuard {
    pub id: u64,
    pub run: Arc<Run>,
}

pub fn new_run(script: impl IntoIterator<Item = (u64, Act)>) -> RunGuard {
    let id = NEXT_RUN.fetch_add(1, Ordering::SeqCst);
    let run = Arc::new(Run::default());
    *run.script.lock().unwrap() = script.into_iter().collect();
    RUNS.lock()
        .unwrap()
        .get_or_insert_with(Default::default)
        .insert(id, run.clone());
    RunGuard { id, run }
}

impl Drop for RunGuard {
    fn drop(&mut self) {
        if let Some(m) = RUNS.lock().unwrap().as_mut() {
            m.remove(&self.id);
        }
        // Unblock whatever is left.
        self.run.open.lock().unwrap().insert(u32::MAX);
        self.run.cv.notify_all();
    }
}

impl Run {
    pub fn open(&self, gate: u32) {
        self.open.lock().unwrap().insert(gate);
        self.cv.notify_all();
    }

    pub fn attempts_of(&self, key: u64) -> u32 {
        self.attempts
            .lock()
            .unwrap()
            .get(&key)
            .copied()
            .unwrap_or(0)
    }

    /// Waits until the key is being executed. The virtual clock stands still
    /// as long as anything is being executed, such that running into the limit
    /// means that it isn't going to be.
    pub async fn await_entry(&self, key: u64) -> std::result::Result<(), String> {
        let wait = async {
            while !self.entered.lock().unwrap().contains(&key) {
                self.entry.notified().await;
            }
        };
        tokio::time::timeout(Duration::from_secs(100), wait)
            .await
            .map_err(|_| format!("task #{key} is not being executed"))
    }

    pub fn signal(&self, key: u64) -> bool {
        self.signals
            .lock()
            .unwrap()
            .get(&key)
            .and_then(|s| s.as_ref().map(|s| s.load(Ordering::SeqCst)))
            .unwrap_or(false)
    }

    pub fn entered(&self) -> Vec<u64> {
        self.entered.lock().unwrap().clone()
    }
}

struct Active<'a>(&'a Run, u64);

impl Drop for Active<'_> {
    fn drop(&mut self) {
        self.0.ended.lock().unwrap().push(self.1);
        self.0.active.fetch_sub(1, Ordering::SeqCst);
    }
}

/// The message of a scripted failure.
pub fn failure_msg(key: u64, attempt: u32) -> String {
    let tail = match key % 7 {
        2 => " (größer als „∞“\n\tund länger)".to_string(),
        4 => format!(" ({})", "and so on ".repeat(250)),
        5 => "✗".repeat(1500),
        _ => String::new(),
    };
    format!("scripted failure of #{key} in attempt {attempt}{tail}")
}

fn act(run_id: u64, key: u64, abort: AbortSignal) -> Result<()> {
    let Some(r) = run(run_id) else { return Ok(()) };
    let attempt = {
        let mut a = r.attempts.lock().unwrap();
        let n = a.entry(key).or_default();
        *n += 1;
        *n
    };
    if let Some(start) = *r.start.lock().unwrap() {
        // The (virtual) clock of the runtime the operation is executed in.
        let t = tokio::time::Instant::now() - start;
        let mut times = r.times.lock().unwrap();
        times.entry(key).or_default().push(t.as_millis() as u64);
    }
    r.signals.lock().unwrap().insert(key, abort.clone());
    let n = r.active.fetch_add(1, Ordering::SeqCst) + 1;
    r.max_active.fetch_max(n, Ordering::SeqCst);
    let _active = Active(&r, key);
    r.entered.lock().unwrap().push(key);
    r.entry.notify_one();
    let act = r
        .script
        .lock()
        .unwrap()
        .get(&key)
        .cloned()
        .unwrap_or(Act::Ok);
    match act {
        Act::Ok => Ok(()),
        Act::Fatal(f) => FatalError::from_str(&failure_msg(key, attempt), f.into()).into(),
        Act::Panic => panic!("{}", failure_msg(key, attempt)),
        Act::Flaky {
            failures,
            retry,
            fatality,
        } => {
            // An end to erroneous endless retries.
            if attempt <= failures.min(2000) {
                TransientError::from_str(
                    &failure_msg(key, attempt),
                    (&retry).into(),
                    fatality.into(),
                )
                .into()
            } else {
                Ok(())
            }
        }
        Act::Gate { gate, heed } => {
            let mut open = r.open.lock().unwrap();
            loop {
                let aborted = abort
                    .as_ref()
                    .is_some_and(|a| a.load(Ordering::SeqCst));
                if open.contains(&gate) || open.contains(&u32::MAX) {
                    return Ok(());
                }
                if heed && aborted {
                    return FatalError::from_str("aborted", FatalStrategy::Terminate).into();
                }
                open = r
                    .cv
                    .wait_timeout(open, Duration::from_millis(2))
                    .unwrap()
                    .0;
            }
        }
    }
}

/// Maps `(key, x)` to `(key, x * 3 + 1)`, acting out the script of its run.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct Scripted {
    pub run: u64,
}

pub fn scripted_value(x: i64) -> i64 {
    x.wrapping_mul(3).wrapping_add(1)
}

impl Operation for Scripted {
    type Input = (u64, i64);
    type Output = (u64, i64);

    fn execute(&self, (key, x): (u64, i64), abort: AbortSignal) -> Result<(u64, i64)> {
        act(self.run, key, abort)?;
        Ok((key, scripted_value(x)))
    }
}

/// A scripted monoid over segments; the key of a combination is the position at
/// which its right operand starts.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ScriptedConcat {
    pub run: u64,
}

impl Monoid for ScriptedConcat {
    type Elem = Seg;

    fn empty(&self) -> Seg {
        vec![]
    }

    fn combine(&self, mut a: Seg, mut b: Seg, abort: AbortSignal) -> Result<Seg> {
        let key = b.first().map_or(0, |x| x.0 as u64);
        act(self.run, key, abort)?;
        a.append(&mut b);
        Ok(a)
    }
}

/// Maps `(key, x)` to a segment with a single position.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct ScriptedSeg {
    pub run: u64,
}

impl Operation for ScriptedSeg {
    type Input = (u64, i64);
    type Output = Seg;

    fn execute(&self, (key, x): (u64, i64), abort: AbortSignal) -> Result<Seg> {
        act(self.run, key, abort)?;
        Ok(vec![(key as u32, x.to_string())])
    }
}

/// A value that fails to serialize or to deserialize on demand.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Brittle {
    pub value: i64,
    /// Serialization fails.
    pub no_ser: bool,
    /// Deserialization fails.
    pub no_de: bool,
}

pub const NO_SER: &str = "brittle value refused to serialize";
pub const NO_DE: &str = "brittle value refused to deserialize";

impl Serialize for Brittle {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.no_ser {
            return Err(serde::ser::Error::custom(NO_SER));
        }
        (self.value, self.no_de).serialize(s)
    }
}

impl<'de> Deserialize<'de> for Brittle {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let (value, no_de) = <(i64, bool)>::deserialize(d)?;
        if no_de {
            return Err(serde::de::Error::custom(NO_DE));
        }
        Ok(Brittle {
            value,
            no_ser: false,
            no_de: false,
        })
    }
}

/// Adds up, with outputs that fail to serialize or to deserialize.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct BrittleSum {
    pub bad_ser: bool,
    pub bad_de: bool,
}

impl Monoid for BrittleSum {
    type Elem = Brittle;

    fn empty(&self) -> Brittle {
        Brittle {
            value: 0,
            no_ser: false,
            no_de: false,
        }
    }

    fn combine(&self, a: Brittle, b: Brittle, _: AbortSignal) -> Result<Brittle> {
        Ok(Brittle {
            value: a.value.wrapping_add(b.value),
            no_ser: self.bad_ser,
            no_de: self.bad_de,
        })
    }
}

/// Adds one; the output is brittle as demanded by `out` for the given value.
#[derive(Serialize, Deserialize, RemoteExecute, Debug, Clone)]
pub struct BrittleOp {
    pub own: Brittle,
    pub bad_ser: Vec<i64>,
    pub bad_de: Vec<i64>,
}

impl Operation for BrittleOp {
    type Input = Brittle;
    type Output = Brittle;

    fn execute(&self, x: Brittle, _: AbortSignal) -> Result<Brittle> {
        Ok(Brittle {
            value: x.value + 1,
            no_ser: self.bad_ser.contains(&x.value),
            no_de: self.bad_de.contains(&x.value),
        })
    }
}

pub fn op_err_msg(e: &OperationError) -> String {
    e.as_err().to_string()
}
