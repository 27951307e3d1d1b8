//! C05: retries follow the declared strategy.
use std::{
    num::NonZeroU32,
    sync::Mutex,
    time::{Duration, Instant},
};

use paladin::{
    operation::{
        FatalError, FatalStrategy, OperationError, RetryStrategy, TransientError,
    },
    task::{Task, TaskOutput},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::{c01::completion, c10::serializer};
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    driver::{leak, no_input, Job},
    ensure,
    ops::{failure_msg, new_run, scripted_value, Act, Fatality, Retry, Scripted},
    vrt,
    worker::Pool,
};

fn retry() -> BoxedStrategy<Retry> {
    let n = || prop_oneof![6 => 1u32..6, 1 => 6u32..40, 1 => 250u32..300];
    prop_oneof![
        n().prop_map(Retry::Immediate),
        (n(), prop_oneof![Just(0u64), 1u64..50, 1000u64..90_000])
            .prop_map(|(n, ms)| {
                // Well within the limit on virtual time.
                Retry::After(n, ms.min(3_000_000 / n as u64))
            }),
    ]
    .boxed()
}

fn fatality() -> BoxedStrategy<Fatality> {
    prop_oneof![Just(Fatality::Terminate), Just(Fatality::Ignore)].boxed()
}

/// The number of failures before the first success, around the limit.
fn with_failures() -> BoxedStrategy<(Retry, u32)> {
    retry()
        .prop_flat_map(|r| {
            let m = r.max();
            (
                Just(r),
                prop_oneof![0..=m + 3, Just(m), Just(m + 1), Just(m + 2), Just(u32::MAX)],
            )
        })
        .boxed()
}

fn same(f: FatalStrategy, want: Fatality) -> bool {
    matches!(
        (f, want),
        (FatalStrategy::Terminate, Fatality::Terminate) | (FatalStrategy::Ignore, Fatality::Ignore)
    )
}

/// Calls of a fallible function: the (virtual) times in ms, and what has been
/// traced.
#[derive(Default)]
struct Calls {
    times: Mutex<Vec<u64>>,
    traced: Mutex<Vec<String>>,
}

/// An end to erroneous endless retries.
const CAP: usize = 3000;

fn check_calls(
    c: &Calls,
    retry: &Retry,
    failures: u32,
    success: bool,
    traces: bool,
    what: &str,
) -> Verdict {
    let permitted = retry.max() as u64 + 1;
    let want = (failures as u64 + 1).min(permitted);
    let times = c.times.lock().unwrap();
    ensure!(
        times.len() as u64 == want,
        "{what}: {} attempts instead of {want} ({retry:?}, failing {failures} times)",
        times.len()
    );
    ensure!(
        success == ((failures as u64) < permitted),
        "{what}: success is {success} ({retry:?}, failing {failures} times)"
    );
    let pause = match retry {
        Retry::Immediate(_) => 0,
        Retry::After(_, ms) => *ms,
    };
    for w in times.windows(2) {
        ensure!(
            w[1] - w[0] == pause,
            "{what}: a delay of {} ms instead of {pause} ms",
            w[1] - w[0]
        );
    }
    let retried: Vec<String> = (0..want - 1).map(|k| format!("failure {k}")).collect();
    let traced = c.traced.lock().unwrap();
    let want = if traces { retried } else { vec![] };
    ensure!(
        *traced == want,
        "{what}: traced {traced:?} instead of {want:?}"
    );
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    retry: Retry,
    failures: u32,
    fatality: Fatality,
    trace: bool,
    /// The initial error is fatal.
    fatal: bool,
}

fn case() -> BoxedStrategy<Case> {
    (
        with_failures(),
        fatality(),
        any::<bool>(),
        proptest::bool::weighted(0.1),
    )
        .prop_map(|((retry, failures), fatality, trace, fatal)| Case {
            retry,
            failures,
            fatality,
            trace,
            fatal,
        })
        .boxed()
}

fn classify(rec: &mut Rec, retry: &Retry, failures: u32) {
    let m = retry.max();
    rec.label(match failures {
        0 => "succeeds at once",
        f if f <= m => "succeeds in a retry",
        f if f == m + 1 => "one failure too many",
        _ => "exhausted",
    });
    rec.nontrivial(failures > 0);
}

/// `RetryStrategy::retry` and `OperationError::retry`, and their tracing
/// variants.
fn run_direct(c: &Case, rec: &mut Rec) -> Verdict {
    classify(rec, &c.retry, c.failures);
    vrt::run(1, async {
        // The strategy itself.
        let calls = Calls::default();
        let start = tokio::time::Instant::now();
        let f = || async {
            let k = {
                let mut t = calls.times.lock().unwrap();
                t.push((tokio::time::Instant::now() - start).as_millis() as u64);
                t.len() - 1
            };
            if (k as u64) < c.failures as u64 && k < CAP {
                Err(format!("failure {k}"))
            } else {
                Ok(k)
            }
        };
        let strategy: RetryStrategy = (&c.retry).into();
        let r = if c.trace {
            strategy
                .retry_trace(f, |e| calls.traced.lock().unwrap().push(e))
                .await
        } else {
            strategy.retry(f).await
        };
        check_calls(&calls, &c.retry, c.failures, r.is_ok(), c.trace, "strategy")?;
        match r {
            Ok(k) => ensure!(k as u32 == c.failures, "strategy: returned {k}"),
            Err(e) => ensure!(
                e == format!("failure {}", c.retry.max()),
                "strategy: the error is {e:?}"
            ),
        }

        // An operation's error.
        let calls = Calls::default();
        let start = tokio::time::Instant::now();
        let transient = |msg: &str| -> OperationError {
            TransientError::from_str(msg, (&c.retry).into(), c.fatality.into()).into()
        };
        let f = || async {
            let k = {
                let mut t = calls.times.lock().unwrap();
                t.push((tokio::time::Instant::now() - start).as_millis() as u64);
                t.len() - 1
            };
            if (k as u64) < c.failures as u64 && k < CAP {
                Err(transient(&format!("failure {k}")))
            } else {
                Ok(k)
            }
        };
        let first: OperationError = if c.fatal {
            FatalError::from_str("initial", c.fatality.into()).into()
        } else {
            transient("initial")
        };
        let shown = format!("{first:?}");
        let r = if c.trace {
            let tracer = |e: OperationError| {
                let msg = e.as_err().to_string();
                calls.traced.lock().unwrap().push(msg)
            };
            first.retry_trace(f, tracer).await
        } else {
            first.retry(f).await
        };
        if c.fatal {
            ensure!(
                calls.times.lock().unwrap().is_empty(),
                "a fatal error was retried"
            );
            let e = r.expect_err("no success");
            ensure!(
                format!("{e:?}") == shown,
                "the fatal error {shown} became {e:?}"
            );
            return Ok(());
        }
        check_calls(&calls, &c.retry, c.failures, r.is_ok(), c.trace, "error")?;
        match r {
            Ok(k) => ensure!(k as u32 == c.failures, "error: returned {k}"),
            Err(e) => {
                ensure!(
                    matches!(e, OperationError::Fatal { .. }),
                    "exhausted retries left {e:?}"
                );
                ensure!(
                    same(e.fatal_strategy(), c.fatality),
                    "exhausted retries left strategy {:?}",
                    e.fatal_strategy()
                );
                let msg = e.as_err().to_string();
                ensure!(
                    msg == format!("failure {}", c.retry.max()),
                    "exhausted retries left the message {msg:?}"
                );
            }
        }
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TaskCase {
    cbor: bool,
    retry: Retry,
    failures: u32,
    fatality: Fatality,
    kind: u8,
    x: i64,
}

/// The execution of a task: one attempt, and what its strategy permits besides.
fn run_task(c: &TaskCase, rec: &mut Rec) -> Verdict {
    let act = match c.kind {
        0 => Act::Fatal(c.fatality),
        1 => Act::Panic,
        _ => Act::Flaky {
            failures: c.failures,
            retry: c.retry.clone(),
            fatality: c.fatality,
        },
    };
    let key = c.x.unsigned_abs() % 14;
    let guard = new_run([(key, act)]);
    rec.label(match c.kind {
        0 => "fatal at once",
        1 => "panics",
        _ => "transient",
    });
    if c.kind > 1 {
        classify(rec, &c.retry, c.failures);
    }
    vrt::run(1, async {
        *guard.run.start.lock().unwrap() = Some(tokio::time::Instant::now());
        let op = leak(Scripted { run: guard.id });
        let task = Task {
            routing_key: "key".to_string(),
            metadata: c.x,
            op,
            input: (key, c.x),
        };
        let any = task
            .as_any_task(serializer(c.cbor))
            .map_err(|e| e.to_string())?;
        let r = any.remote_execute(None).await;
        let attempts = guard.run.attempts_of(key) as u64;
        let permitted = if c.kind > 1 {
            c.retry.max() as u64 + 2
        } else {
            1
        };
        let failures = if c.kind > 1 { c.failures as u64 } else { 1 };
        let want = (failures + 1).min(permitted);
        ensure!(
            attempts == want,
            "{attempts} attempts instead of {want} ({:?}, failing {failures} times)",
            c.retry
        );
        // The first retry comes at once, further ones after the declared delay.
        let times = guard
            .run
            .times
            .lock()
            .unwrap()
            .get(&7)
            .cloned()
            .unwrap_or_default();
        if c.kind > 1 {
            let pause = match c.retry {
                Retry::Immediate(_) => 0,
                Retry::After(_, ms) => ms,
            };
            for (k, w) in times.windows(2).enumerate().skip(1) {
                ensure!(
                    w[1] - w[0] == pause,
                    "a delay of {} ms before retry {k} instead of {pause} ms",
                    w[1] - w[0]
                );
            }
        }
        match r {
            Ok(out) => {
                ensure!(failures < permitted, "success although it should be exhausted");
                let out: TaskOutput<Scripted, i64> =
                    out.try_into().map_err(|e| format!("decoding: {e:#}"))?;
                ensure!(out.metadata == c.x, "metadata became {}", out.metadata);
                ensure!(
                    out.output == (key, scripted_value(c.x)),
                    "output {:?}",
                    out.output
                );
            }
            Err(e) => {
                ensure!(failures >= permitted, "failed although a retry is permitted: {e}");
                ensure!(
                    matches!(e, OperationError::Fatal { .. }),
                    "left the transient error {e:?}"
                );
                if c.kind == 1 {
                    ensure!(
                        same(e.fatal_strategy(), Fatality::Terminate),
                        "a panic led to strategy {:?}",
                        e.fatal_strategy()
                    );
                } else {
                    ensure!(
                        same(e.fatal_strategy(), c.fatality),
                        "the declared strategy became {:?}",
                        e.fatal_strategy()
                    );
                    let want = failure_msg(key, attempts as u32);
                    ensure!(
                        e.as_err().to_string() == want,
                        "the last message {want:?} became {:?}",
                        e.as_err().to_string()
                    );
                }
            }
        }
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Through {
    cbor: bool,
    workers: usize,
    /// Retries and permitted numbers of failures.
    items: Vec<(Retry, u32, Fatality)>,
    sorted: bool,
}

/// A map whose tasks fail, but succeed in time.
fn run_through(c: &Through, rec: &mut Rec) -> Verdict {
    let script = c.items.iter().enumerate().map(|(k, (retry, f, fatality))| {
        (
            k as u64,
            Act::Flaky {
                failures: f % (retry.max() + 2),
                retry: retry.clone(),
                fatality: *fatality,
            },
        )
    });
    let guard = new_run(script);
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let op = leak(Scripted { run: guard.id });
        let n = c.items.len();
        let rt = pool.rt.clone();
        let sorted = c.sorted;
        let mut job = Job::spawn(no_input(), |caller| async move {
            use paladin::directive::{Directive, IndexedStream};
            let input: Vec<(u64, i64)> = (0..n as u64).map(|k| (k, k as i64)).collect();
            let s = IndexedStream::from(input)
                .map(op)
                .run(&rt)
                .await
                .map_err(|e| format!("{e:#}"))?;
            if sorted {
                caller.sorted(s).await
            } else {
                caller.consume(s, false).await
            }
        });
        completion(&mut job).await;
        let seen = job.seen.lock().unwrap().clone();
        ensure!(
            seen.done == Some(Ok(())),
            "a map whose tasks succeed in time ended with {:?}",
            seen.done
        );
        let mut got = seen.items;
        got.sort();
        let want: Vec<_> = (0..n)
            .map(|k| (k, format!("{:?}", (k as u64, scripted_value(k as i64)))))
            .collect();
        let (mut g, mut w) = (got.clone(), want.clone());
        g.sort();
        w.sort();
        ensure!(g == w, "the map yielded {got:?} instead of {want:?}");
        let mut retried = 0;
        for (k, (retry, f, _)) in c.items.iter().enumerate() {
            let want = f % (retry.max() + 2) + 1;
            retried += want - 1;
            let got = guard.run.attempts_of(k as u64);
            ensure!(got == want, "element {k}: {got} attempts instead of {want}");
        }
        ensure!(pool.stopped() == 0, "a worker stopped: {:?}", pool.outcomes().await);
        rec.count("retries", retried as u64);
        rec.nontrivial(retried > 0 && n > 1);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Growing {
    min_ms: u64,
    failures: u32,
    through_error: bool,
}

fn exponential(min: Duration, max: Duration) -> RetryStrategy {
    RetryStrategy::Exponential {
        min_duration: min,
        max_duration: max,
    }
}

async fn call<O, F, Fut>(
    through_error: bool,
    s: RetryStrategy,
    f: F,
    traced: &Mutex<Vec<String>>,
) -> Result<O, String>
where
    F: Fn() -> Fut,
    Fut: std::future::Future<Output = Result<O, String>>,
{
    if through_error {
        let first: OperationError =
            TransientError::from_str("initial", s, FatalStrategy::Ignore).into();
        let g = || async {
            f().await.map_err(|e| {
                OperationError::from(TransientError::from_str(&e, s, FatalStrategy::Ignore))
            })
        };
        let t = |e: OperationError| traced.lock().unwrap().push(e.as_err().to_string());
        first.retry_trace(g, t).await.map_err(|e| {
            if !matches!(
                e,
                OperationError::Fatal {
                    strategy: FatalStrategy::Ignore,
                    ..
                }
            ) {
                return format!("not fatal, or of another strategy: {e:?}");
            }
            e.as_err().to_string()
        })
    } else {
        s.retry_trace(f, |e| traced.lock().unwrap().push(e)).await
    }
}

/// Growing delays, on the virtual clock; never exhausted.
fn run_growing(c: &Growing, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let times: Mutex<Vec<u64>> = Default::default();
        let traced: Mutex<Vec<String>> = Default::default();
        let start = tokio::time::Instant::now();
        let f = || async {
            let mut t = times.lock().unwrap();
            t.push((tokio::time::Instant::now() - start).as_millis() as u64);
            let k = t.len() - 1;
            if k < c.failures as usize {
                Err(format!("failure {k}"))
            } else {
                Ok(k)
            }
        };
        let min = Duration::from_millis(c.min_ms);
        let s = exponential(min, Duration::from_secs(24 * 3600));
        let r = call(c.through_error, s, f, &traced).await;
        ensure!(r.is_ok(), "gave up early: {r:?}");
        let times = times.lock().unwrap();
        ensure!(
            times.len() == c.failures as usize + 1,
            "{} attempts instead of {}",
            times.len(),
            c.failures + 1
        );
        let want: Vec<String> = (0..c.failures).map(|k| format!("failure {k}")).collect();
        let traced = traced.lock().unwrap();
        ensure!(*traced == want, "traced {traced:?} instead of {want:?}");
        // Randomized by up to half, at most a minute (and a half).
        for (k, w) in times.windows(2).enumerate() {
            let d = (w[1] - w[0]) as f64;
            let base = (c.min_ms as f64 * 1.5f64.powi(k as i32)).min(60_000.0);
            ensure!(
                d >= 0.5 * base - 1.0 && d <= 1.5 * base + 2.0,
                "delay {k} is {d} ms with an initial interval of {} ms",
                c.min_ms
            );
        }
        rec.nontrivial(c.failures > 2);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounded {
    min_us: u64,
    max_ms: u64,
    through_error: bool,
}

/// Bounded in total, which the crate measures in real time. Nothing here
/// depends on how fast this machine is: only bounds are checked that hold for
/// any pace.
fn run_bounded(c: &Bounded, rec: &mut Rec) -> Verdict {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .map_err(|e| e.to_string())?;
    rt.block_on(async {
        let calls: Mutex<usize> = Default::default();
        let traced: Mutex<Vec<String>> = Default::default();
        let min = Duration::from_micros(c.min_us);
        let max = Duration::from_millis(c.max_ms);
        // Delays add up to more than the limit after this many at the latest.
        let mut sum = 0.0;
        let mut most = 2;
        while sum <= max.as_secs_f64() {
            sum += 0.5 * min.as_secs_f64() * 1.5f64.powi(most - 2);
            most += 1;
        }
        let f = || async {
            let mut n = calls.lock().unwrap();
            *n += 1;
            if *n > most as usize + 50 {
                return Ok(());
            }
            Err::<(), _>(format!("failure {}", *n - 1))
        };
        let start = Instant::now();
        let r = call(c.through_error, exponential(min, max), f, &traced).await;
        let took = start.elapsed();
        let n = *calls.lock().unwrap();
        ensure!(
            n <= most as usize,
            "{n} attempts; the total is bounded by {max:?}, which {most} attempts exceed"
        );
        ensure!(
            r == Err(format!("failure {}", n - 1)),
            "exhausted with {r:?} in attempt {n}"
        );
        // It gives up only if waiting once more might exceed the limit.
        let next = 1.5 * min.as_secs_f64() * 1.5f64.powi(n as i32 - 1);
        ensure!(
            took.as_secs_f64() + next >= max.as_secs_f64(),
            "exhausted after {took:?} in attempt {n} already, with a limit of {max:?}"
        );
        let want: Vec<String> = (0..n - 1).map(|k| format!("failure {k}")).collect();
        let traced = traced.lock().unwrap();
        ensure!(*traced == want, "traced {traced:?} instead of {want:?}");
        rec.nontrivial(n > 2);
        Ok(())
    })
}

/// The defaults, and that conversions of errors preserve what they convey.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conversion {
    msg: String,
    retry: Retry,
    fatality: Fatality,
}

fn run_conversion(c: &Conversion, rec: &mut Rec) -> Verdict {
    #[derive(Debug)]
    struct Plain(String);
    impl std::fmt::Display for Plain {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Plain {}

    let retry: RetryStrategy = (&c.retry).into();
    let strategy: FatalStrategy = c.fatality.into();
    let transients: Vec<OperationError> = vec![
        TransientError::from_str(&c.msg, retry, strategy).into(),
        TransientError::new(Plain(c.msg.clone()), retry, strategy).into(),
        TransientError::from_anyhow(anyhow::anyhow!(c.msg.clone()), retry, strategy).into(),
    ];
    for t in transients {
        ensure!(
            format!("{t}").contains(&c.msg),
            "displaying it lost the message: {t}"
        );
        ensure!(same(t.fatal_strategy(), c.fatality), "strategy of {t:?}");
        match &t {
            OperationError::Transient { retry_strategy, .. } => ensure!(
                format!("{retry_strategy:?}") == format!("{retry:?}"),
                "strategy {retry:?} became {retry_strategy:?}"
            ),
            _ => return Err(format!("not transient: {t:?}")),
        }
        let f = t.into_fatal();
        ensure!(matches!(f, OperationError::Fatal { .. }), "not fatal: {f:?}");
        ensure!(same(f.fatal_strategy(), c.fatality), "strategy of {f:?}");
        ensure!(f.as_err().to_string() == c.msg, "message of {f:?}");
    }
    let fatals: Vec<OperationError> = vec![
        FatalError::from_str(&c.msg, strategy).into(),
        FatalError::new(Plain(c.msg.clone()), strategy).into(),
        FatalError::from_anyhow(anyhow::anyhow!(c.msg.clone()), strategy).into(),
    ];
    for f in fatals {
        ensure!(
            format!("{f}").contains(&c.msg),
            "displaying it lost the message: {f}"
        );
        let f = f.into_fatal();
        ensure!(matches!(f, OperationError::Fatal { .. }), "not fatal: {f:?}");
        ensure!(same(f.fatal_strategy(), c.fatality), "strategy of {f:?}");
        ensure!(f.into_err().to_string() == c.msg, "message of a fatal error");
    }
    // Errors converted with `?` get the defaults.
    let t: OperationError = TransientError::from(Plain(c.msg.clone())).into();
    let want = RetryStrategy::Immediate {
        max_retries: NonZeroU32::new(3).expect("not zero"),
    };
    match &t {
        OperationError::Transient {
            retry_strategy,
            fatal_strategy,
            ..
        } => ensure!(
            format!("{retry_strategy:?}") == format!("{want:?}")
                && matches!(fatal_strategy, FatalStrategy::Terminate),
            "default strategies are {retry_strategy:?}, {fatal_strategy:?}"
        ),
        _ => return Err(format!("not transient: {t:?}")),
    }
    let f: OperationError = FatalError::from(Plain(c.msg.clone())).into();
    ensure!(
        same(f.fatal_strategy(), Fatality::Terminate) && matches!(f, OperationError::Fatal { .. }),
        "the default fatal error is {f:?}"
    );
    rec.nontrivial(!c.msg.is_empty());
    Ok(())
}


pub fn property() -> Property {
    Property {
        id: "C05",
        assumptions: &[
            "executing a task makes one attempt and, if that fails transiently, hands over to the strategy, which makes one attempt and the permitted number of retries (as the crate's documentation tests assert)",
            "all failures of an execution declare the same strategies",
            "exponential backoff is that of the backoff crate: factor 1.5, randomized by half, capped at a minute",
        ],
        facets: vec![
            facet(
                "direct",
                "retrying a function that fails a generated number of times around the limit, by a strategy itself and by an operation's error, traced or not, on the virtual clock; non-trivial: it fails at least once",
                Budget::new(30_000, 1_000_000),
                case,
                run_direct,
            ),
            facet(
                "task",
                "executing a task that fails fatally, by panic, or transiently so many times; non-trivial: a transient failure",
                Budget::new(12_000, 400_000),
                || {
                    (any::<bool>(), with_failures(), fatality(), 0u8..8, any::<i64>())
                        .prop_map(|(cbor, (retry, failures), fatality, kind, x)| TaskCase {
                            cbor,
                            retry,
                            failures,
                            fatality,
                            kind,
                            x,
                        })
                        .boxed()
                },
                run_task,
            ),
            facet(
                "through",
                "maps on one to five workers whose tasks fail up to the permitted number of times; non-trivial: several elements and at least one retry",
                Budget::new(4_000, 120_000),
                || {
                    let retry = || {
                        prop_oneof![
                            (1u32..5).prop_map(Retry::Immediate),
                            (1u32..5, 0u64..5000).prop_map(|(n, ms)| Retry::After(n, ms))
                        ]
                    };
                    (
                        any::<bool>(),
                        1usize..6,
                        proptest::collection::vec((retry(), any::<u32>(), fatality()), 1..12),
                        any::<bool>(),
                    )
                        .prop_map(|(cbor, workers, items, sorted)| Through {
                            cbor,
                            workers,
                            items,
                            sorted,
                        })
                        .boxed()
                },
                run_through,
            ),
            facet(
                "growing",
                "exponential backoff with up to fourteen failures on the virtual clock; non-trivial: more than two failures",
                Budget::new(20_000, 500_000),
                || {
                    (1u64..500, 0u32..15, any::<bool>())
                        .prop_map(|(min_ms, failures, through_error)| Growing {
                            min_ms,
                            failures,
                            through_error,
                        })
                        .boxed()
                },
                run_growing,
            ),
            facet(
                "bounded",
                "exhausting exponential backoff in real time; non-trivial: more than two attempts",
                Budget::new(1_600, 40_000).shrink(60),
                || {
                    (500u64..4000, 5u64..30, any::<bool>())
                        .prop_map(|(min_us, max_ms, through_error)| Bounded {
                            min_us,
                            max_ms,
                            through_error,
                        })
                        .boxed()
                },
                run_bounded,
            ),
            facet(
                "errors",
                "constructing and converting errors with generated messages and strategies; non-trivial: a message that isn't empty",
                Budget::new(20_000, 400_000),
                || {
                    (".{0,30}", retry(), fatality())
                        .prop_map(|(msg, retry, fatality)| Conversion {
                            msg,
                            retry,
                            fatality,
                        })
                        .boxed()
                },
                run_conversion,
            ),
        ],
    }
}
