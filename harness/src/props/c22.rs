//! C22: a worker answers every task exactly once on its own routing key.
use std::{
    collections::BTreeSet,
    sync::{atomic::Ordering, Arc, Mutex},
    time::Duration,
};

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c04::Plan;
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{new_run, scripted_value, Act, Affine, Constant, Fatality, Rich, Scripted, Sink, Wrap},
    vrt,
    worker::{entries, rest, turns, Lease, Pool},
};

type Meta = (u64, String);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unit {
    lease: u8,
    plan: Plan,
    /// Failures are ignored rather than terminate.
    ignored: bool,
    /// Part of the metadata.
    text: String,
    x: i64,
    /// Let the workers proceed before the next one is published.
    pause: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Answers {
    cbor: bool,
    workers: usize,
    leases: u8,
    units: Vec<Unit>,
    /// One that fails for good, and what is published after that.
    failing: Option<(Plan, u8, Vec<Unit>)>,
}

fn unit() -> BoxedStrategy<Unit> {
    let plan = prop_oneof![
        6 => Just(Plan::Fine),
        1 => Just(Plan::Fatal),
        2 => super::c04::plan(3),
    ];
    (
        any::<u8>(),
        plan,
        ".{0,12}",
        prop_oneof![any::<i64>(), -10i64..10],
        proptest::bool::weighted(0.2),
    )
        .prop_map(|(lease, plan, text, x, pause)| Unit {
            lease,
            // Terminating failures are dealt with separately.
            plan: match plan {
                Plan::Panic => Plan::Fatal,
                p => p,
            },
            ignored: true,
            text,
            x,
            pause,
        })
        .boxed()
}

fn answers() -> BoxedStrategy<Answers> {
    let bad = super::c04::plan(20).prop_map(|p| match p {
        Plan::Fine | Plan::Flaky(..) => Plan::Fatal,
        p => p,
    });
    (
        any::<bool>(),
        1usize..5,
        1u8..5,
        vec(unit(), 0..25),
        proptest::option::weighted(0.4, (bad, any::<u8>(), vec(unit(), 0..6))),
    )
        .prop_map(|(cbor, workers, leases, units, failing)| Answers {
            cbor,
            workers,
            leases,
            units,
            failing,
        })
        .boxed()
}

/// Answers arriving before the end of the execution.
type Early = Arc<Mutex<Vec<u64>>>;

fn run_answers(c: &Answers, rec: &mut Rec) -> Verdict {
    let mut all: Vec<Unit> = c.units.clone();
    let bad = c.failing.as_ref().map(|_| c.units.len());
    if let Some((plan, lease, later)) = &c.failing {
        all.push(Unit {
            lease: *lease,
            plan: plan.clone(),
            ignored: false,
            text: String::new(),
            x: 0,
            pause: true,
        });
        all.extend(later.iter().cloned());
    }
    let guard = new_run(all.iter().enumerate().map(|(k, u)| {
        let f = if u.ignored {
            Fatality::Ignore
        } else {
            Fatality::Terminate
        };
        (k as u64, u.plan.act(f))
    }));
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let early: Early = Default::default();
        let mut leases = vec![];
        for _ in 0..c.leases {
            let run = guard.run.clone();
            let early = early.clone();
            let op = Scripted { run: guard.id };
            let l = Lease::watched(&pool.rt, op, move |a| {
                if let Ok((m, _)) = a {
                    if !run.ended.lock().unwrap().contains(&m.0) {
                        early.lock().unwrap().push(m.0);
                    }
                }
            })
            .await?;
            leases.push(l);
        }
        let mut before: Vec<String> = crate::hooks::queue_names(&pool.rt);
        let n_leases = leases.len();
        let lease_of = |u: &Unit| u.lease as usize % n_leases;
        for (k, u) in all.iter().enumerate() {
            if Some(k) == bad {
                // What comes before is over and done with.
                tokio::time::sleep(Duration::from_secs(60)).await;
            }
            let meta: Meta = (k as u64, u.text.clone());
            leases[lease_of(u)].send(meta, (k as u64, u.x)).await?;
            if u.pause {
                rest().await;
            }
            if Some(k) == bad {
                tokio::time::sleep(Duration::from_secs(60)).await;
            }
        }
        tokio::time::sleep(Duration::from_secs(120)).await;
        // The answers of each task, wherever they arrived.
        let mut seen: Vec<Vec<(usize, (u64, i64), String)>> = vec![vec![]; all.len()];
        let mut errors: Vec<(usize, String)> = vec![];
        for (l, lease) in leases.iter().enumerate() {
            for a in lease.answers() {
                match a {
                    Ok(((k, text), out)) => match seen.get_mut(k as usize) {
                        Some(s) => s.push((l, out, text)),
                        None => return Err(format!("an answer to an unknown task {k}")),
                    },
                    Err(e) => errors.push((l, e)),
                }
            }
        }
        for (k, u) in all.iter().enumerate() {
            let fine = vec![(
                lease_of(u),
                (k as u64, scripted_value(u.x)),
                u.text.clone(),
            )];
            let n = guard.run.attempts_of(k as u64);
            if bad.is_some_and(|b| k > b) {
                // The workers are about to stop.
                ensure!(
                    seen[k].is_empty() || (seen[k] == fine && !u.plan.fails()),
                    "task {k} has the answers {:?}",
                    seen[k]
                );
                continue;
            }
            let want = if u.plan.fails() { vec![] } else { fine };
            ensure!(
                seen[k] == want,
                "task {k} ({:?}) of job {} has the answers {:?} instead of {want:?}",
                u.plan,
                lease_of(u),
                seen[k]
            );
            ensure!(
                n == u.plan.attempts(),
                "task {k} ({:?}) was attempted {n} times",
                u.plan
            );
        }
        match bad {
            None => ensure!(errors.is_empty(), "error messages {errors:?}"),
            Some(b) => {
                let (l, msg) = (lease_of(&all[b]), all[b].plan.message(b as u64));
                ensure!(
                    errors.len() == 1 && errors[0].0 == l && errors[0].1.contains(&msg),
                    "the error messages are {errors:?} instead of {msg:?} for job {l}"
                );
            }
        }
        let early = early.lock().unwrap().clone();
        ensure!(
            early.is_empty(),
            "tasks {early:?} were answered before their execution had ended"
        );
        let most = guard.run.max_active.load(Ordering::SeqCst);
        ensure!(
            most <= c.workers as u64,
            "{most} tasks at a time on {} workers",
            c.workers
        );
        // Answers to other keys would have created queues.
        let mut after = crate::hooks::queue_names(&pool.rt);
        before.sort();
        after.sort();
        ensure!(
            before == after,
            "the queues {before:?} became {after:?}"
        );
        if bad.is_none() {
            ensure!(
                pool.stopped() == 0,
                "workers ended: {:?}",
                pool.outcomes().await
            );
        }
        rec.label(format!("{} workers", c.workers));
        rec.label_if(bad.is_some(), "a terminating failure");
        rec.label_if(
            all.iter().any(|u| matches!(u.plan, Plan::Flaky(..))),
            "retries",
        );
        rec.nontrivial(c.units.iter().filter(|u| !u.plan.fails()).count() > 1);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blocked {
    cbor: bool,
    workers: usize,
    leases: u8,
    /// Leases of the tasks.
    tasks: Vec<u8>,
    /// The order in which they are unblocked.
    order: Vec<u8>,
}

/// All executions are blocked and ended in a generated order.
fn run_blocked(c: &Blocked, rec: &mut Rec) -> Verdict {
    let n = c.tasks.len();
    let guard = new_run((0..n as u64).map(|k| {
        let gate = k as u32;
        (k, Act::Gate { gate, heed: false })
    }));
    vrt::run(1, async {
        let pool = Pool::new(c.cbor, c.workers).await?;
        let early: Early = Default::default();
        let mut leases = vec![];
        for _ in 0..c.leases {
            let run = guard.run.clone();
            let early = early.clone();
            let op = Scripted { run: guard.id };
            let l = Lease::watched(&pool.rt, op, move |a| {
                if let Ok((m, _)) = a {
                    if !run.open.lock().unwrap().contains(&(m.0 as u32)) {
                        early.lock().unwrap().push(m.0);
                    }
                }
            })
            .await?;
            leases.push(l);
        }
        for (k, l) in c.tasks.iter().enumerate() {
            let k = k as u64;
            leases[*l as usize % leases.len()]
                .send((k, String::new()), (k, k as i64))
                .await?;
        }
        let mut opened = BTreeSet::new();
        let mut result = Ok(());
        for o in &c.order {
            let busy = c.workers.min(n - opened.len());
            result = entries(&guard.run, opened.len() + busy).await;
            turns(20).await;
            let entered = guard.run.entered();
            if entered.len() > opened.len() + busy {
                result = Err(format!(
                    "tasks {entered:?} were begun by {} workers while only {opened:?} may have ended",
                    c.workers
                ));
            }
            if result.is_err() || busy == 0 {
                break;
            }
            let waiting: Vec<u64> = entered
                .into_iter()
                .filter(|k| !opened.contains(k))
                .collect();
            let k = waiting[*o as usize % waiting.len()];
            opened.insert(k);
            guard.run.open(k as u32);
        }
        for k in 0..n {
            guard.run.open(k as u32);
        }
        result?;
        rest().await;
        for (l, lease) in leases.iter().enumerate() {
            let mut got = lease.answers();
            got.sort_by_key(|a| a.as_ref().map_or(0, |a| a.0 .0));
            let want: Vec<_> = (0..n)
                .filter(|k| c.tasks[*k] as usize % leases.len() == l)
                .map(|k| {
                    let k = k as u64;
                    Ok(((k, String::new()), (k, scripted_value(k as i64))))
                })
                .collect();
            ensure!(got == want, "job {l} got {got:?} instead of {want:?}");
        }
        let early = early.lock().unwrap().clone();
        ensure!(
            early.is_empty(),
            "tasks {early:?} were answered while being executed"
        );
        let most = guard.run.max_active.load(Ordering::SeqCst);
        ensure!(most <= c.workers as u64, "{most} tasks at a time");
        rec.label(format!("{} workers", c.workers));
        rec.nontrivial(n > c.workers && !c.order.is_empty());
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Various {
    cbor: bool,
    workers: usize,
    ints: Vec<i64>,
    rich: Vec<Rich>,
    a: i64,
    b: i64,
}

/// Part of the metadata; sometimes long.
fn text(i: usize, salt: i64) -> String {
    let h = (i as u64 ^ salt as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 40;
    match h % 8 {
        0 => format!("{i}{}", "ü".repeat(h as usize % 3000)),
        1 => format!("{i}{}", "x".repeat(h as usize % 70_000)),
        _ => format!("{i}"),
    }
}

/// Different operations with outputs of various sizes and shapes.
fn run_various(c: &Various, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let pool = Pool::new(c.cbor, c.workers).await?;
        let affine = Lease::new(&pool.rt, Affine { a: c.a, b: c.b }).await?;
        let swapped = Lease::new(&pool.rt, Affine { a: c.b, b: c.a }).await?;
        let wrap = Lease::new(&pool.rt, Wrap { tag: c.a as u32 }).await?;
        let sink = Lease::new(&pool.rt, Sink).await?;
        let constant = Lease::new(&pool.rt, Constant { value: c.b }).await?;
        for i in 0..c.ints.len().max(c.rich.len()) {
            let meta = (i as u64, text(i, c.a));
            if let Some(x) = c.ints.get(i) {
                affine.send(meta.clone(), *x).await?;
                swapped.send(meta.clone(), *x).await?;
                sink.send(meta.clone(), *x).await?;
                constant.send(meta.clone(), ()).await?;
            }
            if let Some(x) = c.rich.get(i) {
                wrap.send(meta, x.clone()).await?;
            }
        }
        rest().await;
        fn judge<T: std::fmt::Debug>(
            got: Vec<crate::worker::Answer<T>>,
            want: Vec<T>,
            a: i64,
        ) -> Verdict {
            let mut got: Vec<_> = got
                .into_iter()
                .map(|a| a.map(|(m, o)| (m.0, m.1, format!("{o:?}"))))
                .collect::<Result<_, _>>()?;
            got.sort();
            let want: Vec<_> = want
                .iter()
                .enumerate()
                .map(|(i, o)| (i as u64, text(i, a), format!("{o:?}")))
                .collect();
            ensure!(got == want, "answers {got:?} instead of {want:?}");
            Ok(())
        }
        let apply = |a: i64, b: i64| -> Vec<i64> {
            let f = |x: &i64| a.wrapping_mul(*x).wrapping_add(b);
            c.ints.iter().map(f).collect()
        };
        judge(affine.answers(), apply(c.a, c.b), c.a)?;
        judge(swapped.answers(), apply(c.b, c.a), c.a)?;
        judge(sink.answers(), vec![(); c.ints.len()], c.a)?;
        judge(constant.answers(), vec![c.b; c.ints.len()], c.a)?;
        judge(
            wrap.answers(),
            c.rich
                .iter()
                .map(|x| Rich::List(vec![Rich::Nat(c.a as u32 as u64), x.clone()]))
                .collect(),
            c.a,
        )?;
        rec.nontrivial(c.ints.len() > 1 && !c.rich.is_empty());
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeated {
    cbor: bool,
    workers: usize,
    a: i64,
    b: i64,
    /// Operation, input, metadata, number of copies, and a rest after them.
    sends: Vec<(u8, i64, u8, u8, bool)>,
}

/// Tasks that are all alike are as many tasks.
fn run_repeated(c: &Repeated, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let pool = Pool::new(c.cbor, c.workers).await?;
        let affine = Lease::new(&pool.rt, Affine { a: c.a, b: c.b }).await?;
        let same = Lease::new(&pool.rt, Affine { a: c.a, b: c.b }).await?;
        let sink = Lease::new(&pool.rt, Sink).await?;
        let constant = Lease::new(&pool.rt, Constant { value: c.b }).await?;
        let mut want: [Vec<(u64, String, String)>; 4] = Default::default();
        let (mut most, mut sent) = (0, 0);
        for (op, x, m, copies, pause) in &c.sends {
            let meta = (*m as u64, String::new());
            let op = (*op % 4) as usize;
            for _ in 0..*copies {
                let y = match op {
                    0 => affine.send(meta.clone(), *x).await.map(|_| format!("{:?}", affine_of(c, *x))),
                    1 => same.send(meta.clone(), *x).await.map(|_| format!("{:?}", affine_of(c, *x))),
                    2 => sink.send(meta.clone(), *x).await.map(|_| "()".to_string()),
                    _ => constant.send(meta.clone(), ()).await.map(|_| format!("{:?}", c.b)),
                }?;
                want[op].push((*m as u64, String::new(), y));
                sent += 1;
            }
            most = most.max(*copies);
            if *pause {
                rest().await;
            }
        }
        rest().await;
        fn judge<T: std::fmt::Debug>(
            got: Vec<crate::worker::Answer<T>>,
            mut want: Vec<(u64, String, String)>,
        ) -> Verdict {
            let mut got: Vec<_> = got
                .into_iter()
                .map(|a| a.map(|(m, o)| (m.0, m.1, format!("{o:?}"))))
                .collect::<Result<_, _>>()?;
            got.sort();
            want.sort();
            ensure!(got == want, "answers {got:?} instead of {want:?}");
            Ok(())
        }
        let [w0, w1, w2, w3] = want;
        judge(affine.answers(), w0)?;
        judge(same.answers(), w1)?;
        judge(sink.answers(), w2)?;
        judge(constant.answers(), w3)?;
        rec.nontrivial(most > 1 && sent > 2);
        Ok(())
    })?
}

fn affine_of(c: &Repeated, x: i64) -> i64 {
    c.a.wrapping_mul(x).wrapping_add(c.b)
}

pub fn property() -> Property {
    Property {
        id: "C22",
        assumptions: &[
            "acknowledgements leave no trace in the in-memory backend; their number is checked on the AMQP backend (see C20)",
            "after a failure in terminate mode the workers are about to stop, such that further tasks may be answered or not",
        ],
        facets: vec![
            facet(
                "answers",
                "up to 25 tasks of up to four jobs on one to four workers, succeeding, retried or failing with the ignore strategy, then possibly one failing for good and a few more; non-trivial: at least two tasks succeed",
                Budget::new(12_000, 400_000),
                answers,
                run_answers,
            ),
            facet(
                "many",
                "one to four jobs with a hundred to 1500 tasks on one to four workers; non-trivial: at least two tasks succeed",
                Budget::new(120, 4_000).shrink(300),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        1u8..5,
                        prop_oneof![100u64..300, 300u64..1500],
                        any::<u64>(),
                        prop_oneof![Just(0u64), Just(5), Just(50)],
                    )
                        .prop_map(|(cbor, workers, leases, n, seed, percent)| Answers {
                            cbor,
                            workers,
                            leases,
                            units: (0..n)
                                .map(|k| {
                                    let h = (seed ^ k).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
                                    Unit {
                                        lease: (h >> 8) as u8,
                                        plan: if h % 100 < percent {
                                            Plan::Fatal
                                        } else {
                                            Plan::Fine
                                        },
                                        ignored: true,
                                        text: String::new(),
                                        x: k as i64,
                                        pause: false,
                                    }
                                })
                                .collect(),
                            failing: None,
                        })
                        .boxed()
                },
                run_answers,
            ),
            facet(
                "blocked",
                "up to twelve tasks whose executions are blocked and end in a generated order; non-trivial: more tasks than workers",
                Budget::new(8_000, 250_000),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        1u8..4,
                        vec(any::<u8>(), 0..13),
                        vec(any::<u8>(), 0..13),
                    )
                        .prop_map(|(cbor, workers, leases, tasks, order)| Blocked {
                            cbor,
                            workers,
                            leases,
                            tasks,
                            order,
                        })
                        .boxed()
                },
                run_blocked,
            ),
            facet(
                "various",
                "tasks of several operations and parameters at a time, with inputs and outputs of many shapes; non-trivial: at least two integers and one other value",
                Budget::new(8_000, 250_000),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        vec(any::<i64>(), 0..12),
                        vec(crate::ops::rich(), 0..6),
                        any::<i64>(),
                        any::<i64>(),
                    )
                        .prop_map(|(cbor, workers, ints, rich, a, b)| Various {
                            cbor,
                            workers,
                            ints,
                            rich,
                            a,
                            b,
                        })
                        .boxed()
                },
                run_various,
            ),
            facet(
                "repeated",
                "tasks of up to four jobs, two of which have the same operation, with equal inputs and metadata, many in succession; non-trivial: equal tasks and at least three in total",
                Budget::new(6_000, 150_000),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        any::<i64>(),
                        any::<i64>(),
                        vec(
                            (any::<u8>(), 0i64..3, 0u8..3, 1u8..5, proptest::bool::weighted(0.2)),
                            1..10,
                        ),
                    )
                        .prop_map(|(cbor, workers, a, b, sends)| Repeated {
                            cbor,
                            workers,
                            a,
                            b,
                            sends,
                        })
                        .boxed()
                },
                run_repeated,
            ),
        ],
    }
}
