//! C01: distributed map equals local map.
//! C02: distributed fold equals the in-order reduction.
//! C03: directives over finite inputs always complete.
use std::{collections::BTreeSet, sync::Arc, time::Duration};

use paladin::runtime::Runtime;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Facet, Property, Rec, Verdict},
    driver::{config, steps, Job, Stats, Step, World},
    ensure,
    jobs::{compare, fold_spec, map_spec, spawn, spec, JobSpec, Prog},
    ops::{new_run, register, RunGuard},
    vrt,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Driven {
    pub cbor: bool,
    pub spec: JobSpec,
    pub steps: Vec<Step>,
}

pub fn driven_case(spec: BoxedStrategy<JobSpec>, max_steps: usize) -> BoxedStrategy<Driven> {
    (any::<bool>(), spec, steps(max_steps))
        .prop_map(|(cbor, spec, steps)| Driven { cbor, spec, steps })
        .boxed()
}

fn classify(s: &JobSpec, st: &Stats, rec: &mut Rec) {
    rec.label(format!("{:?}", s.prog));
    rec.label_if(st.reordered > 0, "executed or delivered out of order");
    rec.label_if(st.early > 0, "results before the end of the input");
    rec.label_if(st.bunched > 0, "bunched results");
    rec.label_if(st.migrations > 0, "caller migrated between tasks");
    rec.label_if(s.items.len() > 10, "more than ten items");
    rec.label_if(st.max_pending > 10, "more than ten tasks pending");
    rec.count("tasks executed", st.executed as u64);
}

/// Runs the case; returns what the caller saw.
fn drive(c: &Driven, run: u64) -> Result<(crate::driver::Seen, Stats), String> {
    vrt::run(1, async {
        let mut w = World::new(c.cbor).await?;
        let job = spawn(&c.spec, &w.rt, run, true);
        w.jobs.push(job);
        for s in &c.steps {
            if !w.step(*s).await? {
                break;
            }
        }
        w.finish().await?;
        let seen = w.jobs[0].seen.lock().unwrap().clone();
        Ok((seen, w.stats.clone()))
    })?
}

fn run_map(c: &Driven, rec: &mut Rec) -> Verdict {
    let (seen, st) = drive(c, 0)?;
    classify(&c.spec, &st, rec);
    rec.nontrivial(st.executed > 1 && st.reordered > 0);
    compare(&c.spec, &seen)
}

/// Checks the combinations that have been executed.
fn combinations(c: &JobSpec, guard: &RunGuard) -> Verdict {
    let n = c.items.len();
    let log = guard.run.log.lock().unwrap().clone();
    if c.prog == Prog::FoldConcat {
        ensure!(
            log.len() == n.saturating_sub(1),
            "{} combinations were executed for {n} elements: {log:?}",
            log.len()
        );
        for l in &log {
            let nums: Vec<u64> = l
                .split(|c: char| !c.is_ascii_digit())
                .filter_map(|x| x.parse().ok())
                .collect();
            let ok = matches!(nums[..], [a, b, x, y] if a <= b && b + 1 == x && x <= y);
            ensure!(ok, "a combination isn't one of adjacent segments: {l}");
        }
    }
    Ok(())
}

fn run_fold(c: &Driven, rec: &mut Rec) -> Verdict {
    let guard = new_run([]);
    let (seen, st) = drive(c, guard.id)?;
    classify(&c.spec, &st, rec);
    rec.nontrivial(st.executed > 1 && st.reordered > 0);
    compare(&c.spec, &seen)?;
    let n = c.spec.items.len();
    let folds = n.saturating_sub(1);
    let want = match c.spec.prog {
        Prog::MapFold => n + folds,
        Prog::MapMapFold => 2 * n + folds,
        _ => folds,
    };
    ensure!(
        st.executed == want,
        "{} tasks were executed instead of {want}",
        st.executed
    );
    combinations(&c.spec, &guard)
}

fn run_complete(c: &Driven, rec: &mut Rec) -> Verdict {
    let (seen, st) = drive(c, 0)?;
    classify(&c.spec, &st, rec);
    rec.nontrivial(st.executed > 1 && (st.early > 0 || st.bunched > 0 || st.migrations > 0));
    ensure!(
        seen.done == Some(Ok(())),
        "the directive did not complete: {:?}",
        seen.done
    );
    if seen.value.is_none() {
        ensure!(
            seen.items.len() == c.spec.items.len(),
            "the stream ended after {} of {} elements",
            seen.items.len(),
            c.spec.items.len()
        );
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Emulated {
    pub cbor: bool,
    pub workers: usize,
    pub spec: JobSpec,
    /// The caller doesn't ask for results before everything has been executed.
    #[serde(default)]
    pub late: bool,
}

pub fn emulated_case(spec: BoxedStrategy<JobSpec>) -> BoxedStrategy<Emulated> {
    (any::<bool>(), 1usize..9, spec, proptest::bool::weighted(0.3))
        .prop_map(|(cbor, workers, spec, late)| Emulated {
            cbor,
            workers,
            spec,
            late,
        })
        .boxed()
}

pub async fn emulator(cbor: bool, workers: usize) -> Result<Arc<Runtime>, String> {
    Runtime::from_config(&config(cbor, workers), register())
        .await
        .map(Arc::new)
        .map_err(|e| format!("runtime: {e:#}"))
}

/// Waits (on the virtual clock) for the job to finish.
pub async fn completion(job: &mut Job) {
    job.open();
    while !job.finished() {
        tokio::time::sleep(Duration::from_secs(1)).await;
    }
}

fn emulate(c: &Emulated, run: u64) -> Result<crate::driver::Seen, String> {
    vrt::run(1, async {
        let rt = emulator(c.cbor, c.workers).await?;
        let mut job = spawn(&c.spec, &rt, run, false);
        if c.late {
            tokio::time::sleep(Duration::from_secs(1000)).await;
        }
        completion(&mut job).await;
        let seen = job.seen.lock().unwrap().clone();
        Ok(seen)
    })?
}

fn run_emulated(c: &Emulated, rec: &mut Rec) -> Verdict {
    let guard = new_run([]);
    let seen = emulate(c, guard.id)?;
    rec.label(format!("{:?}", c.spec.prog));
    rec.label(format!("{} workers", c.workers));
    rec.label_if(c.spec.items.len() > 10, "more than ten items");
    rec.label_if(c.spec.items.len() > 256, "more than 256 items");
    rec.nontrivial(c.workers > 1 && c.spec.items.len() > 1);
    compare(&c.spec, &seen)?;
    combinations(&c.spec, &guard)
}

fn emulated(name: &'static str, b: Budget, s: fn(usize) -> BoxedStrategy<JobSpec>) -> Facet {
    facet(
        name,
        "the same with one to eight emulated workers running their main loop on a virtual clock, inputs given at once; non-trivial: several workers and several elements",
        b,
        move || emulated_case(s(60)),
        run_emulated,
    )
}

fn large(name: &'static str, b: Budget, prog: Prog, reversed: bool) -> Facet {
    facet(
        name,
        "inputs of some hundred to some ten thousand elements on emulated workers; non-trivial: more than 256 elements",
        b.shrink(200),
        move || {
            (
                any::<bool>(),
                1usize..9,
                prop_oneof![4 => 250usize..600, 2 => 600usize..3000, 1 => 3000usize..12000],
                0u8..3,
                0usize..1000,
                any::<bool>(),
            )
                .prop_map(move |(cbor, workers, n, order, base, late)| {
                    let mut idx: Vec<usize> = (0..n).collect();
                    match order {
                        0 if reversed => idx.reverse(),
                        // Far from both orders, but cheap to shrink.
                        1 => idx.sort_by_key(|i| (i % 17, usize::MAX - i)),
                        _ => {}
                    }
                    Emulated {
                        cbor,
                        workers,
                        spec: JobSpec {
                            prog,
                            items: idx.into_iter().map(|i| (i + base, i as i64)).collect(),
                            rich: vec![],
                            a: 3,
                            b: 1,
                            sorted: false,
                        },
                        late,
                    }
                })
                .boxed()
        },
        |c, rec| {
            let guard = new_run([]);
            let seen = emulate(c, guard.id)?;
            rec.count("elements", c.spec.items.len() as u64);
            rec.nontrivial(c.spec.items.len() > 256);
            compare(&c.spec, &seen)?;
            combinations(&c.spec, &guard)
        },
    )
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        assumptions: &[
            "operations are deterministic and succeed",
            "execution order, arrival order and pacing are those a single-threaded virtual-clock executor and a hand-driven worker can produce, besides real worker threads in the emulated facets",
        ],
        facets: vec![
            facet(
                "driven",
                "map programs over literals and streams (arbitrary indices, both serializers, chains of up to three maps) with generated release, execution, delivery and polling order; non-trivial: several tasks, executed or delivered out of order",
                Budget::new(50_000, 1_500_000).shrink(20_000),
                || driven_case(map_spec(45), 90),
                run_map,
            ),
            emulated("emulated", Budget::new(10_000, 200_000), map_spec),
            large("large", Budget::new(48, 2_000), Prog::Map, true),
        ],
    }
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        assumptions: &[
            "input indices are distinct and contiguous, as documented",
            "the largest index is below usize::MAX - 1",
        ],
        facets: vec![
            facet(
                "driven",
                "folds with five monoids (the free monoid shows every combination) over permuted inputs starting at any index, also behind one or two maps, with generated release, execution, delivery and polling order; non-trivial: several tasks, executed or delivered out of order",
                Budget::new(50_000, 1_500_000).shrink(20_000),
                || driven_case(fold_spec(45), 90),
                run_fold,
            ),
            emulated("emulated", Budget::new(10_000, 200_000), fold_spec),
            large("large", Budget::new(40, 2_000), Prog::FoldConcat, true),
        ],
    }
}

/// Small inputs, on which few decisions cover most of the schedules.
fn small(name: &'static str, quick: u32, thorough: u32) -> Facet {
    facet(
        name,
        "inputs of up to five elements with long sequences of decisions, each followed by rest; non-trivial: more than one distinct index",
        Budget::new(quick, thorough),
        || {
            (
                any::<bool>(),
                spec(5),
                proptest::collection::vec((any::<u8>(), any::<u8>()), 20..60),
            )
                .prop_map(|(cbor, spec, s)| Driven {
                    cbor,
                    spec,
                    steps: s
                        .into_iter()
                        .map(|(kind, pick)| Step {
                            kind,
                            pick,
                            settle: true,
                        })
                        .collect(),
                })
                .boxed()
        },
        |c, rec| {
            run_complete(c, &mut Rec::default())?;
            let idx: BTreeSet<_> = c.spec.items.iter().map(|i| i.0).collect();
            rec.nontrivial(idx.len() > 1);
            rec.label(format!("{} items", c.spec.items.len()));
            Ok(())
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Feedback {
    driven: Driven,
    /// How many items to release at a time.
    batches: Vec<u8>,
}

/// The input waits for the results of all items given so far.
fn feedback() -> Facet {
    facet(
        "feedback",
        "chains of one to three maps whose input continues only after all results so far have been received, with generated batches and orders of execution and delivery; non-trivial: several batches, executed or delivered out of order",
        Budget::new(10_000, 300_000),
        || {
            (driven_case(map_spec(20), 60), proptest::collection::vec(0u8..5, 1..8))
                .prop_map(|(mut driven, batches)| {
                    driven.spec.sorted = false;
                    if matches!(driven.spec.prog, Prog::Lit | Prog::LitChain | Prog::LitRich) {
                        driven.spec.prog = Prog::MapTwice;
                    }
                    Feedback { driven, batches }
                })
                .boxed()
        },
        |c, rec| {
            let (spec, steps) = (&c.driven.spec, &c.driven.steps);
            let (seen, st, rounds) = vrt::run(1, async {
                let mut w = World::new(c.driven.cbor).await?;
                let mut job = spawn(spec, &w.rt, 0, true);
                job.open();
                w.jobs.push(job);
                let (mut released, mut rounds, mut step) = (0, 0, 0);
                while w.jobs[0].input.remaining() > 0 {
                    for _ in 0..=c.batches[rounds % c.batches.len()] {
                        released += usize::from(w.jobs[0].input.remaining() > 0);
                        w.jobs[0].input.release();
                    }
                    rounds += 1;
                    loop {
                        w.settle().await;
                        let s = steps.get(step).copied().unwrap_or(Step {
                            kind: 0,
                            pick: 0,
                            settle: true,
                        });
                        step += 1;
                        let pick = s.pick as usize;
                        let (p, h) = (w.pending.len(), w.held.len());
                        if p > 0 && (h == 0 || s.kind % 2 == 0) {
                            w.execute(pick % p).await?;
                        } else if h > 0 {
                            w.deliver(pick % h).await?;
                        } else {
                            break;
                        }
                    }
                    let got = w.jobs[0].seen.lock().unwrap().items.len();
                    ensure!(
                        got == released,
                        "hang: {released} items were given and all tasks executed, but only {got} results are available while the input is open"
                    );
                }
                w.finish().await?;
                let seen = w.jobs[0].seen.lock().unwrap().clone();
                Ok((seen, w.stats.clone(), rounds))
            })??;
            classify(spec, &st, rec);
            rec.nontrivial(rounds > 1 && st.reordered > 0);
            compare(spec, &seen)
        },
    )
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        assumptions: &[
            "completion is judged once every input has been released, every task executed and every result delivered, and nothing is runnable any more",
            "wake-ups are delivered by a single-threaded executor; finer interleavings of the coordinated channel are covered by C13",
        ],
        facets: vec![
            facet(
                "driven",
                "maps and folds with generated pacing of input, end of input, results and polls, and callers migrating between tasks; non-trivial: several tasks, with early or bunched results or a migrating caller",
                Budget::new(50_000, 1_500_000).shrink(20_000),
                || driven_case(spec(30), 120),
                run_complete,
            ),
            small("small", 30_000, 1_000_000),
            feedback(),
            large("large-map", Budget::new(32, 1_000), Prog::MapSink, true),
            large("large-fold", Budget::new(24, 1_000), Prog::FoldSum, true),
            facet(
                "emulated",
                "maps and folds on one to eight emulated workers; non-trivial: several workers and several elements",
                Budget::new(10_000, 200_000),
                || emulated_case(spec(60)),
                |c, rec| {
                    let seen = emulate(c, 0)?;
                    rec.label(format!("{:?}", c.spec.prog));
                    rec.nontrivial(c.workers > 1 && c.spec.items.len() > 1);
                    ensure!(
                        seen.done == Some(Ok(())),
                        "the directive did not complete: {:?}",
                        seen.done
                    );
                    Ok(())
                },
            ),
        ],
    }
}
