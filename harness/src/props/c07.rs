//! C07: jobs on one runtime are isolated from each other.
//! C16 (second part): the queues of completed directives are released.
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c01::{completion, emulator};
use crate::{
    core::{facet, Budget, Facet, Property, Rec, Verdict},
    driver::{steps, Step, World},
    ensure,
    jobs::{compare, map_spec, spawn, spec, JobSpec},
    vrt,
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Fate {
    Completes,
    /// Dropped after so many decisions.
    Dropped(u8),
    /// The caller stops polling its stream after so many decisions.
    Abandoned(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Member {
    spec: JobSpec,
    fate: Fate,
    /// Starts after so many decisions.
    start: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Jobs {
    cbor: bool,
    members: Vec<Member>,
    steps: Vec<Step>,
    /// One more job in the end.
    last: JobSpec,
}

fn member() -> BoxedStrategy<Member> {
    let fate = prop_oneof![
        3 => Just(Fate::Completes),
        1 => (0u8..100).prop_map(Fate::Dropped),
        1 => (0u8..100).prop_map(Fate::Abandoned),
    ];
    (spec(14), fate, prop_oneof![2 => Just(0u8), 1 => 0u8..80])
        .prop_map(|(spec, fate, start)| Member { spec, fate, start })
        .boxed()
}

fn jobs() -> BoxedStrategy<Jobs> {
    (any::<bool>(), vec(member(), 2..6), steps(160), spec(6))
        .prop_map(|(cbor, members, steps, last)| Jobs {
            cbor,
            members,
            steps,
            last,
        })
        .boxed()
}

fn run_jobs(c: &Jobs, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let mut w = World::new(c.cbor).await?;
        let mut order: Vec<usize> = vec![];
        let mut abandoned = vec![false; c.members.len()];
        let n = c.steps.len();
        for i in 0..=n {
            for (k, m) in c.members.iter().enumerate() {
                // Whatever has not started by the end of the decisions does then.
                let start = (m.start as usize).min(n);
                if start == i {
                    let job = spawn(&m.spec, &w.rt, 0, true);
                    w.jobs.push(job);
                    order.push(k);
                }
                if let Some(at) = order.iter().position(|x| *x == k) {
                    match m.fate {
                        Fate::Dropped(d) if i >= d as usize && !w.jobs[at].finished() => {
                            w.jobs[at].cancel();
                            rec.count("dropped midway", 1);
                        }
                        Fate::Abandoned(d) if i >= d as usize && !abandoned[k] => {
                            abandoned[k] = true;
                            w.jobs[at].abandon();
                        }
                        _ => {}
                    }
                }
            }
            if i < n {
                w.step(c.steps[i]).await?;
            }
        }
        w.finish().await?;
        let after = spawn(&c.last, &w.rt, 0, true);
        w.jobs.push(after);
        w.finish().await?;
        for (at, k) in order.iter().enumerate() {
            let seen = w.jobs[at].seen.lock().unwrap().clone();
            let m = &c.members[*k];
            if w.jobs[at].dropped {
                continue;
            }
            if matches!(m.fate, Fate::Abandoned(_)) && !m.spec.is_fold() {
                rec.count("abandoned streams", 1);
                continue;
            }
            compare(&m.spec, &seen).map_err(|e| format!("job {k}: {e}"))?;
            rec.count("completed jobs", 1);
        }
        let seen = w.jobs.last().expect("a job").seen.lock().unwrap().clone();
        compare(&c.last, &seen).map_err(|e| format!("the job after all others: {e}"))?;
        rec.label(format!("{} jobs", c.members.len()));
        rec.nontrivial(w.stats.reordered > 0 && w.stats.executed > 3);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Live {
    cbor: bool,
    workers: usize,
    /// With the number of scheduler turns after which the job is dropped.
    members: Vec<(JobSpec, Option<u8>)>,
    sequential: bool,
}

fn run_live(c: &Live, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let rt = emulator(c.cbor, c.workers).await?;
        let mut running = vec![];
        for (k, (spec, drop)) in c.members.iter().enumerate() {
            let mut job = spawn(spec, &rt, 0, false);
            job.open();
            if let Some(turns) = drop {
                for _ in 0..*turns {
                    tokio::task::yield_now().await;
                }
                job.cancel();
                rec.count("dropped", 1);
            } else if c.sequential {
                completion(&mut job).await;
            }
            running.push((k, job));
        }
        for (k, job) in &mut running {
            completion(job).await;
            if !job.dropped {
                let seen = job.seen.lock().unwrap().clone();
                compare(&c.members[*k].0, &seen).map_err(|e| format!("job {k}: {e}"))?;
            }
        }
        rec.label(format!("{} jobs", c.members.len()));
        rec.label_if(c.sequential, "one after another");
        rec.nontrivial(c.members.iter().filter(|m| m.0.items.len() > 1).count() > 1);
        Ok(())
    })?
}

/// Many threads, to have genuine parallelism among directives and workers.
fn run_parallel(c: &Live, rec: &mut Rec) -> Verdict {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .enable_all()
        .build()
        .map_err(|e| e.to_string())?;
    let r = rt.block_on(async {
        let pal = emulator(c.cbor, c.workers).await?;
        let mut running = vec![];
        for (spec, drop) in &c.members {
            let mut job = spawn(spec, &pal, 0, false);
            job.open();
            if drop.is_some() {
                job.cancel();
            }
            running.push(job);
        }
        for (job, (spec, _)) in running.iter_mut().zip(&c.members) {
            // No limit: the engine's watchdog reports a case that takes forever
            // as inconclusive.
            while !job.finished() {
                tokio::time::sleep(std::time::Duration::from_micros(200)).await;
            }
            if !job.dropped {
                let seen = job.seen.lock().unwrap().clone();
                compare(spec, &seen)?;
            }
        }
        rec.nontrivial(c.members.iter().filter(|m| m.0.items.len() > 1).count() > 1);
        Ok(())
    });
    rt.shutdown_background();
    r
}

fn live(max: usize) -> BoxedStrategy<Live> {
    (
        any::<bool>(),
        1usize..7,
        vec(
            (spec(max), proptest::option::weighted(0.25, 0u8..60)),
            2..6,
        ),
        any::<bool>(),
    )
        .prop_map(|(cbor, workers, members, sequential)| Live {
            cbor,
            workers,
            members,
            sequential,
        })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C07",
        assumptions: &[
            "dropping means dropping the future of the directive or its result stream; a worker already executing one of its tasks carries on",
        ],
        facets: vec![
            facet(
                "driven",
                "two to five maps and folds on one runtime, starting at generated points, some dropped or abandoned midway, with generated interleaving of inputs, executions, deliveries and polls, and one more job afterwards; non-trivial: more than three tasks executed, not in order",
                Budget::new(16_000, 500_000).shrink(10_000),
                jobs,
                run_jobs,
            ),
            facet(
                "emulated",
                "two to five jobs, concurrent or one after another, on one to six emulated workers on a virtual clock, some dropped midway; non-trivial: two jobs with several elements",
                Budget::new(5_000, 150_000),
                || live(30),
                run_live,
            ),
            facet(
                "parallel",
                "the same on a multi-threaded executor; non-trivial: two jobs with several elements",
                Budget::new(1_500, 40_000).shards(3).shrink(100),
                || live(30),
                run_parallel,
            ),
            facet(
                "many",
                "fifty to four hundred small jobs on one runtime, all at the same time or one after another, some dropped midway; non-trivial: two jobs with several elements",
                Budget::new(120, 4_000).shrink(300),
                || {
                    (
                        any::<bool>(),
                        1usize..7,
                        vec(
                            (spec(4), proptest::option::weighted(0.1, 0u8..60)),
                            50..400,
                        ),
                        any::<bool>(),
                    )
                        .prop_map(|(cbor, workers, members, sequential)| Live {
                            cbor,
                            workers,
                            members,
                            sequential,
                        })
                        .boxed()
                },
                run_live,
            ),
        ],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leak {
    cbor: bool,
    specs: Vec<JobSpec>,
    steps: Vec<Step>,
    /// Drop the jobs at the end of the steps rather than completing them.
    drop: bool,
}

/// The same after many of them.
pub fn many_released() -> Facet {
    facet(
        "many",
        "fifty to three hundred small directives, all at the same time or one after another, completed and consumed on emulated workers; the queues of the in-memory broker are compared before and after; every case is non-trivial",
        Budget::new(80, 3_000).shrink(300),
        || {
            (
                any::<bool>(),
                1usize..5,
                vec(spec(3), 50..300),
                any::<bool>(),
            )
                .prop_map(|(cbor, workers, specs, sequential)| Live {
                    cbor,
                    workers,
                    members: specs.into_iter().map(|s| (s, None)).collect(),
                    sequential,
                })
                .boxed()
        },
        |c: &Live, rec| {
            vrt::run(1, async {
                let rt = emulator(c.cbor, c.workers).await?;
                vrt::settle().await;
                let names = || {
                    let mut n = crate::hooks::queue_names(&rt);
                    n.sort();
                    n
                };
                let before = names();
                let mut running = vec![];
                for (spec, _) in &c.members {
                    let mut job = spawn(spec, &rt, 0, false);
                    job.open();
                    if c.sequential {
                        completion(&mut job).await;
                    }
                    running.push(job);
                }
                for job in &mut running {
                    completion(job).await;
                }
                drop(running);
                vrt::settle().await;
                let after = names();
                ensure!(
                    before == after,
                    "queues {before:?} became {after:?} after {} directives",
                    c.members.len()
                );
                rec.nontrivial(true);
                Ok(())
            })?
        },
    )
}

/// The queues of completed or dropped directives are gone.
pub fn queues_released() -> Facet {
    facet(
        "directives",
        "one to three maps and folds, completed and consumed or dropped at a generated point, driven by hand; the queues of the in-memory broker are compared before and after; non-trivial: tasks were executed",
        Budget::new(20_000, 600_000).shrink(10_000),
        || {
            (
                any::<bool>(),
                vec(prop_oneof![spec(9), map_spec(9)], 1..4),
                steps(50),
                proptest::bool::weighted(0.4),
            )
                .prop_map(|(cbor, specs, steps, drop)| Leak {
                    cbor,
                    specs,
                    steps,
                    drop,
                })
                .boxed()
        },
        |c: &Leak, rec| {
            vrt::run(1, async {
                let mut w = World::new(c.cbor).await?;
                w.settle().await;
                let names = |w: &World| {
                    let mut n = crate::hooks::queue_names(&w.rt);
                    n.sort();
                    n
                };
                let before = names(&w);
                for s in &c.specs {
                    let job = spawn(s, &w.rt, 0, true);
                    w.jobs.push(job);
                }
                for s in &c.steps {
                    w.step(*s).await?;
                }
                if c.drop {
                    for j in &mut w.jobs {
                        if !j.finished() {
                            j.cancel();
                            rec.label("dropped midway");
                        }
                    }
                    w.settle().await;
                } else {
                    w.finish().await?;
                    rec.label("completed");
                    w.settle().await;
                }
                let after = names(&w);
                ensure!(
                    before == after,
                    "queues {before:?} became {after:?} although all directives are over"
                );
                rec.nontrivial(w.stats.executed > 0);
                Ok(())
            })?
        },
    )
}
