//! C17: abort commands stop what they address and nothing else.
use std::time::Duration;

use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{
        failure_msg, new_run, scripted_value, Act, Brittle, BrittleOp, Fatality, Retry, RunGuard,
        Scripted, NO_DE,
    },
    vrt,
    worker::{entries, rest, scripted, turns, Lease, Pool},
};

/// Enough for everything that can happen without waiting to have happened.
const SETTLED: usize = 400;

fn meta(k: u64) -> (u64, String) {
    (k, format!("task {k}"))
}

async fn send(l: &Lease<Scripted>, k: u64) -> Verdict {
    l.send(meta(k), (k, k as i64)).await
}

fn answer(k: u64) -> ((u64, String), (u64, i64)) {
    (meta(k), (k, scripted_value(k as i64)))
}

// --- Aborting jobs -------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Event {
    Task(u8),
    Abort(u8),
    /// Abort a job that nobody knows.
    Stranger(String),
    /// Wait until everything has been processed.
    Rest,
    /// Wait for some seconds.
    Pause(u8),
    /// Abort jobs while a task of this one is being executed.
    Hold(u8, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aborts {
    cbor: bool,
    workers: usize,
    jobs: u8,
    events: Vec<Event>,
}

fn aborts() -> BoxedStrategy<Aborts> {
    let event = prop_oneof![
        6 => any::<u8>().prop_map(Event::Task),
        2 => any::<u8>().prop_map(Event::Abort),
        1 => "[a-z]{0,6}".prop_map(Event::Stranger),
        3 => Just(Event::Rest),
        2 => prop_oneof![1u8..60, 1u8..150].prop_map(Event::Pause),
        1 => (any::<u8>(), vec(any::<u8>(), 0..4)).prop_map(|(j, a)| Event::Hold(j, a)),
    ];
    (any::<bool>(), 1usize..5, 1u8..5, vec(event, 0..40))
        .prop_map(|(cbor, workers, jobs, events)| Aborts {
            cbor,
            workers,
            jobs,
            events,
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Executed,
    Skipped,
    Either,
}

fn run_aborts(c: &Aborts, rec: &mut Rec) -> Verdict {
    let guard = new_run([]);
    let jobs = c.jobs as usize;
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let mut leases = vec![];
        for _ in 0..jobs {
            leases.push(scripted(&pool.rt, guard.id).await?);
        }
        // Job and fate of each task.
        let mut tasks: Vec<(usize, Fate)> = vec![];
        // Workers need not remember an abort command for more than a minute.
        let mut when: Vec<Option<tokio::time::Instant>> = vec![None; jobs];
        let forgets = |t: &Option<tokio::time::Instant>| {
            t.is_some_and(|t| t.elapsed() > Duration::from_secs(58))
        };
        // Aborted before the last rest, and since then.
        let mut aborted = vec![false; jobs];
        let mut aborting = vec![false; jobs];
        let mut since_rest = 0;
        let rested = |aborted: &mut Vec<bool>, aborting: &mut Vec<bool>| {
            for j in 0..jobs {
                aborted[j] |= aborting[j];
                aborting[j] = false;
            }
        };
        let doubt = |tasks: &mut Vec<(usize, Fate)>, from: usize, j: usize| {
            for t in &mut tasks[from..] {
                if t.0 == j && t.1 == Fate::Executed {
                    t.1 = Fate::Either;
                }
            }
        };
        for e in c.events.iter().chain([&Event::Rest]) {
            match e {
                Event::Task(j) => {
                    let j = *j as usize % jobs;
                    let k = tasks.len() as u64;
                    let fate = if forgets(&when[j]) {
                        Fate::Either
                    } else if aborted[j] {
                        Fate::Skipped
                    } else if aborting[j] {
                        Fate::Either
                    } else {
                        Fate::Executed
                    };
                    tasks.push((j, fate));
                    send(&leases[j], k).await?;
                }
                Event::Abort(j) => {
                    let j = *j as usize % jobs;
                    if !aborted[j] || forgets(&when[j]) {
                        doubt(&mut tasks, since_rest, j);
                        aborted[j] = false;
                        aborting[j] = true;
                    }
                    when[j] = Some(tokio::time::Instant::now());
                    pool.abort(&leases[j].id).await?;
                }
                Event::Stranger(key) => pool.abort(key).await?,
                Event::Rest | Event::Pause(_) => {
                    rest().await;
                    if let Event::Pause(secs) = e {
                        rec.label("pause");
                        tokio::time::sleep(Duration::from_secs(*secs as u64)).await;
                    }
                    since_rest = tasks.len();
                    rested(&mut aborted, &mut aborting);
                }
                Event::Hold(j, cmds) => {
                    rest().await;
                    rested(&mut aborted, &mut aborting);
                    let j = *j as usize % jobs;
                    if aborted[j] {
                        since_rest = tasks.len();
                        continue;
                    }
                    let k = tasks.len() as u64;
                    let act = Act::Gate {
                        gate: k as u32,
                        heed: false,
                    };
                    guard.run.script.lock().unwrap().insert(k, act);
                    send(&leases[j], k).await?;
                    guard.run.await_entry(k).await?;
                    let mut fate = Fate::Executed;
                    for a in cmds {
                        let a = *a as usize % jobs;
                        pool.abort(&leases[a].id).await?;
                        aborted[a] = true;
                        when[a] = Some(tokio::time::Instant::now());
                        if a == j {
                            fate = Fate::Either;
                        }
                    }
                    turns(SETTLED).await;
                    let signalled = guard.run.signal(k);
                    guard.run.open(k as u32);
                    rest().await;
                    ensure!(
                        !signalled,
                        "aborting jobs signalled task {k} of job {j} to abort"
                    );
                    tasks.push((j, fate));
                    since_rest = tasks.len();
                    rec.label("aborts during an execution");
                }
            }
        }
        tokio::time::sleep(Duration::from_secs(70)).await;
        let (mut skipped, mut executed) = (0, 0);
        for (k, (j, fate)) in tasks.iter().enumerate() {
            let n = guard.run.attempts_of(k as u64);
            let want = Ok(answer(k as u64));
            let answers: usize = leases
                .iter()
                .enumerate()
                .map(|(l, lease)| {
                    let n = lease.answers().iter().filter(|a| **a == want).count();
                    usize::from(l == *j) * n
                })
                .sum();
            match fate {
                Fate::Executed => {
                    executed += 1;
                    ensure!(
                        n == 1 && answers == 1,
                        "task {k} of job {j}, which is not aborted, was executed {n} times and answered {answers} times"
                    );
                }
                Fate::Skipped => {
                    skipped += 1;
                    ensure!(
                        n == 0 && answers == 0,
                        "task {k} of the aborted job {j} was executed {n} times and answered {answers} times"
                    );
                }
                Fate::Either => ensure!(
                    n <= 1 && answers <= 1,
                    "task {k} of job {j} was executed {n} times and answered {answers} times"
                ),
            }
        }
        for (l, lease) in leases.iter().enumerate() {
            for a in lease.answers() {
                let known = (0..tasks.len())
                    .any(|k| tasks[k].0 == l && a == Ok(answer(k as u64)));
                ensure!(known, "job {l} got the answer {a:?}");
            }
        }
        ensure!(
            pool.stopped() == 0,
            "aborting jobs stopped a worker: {:?}",
            pool.outcomes().await
        );
        rec.count("tasks skipped", skipped);
        rec.count("tasks executed", executed);
        rec.nontrivial(skipped > 0 && executed > 0);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    cbor: bool,
    workers: usize,
    jobs: usize,
    strangers: usize,
    /// Every so many jobs, one is spared.
    spare: usize,
    /// Seconds between two commands, and before the tasks; all within a minute.
    pace: u8,
    wait: u8,
    /// Tell the workers about the jobs in the opposite order.
    backwards: bool,
}

/// The tasks of hundreds of aborted jobs are discarded, those of others are not.
fn run_many(c: &Many, rec: &mut Rec) -> Verdict {
    let guard = new_run([]);
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let mut leases = vec![];
        for _ in 0..c.jobs {
            leases.push(scripted(&pool.rt, guard.id).await?);
        }
        let spared = |j: usize| j % c.spare == c.spare - 1;
        let mut order: Vec<usize> = (0..c.jobs).filter(|j| !spared(*j)).collect();
        if c.backwards {
            order.reverse();
        }
        let begin = tokio::time::Instant::now();
        for (i, j) in order.iter().enumerate() {
            pool.abort(&leases[*j].id).await?;
            if i < c.strangers {
                pool.abort(&format!("stranger {i}")).await?;
            }
            // Half a minute in total.
            let ms = c.pace as u64 * 1000 / 256 * 30 / order.len() as u64;
            tokio::time::sleep(Duration::from_millis(ms)).await;
        }
        for i in order.len()..c.strangers {
            pool.abort(&format!("stranger {i}")).await?;
        }
        rest().await;
        tokio::time::sleep(Duration::from_secs(c.wait as u64)).await;
        ensure!(begin.elapsed() < Duration::from_secs(58), "too slow");
        for k in 0..c.jobs {
            send(&leases[k], k as u64).await?;
        }
        rest().await;
        tokio::time::sleep(Duration::from_secs(1)).await;
        for (j, lease) in leases.iter().enumerate() {
            let n = guard.run.attempts_of(j as u64);
            let answers = lease.answers();
            let want = if spared(j) {
                vec![Ok(answer(j as u64))]
            } else {
                vec![]
            };
            ensure!(
                n as usize == want.len() && answers == want,
                "the task of job {j} of {} ({}) was executed {n} times and has the answers {answers:?}",
                c.jobs,
                if spared(j) { "not aborted" } else { "aborted" }
            );
        }
        ensure!(
            pool.stopped() == 0,
            "aborting jobs stopped a worker: {:?}",
            pool.outcomes().await
        );
        rec.count("aborted jobs", order.len() as u64);
        rec.nontrivial(c.jobs > order.len());
        Ok(())
    })?
}

// --- Aborting everything -------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    /// The job of an execution, or another one.
    Job(u8),
    Stranger(String),
    All,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct All {
    cbor: bool,
    workers: usize,
    jobs: u8,
    /// Jobs of the tasks, and whether the operation heeds the signal.
    tasks: Vec<(u8, bool)>,
    /// Commands, each with a number of scheduler turns to follow.
    before: Vec<(Cmd, u8)>,
    after: Vec<(Cmd, u8)>,
    turns: u8,
    /// Published to whoever is left, after so many seconds.
    later: Vec<u8>,
    #[serde(default)]
    wait: u16,
}

fn all() -> BoxedStrategy<All> {
    let cmds = || {
        let cmd = prop_oneof![
            3 => any::<u8>().prop_map(Cmd::Job),
            2 => "[a-z]{0,6}".prop_map(Cmd::Stranger),
            1 => Just(Cmd::All),
        ];
        vec((cmd, prop_oneof![3 => Just(0u8), 1 => 0u8..20]), 0..5)
    };
    (
        any::<bool>(),
        1usize..5,
        1u8..4,
        vec((any::<u8>(), any::<bool>()), 0..7),
        cmds(),
        cmds(),
        prop_oneof![2 => Just(0u8), 1 => 0u8..30],
        vec(any::<u8>(), 0..6),
        prop_oneof![2 => Just(0u16), 1 => 0u16..300],
    )
        .prop_map(
            |(cbor, workers, jobs, tasks, before, after, turns, later, wait)| All {
                cbor,
                workers,
                jobs,
                tasks,
                before,
                after,
                turns,
                later,
                wait,
            },
        )
        .boxed()
}

async fn commands(pool: &Pool, leases: &[Lease<Scripted>], cmds: &[(Cmd, u8)]) -> Verdict {
    for (c, t) in cmds {
        match c {
            Cmd::Job(j) => pool.abort(&leases[*j as usize % leases.len()].id).await?,
            Cmd::Stranger(s) => pool.abort(s).await?,
            Cmd::All => pool.abort_all().await?,
        }
        turns(*t as usize).await;
    }
    Ok(())
}

fn no_answers(leases: &[Lease<Scripted>], when: &str) -> Verdict {
    for (j, l) in leases.iter().enumerate() {
        let got = l.answers();
        ensure!(got.is_empty(), "job {j} got {got:?} {when}");
    }
    Ok(())
}

fn run_all(c: &All, rec: &mut Rec) -> Verdict {
    let n = c.tasks.len();
    let script = c.tasks.iter().enumerate().map(|(k, (_, heed))| {
        (
            k as u64,
            Act::Gate {
                gate: 1,
                heed: *heed,
            },
        )
    });
    let guard = new_run(script);
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let mut leases = vec![];
        for _ in 0..c.jobs {
            leases.push(scripted(&pool.rt, guard.id).await?);
        }
        for (k, (j, _)) in c.tasks.iter().enumerate() {
            send(&leases[*j as usize % leases.len()], k as u64).await?;
        }
        let executing = n.min(c.workers);
        if let Err(e) = entries(&guard.run, executing).await {
            guard.run.open(1);
            return Err(e);
        }
        let entered = guard.run.entered();
        commands(&pool, &leases, &c.before).await?;
        pool.abort_all().await?;
        turns(c.turns as usize).await;
        commands(&pool, &leases, &c.after).await?;
        turns(SETTLED).await;
        let unsignalled: Vec<u64> = entered
            .iter()
            .copied()
            .filter(|k| !guard.run.signal(*k))
            .collect();
        let early = no_answers(&leases, "before anything was executed");
        // Unblock them before anything else, as the clock stands still.
        guard.run.open(1);
        ensure!(
            unsignalled.is_empty(),
            "after aborting all, the executions {unsignalled:?} (of {entered:?}) are not signalled"
        );
        early?;
        tokio::time::sleep(Duration::from_secs(1)).await;
        ensure!(
            pool.stopped() == 0,
            "{} workers ended without a grace period",
            pool.stopped()
        );
        tokio::time::sleep(Duration::from_secs(60)).await;
        ensure!(
            pool.stopped() >= executing,
            "{} of the {executing} workers that were executing something have ended",
            pool.stopped()
        );
        no_answers(&leases, "although everything was aborted")?;
        // Workers that were idle end with the next task. That one is blocked, as
        // it may be completed if it gets there first.
        tokio::time::sleep(Duration::from_secs(c.wait as u64)).await;
        let idle = c.workers - pool.stopped();
        for (i, j) in c.later.iter().enumerate() {
            let k = (n + i) as u64;
            let heed = i % 2 == 0;
            guard.run.script.lock().unwrap().insert(k, Act::Gate { gate: 2, heed });
            send(&leases[*j as usize % leases.len()], k).await?;
        }
        turns(SETTLED).await;
        guard.run.open(2);
        tokio::time::sleep(Duration::from_secs(60)).await;
        no_answers(&leases, "after everything was aborted")?;
        let jobs_alive = c
            .before
            .iter()
            .chain(&c.after)
            .all(|x| !matches!(x.0, Cmd::Job(_)));
        if jobs_alive && c.later.len() >= idle {
            ensure!(
                pool.stopped() == c.workers,
                "{} of {} workers have ended",
                pool.stopped(),
                c.workers
            );
        }
        for o in pool.outcomes().await {
            o?;
        }
        rec.label(format!("{executing} executing, {idle} idle"));
        rec.nontrivial(executing > 0 && c.before.len() + c.after.len() > 0);
        Ok(())
    })?
}

// --- Fatal failures ------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum How {
    /// The task can't be decoded.
    Undecodable,
    Fatal,
    Panic,
    Exhausted(u32, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failure {
    cbor: bool,
    workers: usize,
    /// What the other workers execute in the meantime heeds the signal.
    heed: Vec<bool>,
    how: How,
    /// Tasks published afterwards.
    later: u8,
    before: Vec<(Cmd, u8)>,
}

fn failure() -> BoxedStrategy<Failure> {
    let how = prop_oneof![
        2 => Just(How::Undecodable),
        1 => Just(How::Fatal),
        1 => Just(How::Panic),
        1 => (1u32..4, 0u16..2000).prop_map(|(n, ms)| How::Exhausted(n, ms)),
    ];
    let cmd = prop_oneof![any::<u8>().prop_map(Cmd::Job), "[a-z]{0,6}".prop_map(Cmd::Stranger)];
    (
        any::<bool>(),
        1usize..5,
        vec(any::<bool>(), 0..5),
        how,
        0u8..8,
        vec((cmd, 0u8..5), 0..3),
    )
        .prop_map(|(cbor, workers, heed, how, later, before)| Failure {
            cbor,
            workers,
            heed,
            how,
            later,
            before,
        })
        .boxed()
}

fn run_failure(c: &Failure, rec: &mut Rec) -> Verdict {
    const BAD: u64 = 1003; // a long message

    // Only the decoding fails without leaving the thread, such that it can be
    // waited for while others are blocked.
    let blocked = match c.how {
        How::Undecodable => c.heed.len().min(c.workers - 1),
        _ => 0,
    };
    let guard: RunGuard = new_run((0..blocked).map(|k| {
        (
            k as u64,
            Act::Gate {
                gate: 1,
                heed: c.heed[k],
            },
        )
    }));
    let (act, want) = match c.how {
        How::Undecodable => (Act::Ok, NO_DE.to_string()),
        How::Fatal => (Act::Fatal(Fatality::Terminate), failure_msg(BAD, 1)),
        How::Panic => (Act::Panic, "panicked".to_string()),
        How::Exhausted(n, ms) => (
            Act::Flaky {
                failures: u32::MAX,
                retry: Retry::After(n, ms as u64),
                fatality: Fatality::Terminate,
            },
            failure_msg(BAD, n + 2),
        ),
    };
    guard.run.script.lock().unwrap().insert(BAD, act);
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let job = scripted(&pool.rt, guard.id).await?;
        // A job whose tasks are never published: aborting it is irrelevant.
        let idle_job = scripted(&pool.rt, guard.id).await?;
        let fine = Brittle {
            value: 1,
            no_ser: false,
            no_de: false,
        };
        let brittle = Lease::new(
            &pool.rt,
            BrittleOp {
                own: fine.clone(),
                bad_ser: vec![],
                bad_de: vec![],
            },
        )
        .await?;
        let failing = scripted(&pool.rt, guard.id).await?;
        for k in 0..blocked as u64 {
            send(&job, k).await?;
        }
        if let Err(e) = entries(&guard.run, blocked).await {
            guard.run.open(1);
            return Err(e);
        }
        commands(&pool, std::slice::from_ref(&idle_job), &c.before).await?;
        let errors: Vec<String>;
        if matches!(c.how, How::Undecodable) {
            let bad = Brittle {
                no_de: true,
                ..fine
            };
            brittle.send(meta(BAD), bad).await?;
            turns(SETTLED).await;
            let unsignalled: Vec<u64> = (0..blocked as u64)
                .filter(|k| !guard.run.signal(*k))
                .collect();
            let early = no_answers(std::slice::from_ref(&job), "while blocked");
            guard.run.open(1);
            ensure!(
                unsignalled.is_empty(),
                "after a fatal failure elsewhere, the executions {unsignalled:?} of {blocked} are not signalled"
            );
            early?;
            rest().await;
            let got = brittle.answers();
            ensure!(got.len() == 1, "the failing task was answered with {got:?}");
            errors = got.into_iter().filter_map(Result::err).collect();
        } else {
            send(&failing, BAD).await?;
            tokio::time::sleep(Duration::from_secs(30)).await;
            let got = failing.answers();
            ensure!(got.len() == 1, "the failing task was answered with {got:?}");
            errors = got.into_iter().filter_map(Result::err).collect();
        }
        ensure!(
            errors.len() == 1
                && (errors[0].contains(&want)
                    || matches!(c.how, How::Undecodable) && !c.cbor),
            "the failing task was answered with {errors:?} instead of {want:?}"
        );
        tokio::time::sleep(Duration::from_secs(60)).await;
        ensure!(
            pool.stopped() >= blocked,
            "{} of {blocked} workers that were executing something have ended",
            pool.stopped()
        );
        // The failed one and those that were idle end with the next task.
        let left = c.workers - pool.stopped();
        for i in 0..c.later as u64 {
            let k = 2000 + i;
            let heed = i % 2 == 0;
            guard.run.script.lock().unwrap().insert(k, Act::Gate { gate: 2, heed });
            send(&job, k).await?;
        }
        turns(SETTLED).await;
        guard.run.open(2);
        tokio::time::sleep(Duration::from_secs(60)).await;
        no_answers(std::slice::from_ref(&job), "after a fatal failure")?;
        if c.later as usize >= left {
            ensure!(
                pool.stopped() == c.workers,
                "{} of {} workers have ended",
                pool.stopped(),
                c.workers
            );
        }
        for o in pool.outcomes().await {
            o?;
        }
        rec.label(match c.how {
            How::Undecodable => "undecodable",
            How::Fatal => "fatal",
            How::Panic => "panic",
            How::Exhausted(..) => "exhausted retries",
        });
        rec.label(format!("{blocked} blocked"));
        rec.nontrivial(c.workers > 1 && (blocked > 0 || c.later > 0));
        Ok(())
    })?
}

pub fn property() -> Property {
    Property {
        id: "C17",
        assumptions: &[
            "a worker has processed a command once it is at rest; commands and tasks published in between may take effect in either order",
            "an execution in flight when its job is aborted may be answered or not",
            "the grace period is between one second and one minute",
            "a worker that is idle when everything is aborted ends as it is given its next task",
        ],
        facets: vec![
            facet(
                "jobs",
                "sequences of up to forty events (tasks of up to four jobs, aborts of known and unknown jobs, rests, aborts during an execution) on one to four workers; non-trivial: tasks skipped as well as executed",
                Budget::new(12_000, 400_000),
                aborts,
                run_aborts,
            ),
            facet(
                "many",
                "twenty to a thousand jobs, most of them aborted along with unknown ones within half a minute, then a task of each; non-trivial: some are not aborted",
                Budget::new(150, 5_000).shrink(300),
                || {
                    (
                        (any::<bool>(), 1usize..5),
                        prop_oneof![20usize..200, 200usize..1000],
                        prop_oneof![Just(0usize), 0usize..1000],
                        2usize..50,
                        any::<u8>(),
                        0u8..27,
                        any::<bool>(),
                    )
                        .prop_map(
                            |((cbor, workers), jobs, strangers, spare, pace, wait, backwards)| Many {
                                cbor,
                                workers,
                                jobs,
                                strangers,
                                spare,
                                pace,
                                wait,
                                backwards,
                            },
                        )
                        .boxed()
                },
                run_many,
            ),
            facet(
                "all",
                "aborting all in a generated burst of other abort commands, with workers executing blocked operations (heeding the signal or not) or idle; non-trivial: an execution and another command",
                Budget::new(12_000, 400_000),
                all,
                run_all,
            ),
            facet(
                "failures",
                "a fatal failure of either kind in terminate mode, with the other workers blocked or idle; non-trivial: several workers, some blocked or given further tasks",
                Budget::new(8_000, 250_000),
                failure,
                run_failure,
            ),
        ],
    }
}
