//! C23: runtimes and workers that are gone leave nothing running.
use std::{collections::BTreeSet, sync::Arc, time::Duration};

use futures::StreamExt;
use paladin::{
    directive::{Directive, IndexedStream},
    queue::Publisher,
    runtime::{CommandIpc, Runtime, WorkerRuntime, COMMAND_IPC_ABORT_ALL_KEY},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c20::{amqp_config, net, Net, Site};
use crate::{
    broker::{self, patient, Broker},
    core::{facet, Budget, Property, Rec, Verdict},
    driver::{config, leak},
    ensure,
    ops::{new_run, register, scripted_value, Act, Fatality, Retry, Scripted},
    vrt,
    worker::{entries, rest, scripted},
};

// --- In memory -----------------------------------------------------------

/// How the workers are employed when the runtime is dropped.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Busy {
    /// Not at all.
    Idle,
    /// More tasks than these can't be executed as yet.
    Executing(u8),
    /// Tasks failed, and will be tried again.
    Retrying(u8),
    /// Results are there but nobody has asked for more than so many of them.
    Unread(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drops {
    cbor: bool,
    workers: usize,
    /// Whether they get to run at all before.
    start: bool,
    /// Tasks that are executed before, and abort commands for jobs.
    before: u8,
    aborts: u8,
    busy: Busy,
    /// All workers are told to stop at last.
    abort_all: bool,
    /// Everything else goes first.
    last: bool,
}

fn drops() -> BoxedStrategy<Drops> {
    (
        any::<bool>(),
        0usize..6,
        proptest::bool::weighted(0.9),
        0u8..12,
        0u8..3,
        prop_oneof![
            1 => Just(Busy::Idle),
            3 => (1u8..12).prop_map(Busy::Executing),
            2 => (1u8..12).prop_map(Busy::Retrying),
            2 => (1u8..12, 0u8..12).prop_map(|(n, k)| Busy::Unread(n, k)),
        ],
        proptest::bool::weighted(0.3),
        any::<bool>(),
    )
        .prop_map(
            |(cbor, workers, start, before, aborts, busy, abort_all, last)| Drops {
                cbor,
                workers,
                start,
                before,
                aborts,
                busy,
                abort_all,
                last,
            },
        )
        .boxed()
}

fn alive() -> usize {
    tokio::runtime::Handle::current().metrics().num_alive_tasks()
}

async fn command(rt: &Runtime, key: &str) -> Verdict {
    let s = rt
        .get_command_ipc_sender()
        .await
        .map_err(|e| format!("{e:#}"))?;
    s.publish(&CommandIpc::Abort {
        routing_key: key.to_string(),
    })
    .await
    .map_err(|e| format!("{e:#}"))
}

fn run_drops(c: &Drops, rec: &mut Rec) -> Verdict {
    const FLAKY: u64 = 100;
    const GATED: u64 = 200;
    let script = (0..100)
        .map(|k| {
            let act = Act::Flaky {
                failures: 3,
                retry: Retry::After(5, 2000),
                fatality: Fatality::Terminate,
            };
            (FLAKY + k, act)
        })
        .chain((0..100).map(|k| {
            let act = Act::Gate {
                gate: 0,
                heed: false,
            };
            (GATED + k, act)
        }));
    let guard = new_run(script);
    vrt::run(1, async {
        let others = alive();
        let rt = Runtime::from_config(&config(c.cbor, c.workers), register())
            .await
            .map_err(|e| format!("runtime: {e:#}"))?;
        let workers = c.workers;
        let mut executed = 0;
        let mut lease = None;
        let mut stream = None;
        if c.start {
            rest().await;
            let l = scripted(&rt, guard.id).await?;
            for j in 0..c.aborts {
                command(&rt, &format!("job {j}")).await?;
            }
            if workers > 0 {
                for k in 0..c.before as u64 {
                    l.send((k, String::new()), (k, 1)).await?;
                }
                executed += c.before as usize;
                rest().await;
                ensure!(
                    l.answers().len() == executed,
                    "{} answers instead of {executed}",
                    l.answers().len()
                );
            }
            match c.busy {
                Busy::Idle => {}
                Busy::Executing(n) => {
                    for k in 0..n as u64 {
                        l.send((k, String::new()), (GATED + k, 1)).await?;
                    }
                    executed += workers.min(n as usize);
                    entries(&guard.run, executed).await?;
                    rec.label("during executions");
                }
                Busy::Retrying(n) => {
                    for k in 0..n as u64 {
                        l.send((k, String::new()), (FLAKY + k, 1)).await?;
                    }
                    tokio::time::sleep(Duration::from_secs(1)).await;
                    // How often is another matter.
                    executed = guard.run.entered().len();
                    rec.label("between retries");
                }
                Busy::Unread(n, k) => {
                    let op = leak(Scripted { run: guard.id });
                    let items: Vec<(u64, i64)> = (0..n as u64).map(|k| (k, 7)).collect();
                    let mut s = Directive::map(IndexedStream::from(items), op)
                        .run(&rt)
                        .await
                        .map_err(|e| format!("{e:#}"))?;
                    if workers > 0 && k > 0 {
                        for _ in 0..k.min(n) {
                            let (i, x) = s
                                .next()
                                .await
                                .ok_or("a mapped stream ended early")?
                                .map_err(|e| format!("{e:#}"))?;
                            ensure!(x == (i as u64, scripted_value(7)), "{i} yielded {x:?}");
                        }
                        rest().await;
                        executed += n as usize;
                    }
                    stream = Some(s);
                    rec.label("unread results");
                }
            }
            if c.abort_all {
                command(&rt, COMMAND_IPC_ABORT_ALL_KEY).await?;
                rec.label("workers told to stop");
            }
            lease = Some(l);
        }
        let entered = guard.run.entered().len();
        ensure!(
            entered == executed,
            "{entered} executions instead of {executed} before the runtime is dropped"
        );
        if c.last {
            let l = lease.take();
            if let Some(l) = &l {
                l.collector.abort();
            }
            drop((l, stream.take()));
        }
        drop(rt);
        // Those executed go on.
        guard.run.open(0);
        tokio::time::sleep(Duration::from_secs(300)).await;
        let after = guard.run.entered().len();
        ensure!(
            after == executed,
            "{} executions have begun since the runtime was dropped",
            after - executed
        );
        // Nothing is left of it.
        if let Some(l) = &lease {
            l.collector.abort();
        }
        drop((lease, stream));
        tokio::time::sleep(Duration::from_secs(300)).await;
        let left = alive();
        ensure!(
            left == others,
            "{} tasks keep running although the runtime has been dropped",
            left - others
        );
        rec.nontrivial(workers > 0 && c.start && executed > 0);
        Ok(())
    })?
}

// --- AMQP ----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    /// The runtime is closed.
    Close,
    /// The runtime is dropped.
    Drop,
    /// A worker's main loop is dropped, during its execution of a task.
    Worker,
    /// A worker's main loop is dropped before it has done anything.
    Idle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ends {
    net: Net,
    cbor: bool,
    workers: usize,
    tasks: u8,
    ends: Vec<End>,
}

fn text(e: anyhow::Error) -> String {
    format!("{e:#}")
}

async fn map(rt: &Arc<Runtime>, run: u64, n: u64) -> Result<Vec<(u64, i64)>, String> {
    let op = leak(Scripted { run });
    let items: Vec<(u64, i64)> = (0..n).map(|k| (k, k as i64)).collect();
    let s = Directive::map(IndexedStream::from(items), op)
        .run(rt)
        .await
        .map_err(text)?;
    let v = s.into_values_sorted().await.map_err(text)?;
    Ok(v.into_iter().collect())
}

async fn gone(b: &Broker, conn: u64, what: &str) -> Verdict {
    b.until(&format!("the connection of {what} to end"), |b| {
        !b.alive().contains(&conn)
    })
    .await
}

fn run_ends(c: &Ends, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let mut site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        let run = new_run([]);
        let n = c.tasks as u64;
        let want: Vec<(u64, i64)> = (0..n).map(|k| (k, scripted_value(k as i64))).collect();
        let cfg = amqp_config(&site.broker, c.cbor, None);
        for (i, end) in c.ends.iter().enumerate() {
            let before: BTreeSet<u64> = site.broker.opened().into_iter().collect();
            let new = |b: &Broker| b.opened().into_iter().find(|o| !before.contains(o));
            match end {
                End::Close | End::Drop => {
                    let rt = patient("a runtime", Runtime::from_config(&cfg, register()))
                        .await?
                        .map_err(text)?;
                    let rt = Arc::new(rt);
                    let conn = new(&site.broker).ok_or("no connection was opened")?;
                    let got = patient("a map", map(&rt, run.id, n)).await??;
                    ensure!(got == want, "yielded {got:?} instead of {want:?}");
                    if matches!(end, End::Close) {
                        patient("closing", rt.close()).await?.map_err(text)?;
                        gone(&site.broker, conn, "a closed runtime").await?;
                        // Using it further is an error.
                        let r = patient("a map on a closed runtime", map(&rt, run.id, 1)).await?;
                        ensure!(r.is_err(), "a closed runtime yielded {r:?}");
                        rec.label("closed");
                    } else {
                        drop(rt);
                        gone(&site.broker, conn, "a dropped runtime").await?;
                        rec.label("dropped");
                    }
                }
                End::Idle => {
                    let w = patient("a worker", WorkerRuntime::from_config(&cfg, register()))
                        .await?
                        .map_err(text)?;
                    let conn = new(&site.broker).ok_or("no connection was opened")?;
                    let h = tokio::spawn(async move { w.main_loop().await });
                    site.broker
                        .until("a worker to get ready", |b| b.consumers_since(before.len()) >= 2)
                        .await?;
                    h.abort();
                    gone(&site.broker, conn, "a dropped worker").await?;
                    rec.label("idle worker dropped");
                }
                End::Worker => {
                    let key = 1000 + i as u64;
                    run.run.script.lock().unwrap().insert(
                        key,
                        Act::Gate {
                            gate: i as u32,
                            heed: false,
                        },
                    );
                    let lease = scripted(&site.rt, run.id).await?;
                    lease.send((key, String::new()), (key, 5)).await?;
                    let start = std::time::Instant::now();
                    while !run.run.entered().contains(&key) {
                        ensure!(start.elapsed() < broker::PATIENCE, "#{key} is not executed");
                        tokio::time::sleep(Duration::from_micros(200)).await;
                    }
                    let conn = super::c20::last_holder(&site, &site.bus())
                        .ok_or("nobody was sent a task")?;
                    // The next execution goes through.
                    run.run.script.lock().unwrap().insert(key, Act::Ok);
                    site.spawn().await?;
                    let at = site
                        .workers
                        .iter()
                        .position(|w| w.0 == conn)
                        .ok_or("somebody else was sent a task")?;
                    site.workers.remove(at).1.abort();
                    gone(&site.broker, conn, "a dropped worker").await?;
                    while lease.answers().is_empty() {
                        ensure!(
                            start.elapsed() < 2 * broker::PATIENCE,
                            "#{key} has not been answered since its worker was dropped: {:?}",
                            site.broker.queues()
                        );
                        tokio::time::sleep(Duration::from_micros(200)).await;
                    }
                    let (_, out) = lease.answers().remove(0)?;
                    ensure!(out == (key, scripted_value(5)), "#{key} yielded {out:?}");
                    run.run.open(i as u32);
                    rec.label("busy worker dropped");
                }
            }
            // The others are still there.
            let got = patient("a map", map(&site.rt, run.id, n)).await??;
            ensure!(got == want, "yielded {got:?} instead of {want:?} after {end:?}");
        }
        ensure!(site.broker.faults().is_empty(), "misuse: {:?}", site.broker.faults());
        rec.nontrivial(!c.ends.is_empty());
        Ok(())
    })
}

pub fn property() -> Property {
    Property {
        id: "C23",
        assumptions: &[
            "an operation that is already being executed is not interrupted",
            "AMQP: the broker is the harness's own; waiting for something in vain for 20 s means that it doesn't happen",
        ],
        facets: vec![
            facet(
                "drops",
                "in-memory runtimes with up to five emulated workers dropped while these are idle, executing, between retries, told to stop or while results are unread; non-trivial: workers have executed something",
                Budget::new(1500, 40_000).shrink(300),
                drops,
                run_drops,
            ),
            facet(
                "amqp",
                "AMQP runtimes closed or dropped, and AMQP workers dropped while idle or executing, while others go on; non-trivial: any such event",
                Budget::new(200, 6_000).shrink(60),
                || {
                    (
                        net(),
                        any::<bool>(),
                        1usize..4,
                        0u8..6,
                        vec(
                            proptest::sample::select(vec![End::Close, End::Drop, End::Worker, End::Idle]),
                            1..5,
                        ),
                    )
                        .prop_map(|(net, cbor, workers, tasks, ends)| Ends {
                            net,
                            cbor,
                            workers,
                            tasks,
                            ends,
                        })
                        .boxed()
                },
                run_ends,
            ),
        ],
    }
}
