//! Parts of C20 and C21: many and large messages, and many consumers.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    queue::{Connection, Publisher, QueueHandle, QueueOptions},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use tokio::task::JoinSet;

use super::{
    c10::{kind, same, serializer, Bulk, Kind},
    c20::{connect, name, net, options, tally, Net, Peer, Site},
};
use crate::{
    broker::{self, patient, Broker},
    core::{facet, Budget, Facet, Rec, Verdict},
    driver, ensure,
    jobs::{self, JobSpec},
    ops::new_run,
};

fn text(e: anyhow::Error) -> String {
    format!("{e:#}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Taker {
    /// Uses the connection of the first one.
    shared: bool,
    qos: Option<u16>,
    /// How many messages it acknowledges at a time, if its limit permits it.
    hold: u8,
    backwards: bool,
    /// Joins after so many messages (in sixteenths) have been published.
    after: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulky {
    net: Net,
    cbor: bool,
    kind: Kind,
    options: (bool, bool),
    /// The number of messages of each publisher.
    publishers: Vec<u16>,
    takers: Vec<Taker>,
}

fn qos() -> BoxedStrategy<Option<u16>> {
    prop_oneof![
        2 => Just(None),
        2 => (1u16..6).prop_map(Some),
        1 => (6u16..300).prop_map(Some),
        1 => prop_oneof![Just(Some(0)), Just(Some(u16::MAX))],
    ]
    .boxed()
}

fn bulky(takers: usize, messages: u16) -> BoxedStrategy<Bulky> {
    let taker = (
        proptest::bool::weighted(0.4),
        qos(),
        prop_oneof![3 => Just(1u8), 1 => 1u8..30],
        any::<bool>(),
        0u8..=16,
    )
        .prop_map(|(shared, qos, hold, backwards, after)| Taker {
            shared,
            qos,
            hold,
            backwards,
            after,
        });
    (
        net(),
        any::<bool>(),
        kind(),
        any::<(bool, bool)>(),
        vec(0..messages, 1..4),
        vec(taker, 1..takers),
    )
        .prop_map(|(net, cbor, kind, options, publishers, takers)| Bulky {
            net,
            cbor,
            kind,
            options,
            publishers,
            takers,
        })
        .boxed()
}

impl Bulky {
    /// Publisher `p`'s messages; those of different publishers differ if possible.
    fn nth<T: Bulk>(&self, p: usize, i: u64) -> T {
        T::nth(self.kind, p as u64 * 1_000_000 + i)
    }

    fn total(&self) -> u64 {
        self.publishers.iter().map(|n| *n as u64).sum()
    }
}

/// Fails if a count doesn't grow any more.
async fn grows(what: &str, count: &AtomicU64, to: u64) -> Verdict {
    let (mut last, mut since) = (count.load(SeqCst), Instant::now());
    loop {
        let now = count.load(SeqCst);
        if now >= to {
            return Ok(());
        }
        if now != last {
            (last, since) = (now, Instant::now());
        }
        ensure!(
            since.elapsed() < broker::PATIENCE,
            "waited in vain for {what}: {now} of {to}"
        );
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}

type Handle = <paladin::queue::amqp::AMQPConnection as Connection>::QueueHandle;

/// A consumer's part; ends only if something is wrong.
async fn take<T: Bulk + 'static>(
    handle: Handle,
    k: usize,
    hold: usize,
    backwards: bool,
    ready: Arc<AtomicU64>,
    got: Arc<Mutex<Vec<T>>>,
    count: Arc<AtomicU64>,
    settled: Arc<AtomicU64>,
) -> String {
    let r = async {
        let mut stream = handle
            .declare_consumer::<T>(&format!("consumer {k}"))
            .await
            .map_err(text)?;
        ready.fetch_add(1, SeqCst);
        let mut held = vec![];
        loop {
            // Whatever is held is acknowledged once there is nothing else to do.
            let next = tokio::time::timeout(Duration::from_millis(20), stream.next()).await;
            match next {
                Ok(None) => return Err("ended".to_string()),
                Ok(Some((m, acker))) => {
                    got.lock().unwrap().push(m);
                    held.push(acker);
                    count.fetch_add(1, SeqCst);
                    if held.len() < hold {
                        continue;
                    }
                }
                Err(_) => {}
            }
            if backwards {
                held.reverse();
            }
            for a in held.drain(..) {
                a.ack().await.map_err(text)?;
                settled.fetch_add(1, SeqCst);
            }
        }
    };
    let r: Result<(), String> = r.await;
    format!("consumer {k}: {}", r.expect_err("never ends well"))
}

struct Run<T> {
    broker: Broker,
    peers: Vec<Peer>,
    got: Vec<Arc<Mutex<Vec<T>>>>,
    /// How many messages had been published when the consumer joined.
    joined: Vec<u64>,
}

/// Publishes everything and has it received, where each consumer is expected
/// to get everything, or all of them together.
async fn transfer<T: Bulk + 'static>(c: &Bulky, opts: QueueOptions, each: bool) -> Result<Run<T>, String> {
    let s = serializer(c.cbor);
    let broker = Broker::start(c.net.style()).await?;
    let mut peers = vec![];
    for _ in &c.publishers {
        peers.push(connect(&broker, s, None).await?);
    }
    let mut consumers: Vec<usize> = vec![];
    for (k, t) in c.takers.iter().enumerate() {
        if k > 0 && t.shared {
            consumers.push(consumers[0]);
        } else {
            peers.push(connect(&broker, s, t.qos).await?);
            consumers.push(peers.len() - 1);
        }
    }
    let mut handles = vec![];
    for p in &peers {
        handles.push(
            patient("a queue", p.conn.declare_queue(&name(0), opts))
                .await?
                .map_err(text)?,
        );
    }
    let mut tasks = JoinSet::new();
    let mut got = vec![];
    let mut joined = vec![0; c.takers.len()];
    let (ready, count, settled): (Arc<AtomicU64>, Arc<AtomicU64>, Arc<AtomicU64>) =
        Default::default();
    let published = AtomicU64::new(0);
    // How many deliveries there have to be.
    let mut due = 0;
    for _ in &c.takers {
        got.push(Arc::new(Mutex::new(vec![])));
    }
    for step in 0..=16u64 {
        for (k, t) in c.takers.iter().enumerate() {
            // Someone has to be there for what has been published.
            let after = if k == 0 && !each { t.after.min(15) } else { t.after };
            if after as u64 != step {
                continue;
            }
            let limit = match peers[consumers[k]].qos {
                0 => usize::MAX,
                q => q as usize,
            };
            joined[k] = published.load(SeqCst);
            let n = ready.load(SeqCst) + 1;
            tasks.spawn(take::<T>(
                handles[consumers[k]].clone(),
                k,
                (t.hold as usize).min(limit),
                t.backwards,
                ready.clone(),
                got[k].clone(),
                count.clone(),
                settled.clone(),
            ));
            grows("a consumer", &ready, n).await?;
        }
        let present = ready.load(SeqCst);
        // All publishers at once.
        let parts = c.publishers.iter().enumerate().map(|(p, n)| {
            let publisher = handles[p].publisher::<T>();
            let published = &published;
            let part = *n as u64 * step / 16..*n as u64 * (step + 1) / 16;
            async move {
                for i in part {
                    if i < *n as u64 {
                        patient("publishing", publisher.publish(&c.nth::<T>(p, i)))
                            .await?
                            .map_err(text)?;
                        published.fetch_add(1, SeqCst);
                    }
                }
                Ok::<(), String>(())
            }
        });
        let before = published.load(SeqCst);
        for r in futures::future::join_all(parts).await {
            r?;
        }
        let now = published.load(SeqCst);
        due += (now - before) * if each { present } else { 1 };
        // A message to a broadcast addresses who is there when it arrives.
        if each && c.takers.iter().any(|t| t.after as u64 == step + 1) {
            let n = now as usize;
            broker
                .until("published messages", |b| b.published() >= n)
                .await?;
        }
    }
    let wait = async {
        grows("messages to be received", &count, due).await?;
        grows("messages to be acknowledged", &settled, due).await
    };
    tokio::select! {
        r = wait => r.map_err(|e| format!("{e}; queues {:?}, faults {:?}", broker.queues(), broker.faults()))?,
        Some(r) = tasks.join_next() => return Err(r.unwrap_or_else(|e| e.to_string())),
    }
    broker
        .until("acknowledgements", |b| {
            b.queues().values().all(|q| q.ready + q.unacked == 0)
        })
        .await
        .map_err(|e| format!("{e}: {:?}", broker.queues()))?;
    ensure!(
        count.load(SeqCst) == due,
        "{} instead of {due} messages have been received",
        count.load(SeqCst)
    );
    ensure!(broker.faults().is_empty(), "misuse: {:?}", broker.faults());
    tasks.shutdown().await;
    Ok(Run {
        broker,
        peers,
        got,
        joined,
    })
}

/// What is received is an interleaving of what the publishers published, from
/// certain positions onwards. (Those of equal content are taken in order.)
fn interleaving<T: Bulk>(c: &Bulky, got: &[T], from: &[u64]) -> Verdict {
    if let [n] = c.publishers[..] {
        ensure!(
            got.len() as u64 == n as u64 - from[0],
            "{} messages instead of {}",
            got.len(),
            n as u64 - from[0]
        );
        for (i, m) in got.iter().enumerate() {
            same(c.kind, from[0] + i as u64, m)?;
        }
        return Ok(());
    }
    contents(c, got.iter(), from)?;
    // Only distinct messages tell where they come from.
    if matches!(c.kind, Kind::Distinct) {
        let mut next = from.to_vec();
        for m in got {
            let p = (0..next.len()).find(|p| c.nth::<T>(*p, next[*p]) == *m);
            let Some(p) = p else {
                return Err(format!("received {m:?}, but {next:?} are next"));
            };
            next[p] += 1;
        }
    }
    Ok(())
}

/// What has been received is what has been published.
fn contents<'a, T: Bulk + 'a>(
    c: &Bulky,
    got: impl Iterator<Item = &'a T>,
    from: &[u64],
) -> Verdict {
    let show = |x: &T| {
        let d = format!("{x:?}");
        (d.len(), d.chars().take(30).collect::<String>())
    };
    let mut balance: BTreeMap<(usize, String), i64> = BTreeMap::new();
    for (p, n) in c.publishers.iter().enumerate() {
        for i in from[p]..*n as u64 {
            *balance.entry(show(&c.nth::<T>(p, i))).or_default() += 1;
        }
    }
    for m in got {
        *balance.entry(show(m)).or_default() -= 1;
    }
    match balance.iter().find(|b| *b.1 != 0) {
        None => Ok(()),
        Some(((len, start), n)) if *n > 0 => Err(format!(
            "a message {start} of {len} characters is missing {n} times"
        )),
        Some(((len, start), n)) => Err(format!(
            "a message {start} of {len} characters was received {} times too often",
            -n
        )),
    }
}

fn run_queue(c: &Bulky, rec: &mut Rec) -> Verdict {
    match c.kind {
        Kind::Unit => queue_of::<()>(c, rec),
        _ => queue_of::<String>(c, rec),
    }
}

fn queue_of<T: Bulk + 'static>(c: &Bulky, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let run = transfer::<T>(c, options(false, c.options), false).await?;
        let from = vec![0; c.publishers.len()];
        let got: Vec<_> = run.got.iter().map(|g| g.lock().unwrap()).collect();
        contents(c, got.iter().flat_map(|g| g.iter()), &from)?;
        if let [only] = &got[..] {
            interleaving(c, only, &from)?;
        }
        let t = tally(&run.broker, &name(0));
        ensure!(
            t.requeued.is_empty()
                && t.rejected.is_empty()
                && t.acked.len() as u64 == c.total()
                && t.delivered.values().all(|n| *n == 1),
            "{} messages were acknowledged, {} rejected, {} delivered, and {} requeued",
            t.acked.len(),
            t.rejected.len(),
            t.delivered.len(),
            t.requeued.len()
        );
        rec.count("messages", c.total());
        rec.label_if(got.iter().filter(|g| !g.is_empty()).count() > 1, "several consumers");
        rec.nontrivial(c.total() > 100);
        for p in &run.peers {
            patient("closing", p.conn.close()).await?.map_err(text)?;
        }
        Ok(())
    })
}

fn run_broadcast(c: &Bulky, rec: &mut Rec) -> Verdict {
    match c.kind {
        Kind::Unit => broadcast_of::<()>(c, rec),
        _ => broadcast_of::<String>(c, rec),
    }
}

fn broadcast_of<T: Bulk + 'static>(c: &Bulky, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let run = transfer::<T>(c, options(true, c.options), true).await?;
        let mut addressed = 0;
        for (k, got) in run.got.iter().enumerate() {
            let got = got.lock().unwrap();
            // Where the publishers were when it joined.
            let step = c.takers[k].after as u64;
            let from: Vec<u64> = c
                .publishers
                .iter()
                .map(|n| *n as u64 * step.min(16) / 16)
                .collect();
            ensure!(
                from.iter().sum::<u64>() == run.joined[k],
                "harness: joined after {} messages",
                run.joined[k]
            );
            interleaving(c, &got, &from).map_err(|e| format!("consumer {k}: {e}"))?;
            addressed += usize::from(!got.is_empty());
        }
        rec.count("messages", c.total());
        rec.label_if(addressed > 6, "more than six consumers");
        rec.nontrivial(addressed > 1 && c.total() > 50);
        for p in &run.peers {
            patient("closing", p.conn.close()).await?.map_err(text)?;
        }
        Ok(())
    })
}

pub fn queue_bulk() -> Facet {
    facet(
        "bulk",
        "up to 3000 messages without content, all alike, all different, or of up to 150 kB, by up to three publishers for up to seven consumers with any limits that join in between and acknowledge one by one or many at a time; non-trivial: more than a hundred messages",
        Budget::new(150, 5_000).shrink(60),
        || prop_oneof![3 => bulky(8, 200), 1 => bulky(8, 1000)].boxed(),
        run_queue,
    )
}

pub fn broadcast_bulk() -> Facet {
    facet(
        "bulk",
        "up to 900 messages of the same kinds by up to three publishers for up to thirty consumers that join in between; non-trivial: more than fifty messages and two consumers",
        Budget::new(120, 4_000).shrink(60),
        || prop_oneof![2 => bulky(6, 300), 1 => bulky(31, 60)].boxed(),
        run_broadcast,
    )
}

// --- Large jobs ----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    net: Net,
    cbor: bool,
    workers: usize,
    jobs: Vec<JobSpec>,
}

fn run_large(c: &Large, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        let lasting: BTreeSet<String> = site.broker.queues().into_keys().collect();
        let run = new_run([]);
        let mut running: Vec<driver::Job> = c
            .jobs
            .iter()
            .map(|spec| jobs::spawn(spec, &site.rt, run.id, false))
            .collect();
        for job in &mut running {
            job.open();
        }
        // Patience as long as messages are published.
        let (mut last, mut since) = (0, Instant::now());
        while running.iter_mut().any(|j| j.done().is_none()) {
            let now = site.broker.events();
            if now != last {
                (last, since) = (now, Instant::now());
            }
            ensure!(
                since.elapsed() < broker::PATIENCE,
                "{:?} don't end; queues {:?}, faults {:?}",
                c.jobs.iter().map(|j| (j.prog, j.items.len())).collect::<Vec<_>>(),
                site.broker.queues(),
                site.broker.faults()
            );
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        for (spec, job) in c.jobs.iter().zip(&mut running) {
            site.join(spec, job).await?;
        }
        site.broker
            .until("results queues to be deleted", |b| {
                b.queues().keys().all(|q| lasting.contains(q))
            })
            .await
            .map_err(|e| format!("{e}: {:?}", site.broker.queues()))?;
        let bus = site.bus();
        site.broker
            .until("tasks to be acknowledged", |b| {
                b.queues().get(&bus).is_some_and(|q| q.ready + q.unacked == 0)
            })
            .await?;
        ensure!(
            site.broker.faults().is_empty(),
            "misuse: {:?}",
            site.broker.faults()
        );
        rec.count("items", c.jobs.iter().map(|j| j.items.len() as u64).sum());
        rec.nontrivial(c.jobs.iter().any(|j| j.items.len() > 100));
        Ok(())
    })
}

pub fn large_jobs() -> Facet {
    facet(
        "large",
        "up to thirty small or two large (up to 600 items) directives at a time on up to twelve workers; non-trivial: more than a hundred items",
        Budget::new(60, 2_000).shrink(60),
        || {
            let jobs = prop_oneof![
                2 => vec(jobs::spec(600), 1..3),
                1 => vec(jobs::spec(20), 10..30),
            ];
            (net(), any::<bool>(), 1usize..13, jobs)
                .prop_map(|(net, cbor, workers, jobs)| Large {
                    net,
                    cbor,
                    workers,
                    jobs,
                })
                .boxed()
        },
        run_large,
    )
}
