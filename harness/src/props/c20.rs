//! C20 and C21: the AMQP backend, connected to a broker on the loopback
//! interface. Everything in here runs in real time.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    config::{Config, Runtime as Backend},
    directive::{Directive, IndexedStream},
    queue::{
        amqp::{AMQPConnection, AMQPConnectionOptions},
        Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions,
        SyndicationMode,
    },
    runtime::{CommandIpc, Runtime, WorkerRuntime, COMMAND_IPC_ABORT_ALL_KEY, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

use super::{c04::Plan, c10::serializer};
use crate::{
    broker::{self, patient, Broker, Event, Style},
    core::{facet, Budget, Property, Rec, Verdict},
    driver, ensure,
    jobs::{self, JobSpec},
    ops::{self, new_run, register, rich, scripted_value, Act, Fatality, Retry, Rich, Scripted},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Net {
    seed: u64,
    random: bool,
    pieces: bool,
    wide: bool,
}

impl Net {
    pub fn style(&self) -> Style {
        Style {
            seed: self.seed,
            random: self.random,
            pieces: self.pieces,
            frame_max: if self.wide { 131_072 } else { 4096 },
        }
    }
}

pub fn net() -> BoxedStrategy<Net> {
    (
        any::<u64>(),
        any::<bool>(),
        proptest::bool::weighted(0.3),
        any::<bool>(),
    )
        .prop_map(|(seed, random, pieces, wide)| Net {
            seed,
            random,
            pieces,
            wide,
        })
        .boxed()
}

fn text(e: anyhow::Error) -> String {
    format!("{e:#}")
}

// --- Queues --------------------------------------------------------------

type Payload = (u64, Rich, String);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// By a publisher of an existing handle, if there is one, or of a new one.
    Publish { conn: u8, queue: u8, rich: Rich, long: u16, fresh: bool },
    Consume { conn: u8, queue: u8 },
    /// A consumer of a queue where nothing is left is dropped.
    Leave { consumer: u8 },
    /// Minutes pass.
    Elapse(u8),
    /// Takes what a consumer has been sent.
    Receive { consumer: u8 },
    Ack { held: u8 },
    Nack { held: u8 },
    /// Some other client publishes what isn't a message.
    Poison { queue: u8, cut: Option<u8> },
    /// A connection is lost.
    Kill { conn: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Queues {
    net: Net,
    cbor: bool,
    /// The prefetch limits of the connections.
    conns: Vec<Option<u16>>,
    /// Persistent messages, durable queues.
    queues: Vec<(bool, bool)>,
    ops: Vec<Op>,
}

fn op() -> BoxedStrategy<Op> {
    let b = any::<u8>;
    prop_oneof![
        8 => (b(), b(), rich(), prop_oneof![6 => Just(0u16), 1 => 0u16..20_000], any::<bool>()).prop_map(|(conn, queue, rich, long, fresh)| Op::Publish { conn, queue, rich, long, fresh }),
        1 => b().prop_map(|consumer| Op::Leave { consumer }),
        1 => (0u8..29).prop_map(Op::Elapse),
        3 => (b(), b()).prop_map(|(conn, queue)| Op::Consume { conn, queue }),
        6 => b().prop_map(|consumer| Op::Receive { consumer }),
        4 => b().prop_map(|held| Op::Ack { held }),
        1 => b().prop_map(|held| Op::Nack { held }),
        2 => (b(), proptest::option::of(b())).prop_map(|(queue, cut)| Op::Poison { queue, cut }),
        1 => b().prop_map(|conn| Op::Kill { conn }),
    ]
    .boxed()
}

fn queues() -> BoxedStrategy<Queues> {
    (
        net(),
        any::<bool>(),
        vec(prop_oneof![Just(None), (1u16..5).prop_map(Some)], 1..4),
        vec(any::<(bool, bool)>(), 1..3),
        vec(op(), 1..40),
    )
        .prop_map(|(net, cbor, conns, queues, ops)| Queues {
            net,
            cbor,
            conns,
            queues,
            ops,
        })
        .boxed()
}

pub fn options(broadcast: bool, (persistent, durable): (bool, bool)) -> QueueOptions {
    QueueOptions {
        delivery_mode: if persistent {
            DeliveryMode::Persistent
        } else {
            DeliveryMode::Ephemeral
        },
        syndication_mode: if broadcast {
            SyndicationMode::Broadcast
        } else {
            SyndicationMode::ExactlyOnce
        },
        durability: if durable {
            QueueDurability::Durable
        } else {
            QueueDurability::NonDurable
        },
    }
}

type Handle = <AMQPConnection as Connection>::QueueHandle;
type Consumer = <Handle as QueueHandle>::Consumer<Payload>;

pub struct Peer {
    id: u64,
    pub qos: u16,
    pub conn: AMQPConnection,
    alive: bool,
}

pub async fn connect(broker: &Broker, s: Serializer, qos: Option<u16>) -> Result<Peer, String> {
    let before = broker.opened().len();
    let uri = broker.uri();
    let conn = patient(
        "a connection",
        AMQPConnection::new(AMQPConnectionOptions {
            uri: &uri,
            qos,
            serializer: s,
        }),
    )
    .await?
    .map_err(text)?;
    Ok(Peer {
        id: broker.opened()[before],
        qos: qos.unwrap_or(1),
        conn,
        alive: true,
    })
}

struct Reader {
    peer: usize,
    queue: usize,
    stream: Consumer,
}

struct Held<A> {
    id: u64,
    peer: usize,
    queue: usize,
    acker: A,
}

pub fn name(q: usize) -> String {
    format!("queue-{q}")
}

/// A body that isn't a message, if possible.
fn poison(s: Serializer, cut: Option<u8>) -> Option<Vec<u8>> {
    let b = match cut {
        None => vec![0xff; 3],
        Some(n) => {
            let p: Payload = (u64::MAX, Rich::Unit, "poison".to_string());
            let b = s.to_bytes(&p).ok()?.to_vec();
            b[..n as usize % b.len()].to_vec()
        }
    };
    s.from_bytes::<Payload>(&b).is_err().then_some(b)
}

/// What the log says about the messages of a queue.
#[derive(Default, Debug, PartialEq)]
pub struct Tally {
    pub delivered: BTreeMap<u64, usize>,
    pub acked: BTreeSet<u64>,
    pub rejected: BTreeSet<u64>,
    pub requeued: BTreeMap<u64, usize>,
}

pub fn tally(broker: &Broker, queue: &str) -> Tally {
    let mut t = Tally::default();
    for e in broker.log() {
        match e {
            Event::Delivered { queue: q, id, .. } if q == queue => {
                *t.delivered.entry(id).or_default() += 1;
            }
            Event::Acked { queue: q, id, .. } if q == queue => _ = t.acked.insert(id),
            Event::Rejected { queue: q, id, .. } if q == queue => _ = t.rejected.insert(id),
            Event::Requeued { queue: q, id } if q == queue => {
                *t.requeued.entry(id).or_default() += 1;
            }
            _ => {}
        }
    }
    t
}

/// The most messages of a queue that a connection had at a time.
fn max_outstanding(broker: &Broker, conn: u64, queue: &str) -> usize {
    let (mut out, mut max) = (BTreeSet::new(), 0);
    for e in broker.log() {
        match e {
            Event::Delivered { conn: c, queue: q, id } if c == conn && q == queue => {
                out.insert(id);
                max = max.max(out.len());
            }
            Event::Acked { conn: c, queue: q, id } | Event::Rejected { conn: c, queue: q, id }
                if c == conn && q == queue =>
            {
                out.remove(&id);
            }
            _ => {}
        }
    }
    max
}

fn run_queues(c: &Queues, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(queue_history(c, rec))
}

async fn queue_history(c: &Queues, rec: &mut Rec) -> Verdict {
    let s = serializer(c.cbor);
    let broker = Broker::start(c.net.style()).await?;
    let mut peers = vec![];
    for qos in &c.conns {
        peers.push(connect(&broker, s, *qos).await?);
    }
    let opts: Vec<QueueOptions> = c.queues.iter().map(|q| options(false, *q)).collect();
    for (q, o) in opts.iter().enumerate() {
        patient("a queue", peers[0].conn.declare_queue(&name(q), *o))
            .await?
            .map_err(text)?;
        let info = &broker.queues()[&name(q)];
        ensure!(
            info.durable == c.queues[q].1,
            "{o:?} declared as {info:?}"
        );
    }
    let mut readers: Vec<Reader> = vec![];
    let mut held = vec![];
    // What has been published, by the broker's id.
    let mut published: BTreeMap<u64, (usize, Payload)> = BTreeMap::new();
    let mut poisoned: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    let mut acked: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    let mut nacked: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    let mut received: BTreeMap<u64, usize> = BTreeMap::new();
    let mut next = 0;
    let nq = c.queues.len();
    let (mut kills, mut leaves) = (0, 0);
    let mut handles: BTreeMap<(usize, usize), Handle> = BTreeMap::new();
    let mut limits = vec![0; peers.len() * nq];

    macro_rules! take {
        ($i:expr, $payload:expr, $acker:expr) => {{
            let payload: Payload = $payload;
            let r = &readers[$i];
            let Some((id, (q, _))) = published.iter().find(|p| p.1 .1 == payload) else {
                return Err(format!("received {payload:?}, which hasn't been published"));
            };
            ensure!(
                *q == r.queue,
                "received {payload:?} from queue {} instead of {q}",
                r.queue
            );
            *received.entry(*id).or_default() += 1;
            held.push(Held {
                id: *id,
                peer: r.peer,
                queue: r.queue,
                acker: $acker,
            });
        }};
    }

    for op in &c.ops {
        match op {
            Op::Publish {
                conn,
                queue,
                rich,
                long,
                fresh,
            } => {
                let live: Vec<usize> = (0..peers.len()).filter(|p| peers[*p].alive).collect();
                let Some(p) = live.get(*conn as usize % live.len().max(1)) else {
                    continue;
                };
                let q = *queue as usize % nq;
                next += 1;
                let payload: Payload = (next, rich.clone(), "x".repeat(*long as usize));
                let handle = handle(&peers, &mut handles, *fresh, *p, q, opts[q]).await?;
                let publisher = handle.publisher::<Payload>();
                patient("publishing", publisher.publish(&payload))
                    .await?
                    .map_err(text)?;
                // Let it arrive.
                let count = published.len() + poisoned.values().map(|p| p.len()).sum::<usize>();
                broker
                    .until("a published message", |b| {
                        b.log()
                            .iter()
                            .filter(|e| matches!(e, Event::Published { .. }))
                            .count()
                            > count
                    })
                    .await?;
                let log = broker.log();
                let mut new = log.iter().filter_map(|e| match e {
                    Event::Published { msg, queues, .. } => Some((msg, queues)),
                    _ => None,
                });
                let (msg, queues) = new.nth(count).expect("just published");
                ensure!(*queues == 1, "{payload:?} went to {queues} queues");
                let persistent = *msg.properties.delivery_mode() == Some(2);
                ensure!(
                    persistent == c.queues[q].0,
                    "with {:?} the delivery mode is {:?}",
                    opts[q],
                    msg.properties.delivery_mode()
                );
                published.insert(msg.id, (q, payload));
                ensure!(new.next().is_none(), "published more than one message");
            }
            Op::Consume { conn, queue } => {
                let live: Vec<usize> = (0..peers.len()).filter(|p| peers[*p].alive).collect();
                if readers.len() >= 6 {
                    continue;
                }
                let Some(p) = live.get(*conn as usize % live.len().max(1)) else {
                    continue;
                };
                let q = *queue as usize % nq;
                readers.push(reader(&peers, *p, q, opts[q], readers.len() + leaves).await?);
                limits[*p * nq + q] += peers[*p].qos as usize;
            }
            Op::Leave { consumer } => {
                let live: Vec<usize> = (0..readers.len())
                    .filter(|r| peers[readers[*r].peer].alive)
                    .collect();
                let Some(i) = live.get(*consumer as usize % live.len().max(1)) else {
                    continue;
                };
                // What it has been sent already would be withheld from others.
                let info = &broker.queues()[&name(readers[*i].queue)];
                if info.ready + info.unacked > 0 {
                    continue;
                }
                let n = info.consumers;
                let q = name(readers[*i].queue);
                readers.remove(*i);
                broker
                    .until("a consumer to leave", |b| {
                        b.queues().get(&q).is_none_or(|q| q.consumers < n)
                    })
                    .await?;
                leaves += 1;
            }
            Op::Elapse(minutes) => broker.elapse(Duration::from_secs(60 * *minutes as u64)),
            Op::Receive { consumer } => {
                let live: Vec<usize> = (0..readers.len())
                    .filter(|r| peers[readers[*r].peer].alive)
                    .collect();
                let Some(i) = live.get(*consumer as usize % live.len().max(1)) else {
                    continue;
                };
                // There may be nothing to receive.
                let wait = Duration::from_millis(3);
                match tokio::time::timeout(wait, readers[*i].stream.next()).await {
                    Err(_) => {}
                    Ok(Some((payload, acker))) => take!(*i, payload, acker),
                    Ok(None) => return Err("a consumer ended".to_string()),
                }
            }
            Op::Ack { held: h } | Op::Nack { held: h } => {
                let live: Vec<usize> = (0..held.len())
                    .filter(|h: &usize| {
                        let h: &Held<_> = &held[*h];
                        peers[h.peer].alive
                    })
                    .collect();
                let Some(i) = live.get(*h as usize % live.len().max(1)) else {
                    continue;
                };
                let h = held.remove(*i);
                let ack = matches!(op, Op::Ack { .. });
                let r = if ack {
                    patient("an acknowledgement", h.acker.ack()).await?
                } else {
                    patient("a rejection", h.acker.nack()).await?
                };
                r.map_err(text)?;
                let q = name(h.queue);
                broker
                    .until("an acknowledgement", |b| {
                        let t = tally(b, &q);
                        t.acked.contains(&h.id) || t.rejected.contains(&h.id)
                    })
                    .await?;
                let set = if ack { &mut acked } else { &mut nacked };
                set.entry(h.queue).or_default().insert(h.id);
            }
            Op::Poison { queue, cut } => {
                let q = *queue as usize % nq;
                if let Some(b) = poison(s, *cut) {
                    let id = broker.inject(&name(q), b);
                    poisoned.entry(q).or_default().insert(id);
                }
            }
            Op::Kill { conn } => {
                // The last connection stays.
                let live: Vec<usize> = (0..peers.len()).filter(|p| peers[*p].alive).collect();
                if live.len() < 2 {
                    continue;
                }
                let p = live[*conn as usize % live.len()];
                broker.kill(peers[p].id);
                peers[p].alive = false;
                held.retain(|h| h.peer != p);
                kills += 1;
            }
        }
        // What has been removed is what has been acknowledged or rejected, or
        // can't be understood.
        for q in 0..nq {
            let t = tally(&broker, &name(q));
            let (a, n) = (acked.get(&q), nacked.get(&q));
            ensure!(
                t.acked == *a.unwrap_or(&BTreeSet::new()),
                "acknowledged {a:?}, but the broker got {:?}",
                t.acked
            );
            let empty = BTreeSet::new();
            let p = poisoned.get(&q).unwrap_or(&empty);
            let n = n.unwrap_or(&empty);
            ensure!(
                t.rejected.is_superset(n) && t.rejected.iter().all(|x| n.contains(x) || p.contains(x)),
                "rejected {n:?}, but the broker got {:?}; undecodable: {p:?}",
                t.rejected
            );
        }
    }

    // Everything can be received and acknowledged in the end.
    let last = peers.iter().position(|p| p.alive).expect("one is left");
    for q in 0..nq {
        if !readers
            .iter()
            .any(|r| r.queue == q && peers[r.peer].alive)
        {
            readers.push(reader(&peers, last, q, opts[q], readers.len() + leaves).await?);
            limits[last * nq + q] += peers[last].qos as usize;
        }
    }
    let start = std::time::Instant::now();
    loop {
        for h in held.drain(..) {
            patient("an acknowledgement", h.acker.ack())
                .await?
                .map_err(text)?;
        }
        let queues = broker.queues();
        let done = (0..nq).all(|q| {
            let i = &queues[&name(q)];
            // Of poison it doesn't matter whether it's acknowledged, as long as
            // it isn't in the way.
            let left = i.ready + i.unacked;
            let t = tally(&broker, &name(q));
            let poison = poisoned
                .get(&q)
                .map_or(0, |p| p.iter().filter(|x| !t.rejected.contains(x) && !t.acked.contains(x)).count());
            left <= poison && i.ready == 0
        });
        if done {
            break;
        }
        ensure!(
            start.elapsed() < broker::PATIENCE,
            "the queues haven't been drained: {queues:?}, faults {:?}",
            broker.faults()
        );
        for i in 0..readers.len() {
            if !peers[readers[i].peer].alive {
                continue;
            }
            let wait = Duration::from_millis(2);
            while let Ok(m) = tokio::time::timeout(wait, readers[i].stream.next()).await {
                let Some((payload, acker)) = m else {
                    return Err("a consumer ended".to_string());
                };
                take!(i, payload, acker);
            }
        }
    }
    for (id, (q, payload)) in &published {
        let t = tally(&broker, &name(*q));
        let delivered = t.delivered.get(id).copied().unwrap_or(0);
        let requeued = t.requeued.get(id).copied().unwrap_or(0);
        let got = received.get(id).copied().unwrap_or(0);
        ensure!(
            got >= 1 && got <= delivered && delivered == requeued + 1,
            "{payload:?} was received {got} times, delivered {delivered} times, and requeued {requeued} times"
        );
    }
    for (i, p) in peers.iter().enumerate() {
        for q in 0..nq {
            let max = max_outstanding(&broker, p.id, &name(q));
            ensure!(
                max <= limits[i * nq + q],
                "consumers with limit {} were sent {max} messages at a time",
                p.qos
            );
        }
    }
    ensure!(broker.faults().is_empty(), "misuse: {:?}", broker.faults());
    rec.label_if(!poisoned.is_empty(), "undecodable messages");
    rec.label_if(kills > 0, "lost connections");
    rec.label_if(leaves > 0, "consumers that leave");
    rec.count("messages", published.len() as u64);
    rec.nontrivial(published.len() > 1 && !readers.is_empty());
    for p in &peers {
        if p.alive {
            patient("closing", p.conn.close()).await?.map_err(text)?;
        }
    }
    Ok(())
}

/// A handle that may have been used before.
async fn handle(
    peers: &[Peer],
    handles: &mut BTreeMap<(usize, usize), Handle>,
    fresh: bool,
    p: usize,
    q: usize,
    o: QueueOptions,
) -> Result<Handle, String> {
    if fresh || !handles.contains_key(&(p, q)) {
        let new = patient("declaration", peers[p].conn.declare_queue(&name(q), o))
            .await?
            .map_err(text)?;
        handles.insert((p, q), new);
    }
    Ok(handles[&(p, q)].clone())
}

async fn reader(
    peers: &[Peer],
    p: usize,
    q: usize,
    o: QueueOptions,
    n: usize,
) -> Result<Reader, String> {
    let handle = patient("declaration", peers[p].conn.declare_queue(&name(q), o))
        .await?
        .map_err(text)?;
    let stream = patient("a consumer", handle.declare_consumer(&format!("consumer-{n}")))
        .await?
        .map_err(text)?;
    Ok(Reader {
        peer: p,
        queue: q,
        stream,
    })
}

// --- Lifetimes -----------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Batch {
    /// Names, in any number of copies, by any connection.
    Declare(Vec<(u8, u8)>),
    Delete(Vec<(u8, u8)>),
    Publish(Vec<(u8, u8)>),
    /// Minutes pass.
    Elapse(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lifetimes {
    net: Net,
    conns: usize,
    /// Whether they are broadcasts, and their options.
    queues: Vec<(bool, (bool, bool))>,
    batches: Vec<Batch>,
}

fn lifetimes() -> BoxedStrategy<Lifetimes> {
    let items = || vec((any::<u8>(), any::<u8>()), 1..5);
    let batch = prop_oneof![
        2 => items().prop_map(Batch::Declare),
        2 => items().prop_map(Batch::Delete),
        2 => items().prop_map(Batch::Publish),
        1 => prop_oneof![0u16..30, 30u16..60, 60u16..1500].prop_map(Batch::Elapse),
    ];
    (
        net(),
        1usize..3,
        vec(any::<(bool, (bool, bool))>(), 1..5),
        vec(batch, 1..10),
    )
        .prop_map(|(net, conns, queues, batches)| Lifetimes {
            net,
            conns,
            queues,
            batches,
        })
        .boxed()
}

fn run_lifetimes(c: &Lifetimes, rec: &mut Rec) -> Verdict {
    // On a thread of its own, which may get stuck.
    let (tx, rx) = std::sync::mpsc::channel();
    let c2 = c.clone();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .expect("runtime");
        _ = tx.send(rt.block_on(lifetime_history(&c2)));
    });
    let same = rx
        .recv_timeout(broker::PATIENCE * 2)
        .map_err(|_| "a thread is stuck".to_string())??;
    rec.label_if(same, "several at a time");
    rec.nontrivial(c.batches.len() > 1);
    Ok(())
}

async fn lifetime_history(c: &Lifetimes) -> Result<bool, String> {
    let broker = broker::rt()
        .spawn(Broker::start(c.net.style()))
        .await
        .map_err(|e| e.to_string())??;
    let mut peers = vec![];
    for _ in 0..c.conns {
        peers.push(connect(&broker, Serializer::Postcard, None).await?);
    }
    let nq = c.queues.len();
    let opts: Vec<QueueOptions> = c.queues.iter().map(|q| options(q.0, q.1)).collect();
    // Messages in each of the queues there are.
    let mut model: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut same, mut published) = (false, 0);
    for b in &c.batches {
        let items: &[(u8, u8)] = match b {
            Batch::Declare(items) | Batch::Delete(items) | Batch::Publish(items) => items,
            Batch::Elapse(_) => &[],
        };
        let items = items
            .iter()
            .map(|(p, q)| (&peers[*p as usize % peers.len()], *q as usize % nq));
        same |= items.len() > 1;
        match b {
            Batch::Declare(_) => {
                let all = items.clone().map(|(p, q)| {
                    let name = name(q);
                    let o = opts[q];
                    async move { p.conn.declare_queue(&name, o).await }
                });
                for r in patient("declarations", futures::future::join_all(all)).await? {
                    r.map_err(text)?;
                }
                for (_, q) in items {
                    model.entry(q).or_default();
                }
            }
            Batch::Elapse(minutes) => {
                broker.elapse(Duration::from_secs(60 * *minutes as u64));
                // Queues that aren't durable last for half an hour.
                if *minutes >= 30 {
                    model.retain(|q, _| c.queues[*q].0 || c.queues[*q].1 .1);
                }
            }
            Batch::Delete(_) => {
                let all = items.clone().map(|(p, q)| {
                    let name = name(q);
                    async move { p.conn.delete_queue(&name).await }
                });
                for r in patient("deletions", futures::future::join_all(all)).await? {
                    r.map_err(text)?;
                }
                for (_, q) in items {
                    model.remove(&q);
                }
            }
            Batch::Publish(_) => {
                let all = items.clone().map(|(p, q)| {
                    let name = name(q);
                    let o = opts[q];
                    async move {
                        let h = p.conn.declare_queue(&name, o).await?;
                        h.publisher::<Payload>()
                            .publish(&(1, Rich::Unit, String::new()))
                            .await
                    }
                });
                for r in patient("publishing", futures::future::join_all(all)).await? {
                    r.map_err(text)?;
                }
                for (_, q) in items {
                    *model.entry(q).or_default() += 1;
                    published += 1;
                }
                broker
                    .until("published messages", |b| {
                        b.log()
                            .iter()
                            .filter(|e| matches!(e, Event::Published { .. }))
                            .count()
                            >= published
                    })
                    .await?;
            }
        }
        let (queues, exchanges) = (broker.queues(), broker.exchanges());
        for q in 0..nq {
            let got = if c.queues[q].0 {
                exchanges.get(&name(q)).map(|e| (e.1, 0))
            } else {
                queues.get(&name(q)).map(|i| (i.durable, i.ready))
            };
            let want = model
                .get(&q)
                .map(|n| (c.queues[q].1 .1, if c.queues[q].0 { 0 } else { *n }));
            ensure!(
                got == want,
                "{:?} is (durable, messages) {got:?} instead of {want:?} after {b:?}",
                opts[q]
            );
        }
        ensure!(broker.faults().is_empty(), "misuse: {:?}", broker.faults());
    }
    Ok(same)
}

// --- Runtimes ------------------------------------------------------------

pub struct Site {
    pub broker: Broker,
    pub rt: Arc<Runtime>,
    config: Config,
    /// Connections and main loops of the workers.
    pub workers: Vec<(u64, JoinHandle<anyhow::Result<()>>)>,
}

impl Drop for Site {
    fn drop(&mut self) {
        for w in &self.workers {
            w.1.abort();
        }
    }
}

pub fn amqp_config(broker: &Broker, cbor: bool, bus: Option<String>) -> Config {
    Config {
        runtime: Backend::Amqp,
        amqp_uri: Some(broker.uri()),
        task_bus_routing_key: bus,
        ..driver::config(cbor, 1)
    }
}

impl Site {
    pub async fn new(net: &Net, cbor: bool, bus: Option<String>, workers: usize) -> Result<Site, String> {
        let broker = Broker::start(net.style()).await?;
        let config = amqp_config(&broker, cbor, bus);
        let rt = patient("a runtime", Runtime::from_config(&config, register()))
            .await?
            .map_err(text)?;
        let mut s = Site {
            broker,
            rt: Arc::new(rt),
            config,
            workers: vec![],
        };
        for _ in 0..workers {
            s.spawn().await?;
        }
        Ok(s)
    }

    pub fn bus(&self) -> String {
        self.config
            .task_bus_routing_key
            .clone()
            .unwrap_or_else(|| TASK_IPC_ROUTING_KEY.to_string())
    }

    /// Starts a worker, and waits until it is ready.
    pub async fn spawn(&mut self) -> Result<(), String> {
        let before = self.broker.opened().len();
        let w = patient("a worker", WorkerRuntime::from_config(&self.config, register()))
            .await?
            .map_err(text)?;
        let conn = self.broker.opened()[before];
        let h = tokio::spawn(async move { w.main_loop().await });
        self.workers.push((conn, h));
        // One for tasks, and one for commands.
        self.broker
            .until("a worker to get ready", |b| b.consumers_since(before) >= 2)
            .await
    }

    /// Waits for a job and compares its outcome.
    pub async fn join(&self, spec: &JobSpec, job: &mut driver::Job) -> Verdict {
        job.open();
        let start = std::time::Instant::now();
        while job.done().is_none() {
            if start.elapsed() > broker::PATIENCE {
                return Err(format!(
                    "{:?} doesn't end; queues {:?}, faults {:?}",
                    spec.prog,
                    self.broker.queues(),
                    self.broker.faults()
                ));
            }
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
        let seen = job.seen.lock().unwrap().clone();
        jobs::compare(spec, &seen)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Jobs {
    net: Net,
    cbor: bool,
    bus: Option<String>,
    workers: usize,
    jobs: Vec<JobSpec>,
    /// What isn't a task, at the task bus, and what isn't a command.
    poison: Vec<(bool, Vec<u8>)>,
}

fn some_jobs() -> BoxedStrategy<Jobs> {
    (
        net(),
        any::<bool>(),
        proptest::option::of("[a-z]{3,12}"),
        1usize..4,
        vec(jobs::spec(20), 1..4),
        prop_oneof![
            2 => Just(vec![]),
            1 => vec((any::<bool>(), prop_oneof![Just(vec![0xff; 2]), vec(any::<u8>(), 0..3)]), 1..4),
        ],
    )
        .prop_map(|(net, cbor, bus, workers, jobs, poison)| Jobs {
            net,
            cbor,
            bus,
            workers,
            jobs,
            poison,
        })
        .boxed()
}

fn run_jobs(c: &Jobs, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let s = serializer(c.cbor);
        let site = Site::new(&c.net, c.cbor, c.bus.clone(), c.workers).await?;
        let bus = site.bus();
        let lasting: BTreeSet<String> = site.broker.queues().into_keys().collect();
        ensure!(
            lasting.contains(&bus),
            "there is no queue {bus:?}, but {lasting:?}"
        );
        let exchanges: Vec<String> = site.broker.exchanges().into_keys().collect();
        for (command, b) in &c.poison {
            if *command {
                if s.from_bytes::<CommandIpc>(b).is_err() {
                    for e in &exchanges {
                        site.broker.inject_exchange(e, b.clone());
                    }
                }
            } else if s.from_bytes::<paladin::task::AnyTask>(b).is_err() {
                site.broker.inject(&bus, b.clone());
            }
        }
        let run = new_run([]);
        let mut running: Vec<_> = c
            .jobs
            .iter()
            .map(|spec| jobs::spawn(spec, &site.rt, run.id, false))
            .collect();
        for (spec, job) in c.jobs.iter().zip(&mut running) {
            site.join(spec, job).await?;
        }
        // Nothing is left of the jobs.
        site.broker
            .until("results queues to be deleted", |b| {
                b.queues().keys().all(|q| lasting.contains(q))
            })
            .await
            .map_err(|e| format!("{e}: {:?}", site.broker.queues()))?;
        let b = &site.broker;
        b.until("tasks to be acknowledged", |b| {
            b.queues().get(&bus).is_some_and(|q| q.ready + q.unacked == 0)
        })
        .await
        .map_err(|e| format!("{e}: {:?}", b.queues()))?;
        ensure!(b.faults().is_empty(), "misuse: {:?}", b.faults());
        rec.label_if(!c.poison.is_empty(), "undecodable messages");
        rec.label_if(c.jobs.len() > 1, "several jobs");
        rec.nontrivial(c.jobs.iter().any(|j| j.items.len() > 1));
        Ok(())
    })
}

// --- Lost workers --------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Losses {
    net: Net,
    cbor: bool,
    workers: usize,
    items: Vec<i64>,
    /// Positions at which the worker is lost while executing the task.
    lost: Vec<u8>,
}

fn run_losses(c: &Losses, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let mut site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        let n = c.items.len();
        let mut lost: Vec<u64> = c.lost.iter().map(|l| *l as u64 % n as u64).collect();
        lost.sort_unstable();
        lost.dedup();
        // Their first execution blocks.
        let run = new_run(lost.iter().map(|k| {
            let act = Act::Gate {
                gate: *k as u32,
                heed: false,
            };
            (*k, act)
        }));
        let op = driver::leak(Scripted { run: run.id });
        let rt = site.rt.clone();
        let items: Vec<(u64, i64)> = c.items.iter().enumerate().map(|(k, x)| (k as u64, *x)).collect();
        let job = tokio::spawn(async move {
            let r = Directive::map(IndexedStream::from(items), op).run(&rt).await.map_err(text)?;
            let v: Vec<_> = r.into_values_sorted().await.map_err(text)?.into_iter().collect();
            Ok::<_, String>(v)
        });
        let bus = site.bus();
        let mut left: BTreeSet<u64> = lost.iter().copied().collect();
        while !left.is_empty() {
            // Wait for any of them to be executed.
            let start = std::time::Instant::now();
            let key = loop {
                let entered = run.run.entered();
                if let Some(k) = left.iter().find(|k| entered.contains(k)) {
                    break *k;
                }
                ensure!(start.elapsed() < broker::PATIENCE, "{left:?} aren't executed");
                tokio::time::sleep(Duration::from_micros(200)).await;
            };
            left.remove(&key);
            // Whose is it? All of a worker's earlier tasks have been answered.
            let conn = holder(&site, &bus, key, c.cbor)
                .ok_or_else(|| format!("nobody executes #{key}"))?;
            site.spawn().await?;
            // The next execution goes through.
            run.run.script.lock().unwrap().insert(key, Act::Ok);
            site.broker.kill(conn);
        }
        let got = patient("the results", job).await.map_err(|e| {
            format!("{e}; queues {:?}, attempts {:?}", site.broker.queues(), run.run.attempts)
        })?;
        let got = got.map_err(|e| e.to_string())??;
        let want: Vec<(u64, i64)> = c
            .items
            .iter()
            .enumerate()
            .map(|(k, x)| (k as u64, scripted_value(*x)))
            .collect();
        ensure!(got == want, "yielded {got:?} instead of {want:?}");
        for k in 0..n as u64 {
            let want = 1 + u32::from(lost.contains(&k));
            let got = run.run.attempts_of(k);
            ensure!(
                got == want,
                "task #{k} was executed {got} times instead of {want}"
            );
        }
        rec.count("lost workers", lost.len() as u64);
        rec.nontrivial(!lost.is_empty() && n > 1);
        Ok(())
    })
}

/// The connection that was sent a message of the queue last.
pub fn last_holder(site: &Site, queue: &str) -> Option<u64> {
    site.broker.log().into_iter().rev().find_map(|e| match e {
        Event::Delivered { conn, queue: q, .. } if q == queue => Some(conn),
        _ => None,
    })
}

/// The connection that was sent the task with the given key last.
fn holder(site: &Site, bus: &str, key: u64, cbor: bool) -> Option<u64> {
    let s = serializer(cbor);
    let mut ids = BTreeSet::new();
    let mut conn = None;
    for e in site.broker.log() {
        match e {
            Event::Published { msg, .. } if msg.routing_key == bus => {
                let task: paladin::task::AnyTask = s.from_bytes(&msg.body).ok()?;
                let input: (u64, i64) = task.serializer.from_bytes(&task.input).ok()?;
                if input.0 == key {
                    ids.insert(msg.id);
                }
            }
            Event::Delivered { conn: c, queue, id } if queue == bus && ids.contains(&id) => {
                conn = Some(c);
            }
            _ => {}
        }
    }
    conn
}

// --- Acknowledgements ----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Acks {
    net: Net,
    cbor: bool,
    workers: usize,
    tasks: usize,
}

/// A task stays with the broker for as long as it is being executed.
fn run_acks(c: &Acks, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        let run = new_run((0..c.tasks).map(|k| {
            let act = Act::Gate {
                gate: k as u32,
                heed: false,
            };
            (k as u64, act)
        }));
        let lease = crate::worker::scripted(&site.rt, run.id).await?;
        for k in 0..c.tasks {
            lease.send((k as u64, String::new()), (k as u64, 7)).await?;
        }
        let bus = site.bus();
        let n = c.tasks;
        site.broker
            .until("the tasks", |b| {
                b.log()
                    .iter()
                    .filter(|e| matches!(e, Event::Published { .. }))
                    .count()
                    >= n
            })
            .await?;
        let mut finished = 0;
        while finished < n {
            let busy = c.workers.min(n - finished);
            let start = std::time::Instant::now();
            while run.run.entered().len() < finished + busy {
                ensure!(
                    start.elapsed() < broker::PATIENCE,
                    "{} instead of {} tasks are executed",
                    run.run.entered().len(),
                    finished + busy
                );
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
            let q = site.broker.queues()[&bus].clone();
            ensure!(
                q.unacked == busy && q.ready == n - finished - busy,
                "while {busy} of {} tasks are executed, the queue is {q:?}",
                n - finished
            );
            let t = tally(&site.broker, &bus);
            ensure!(
                t.acked.len() + t.rejected.len() == finished,
                "{finished} tasks have been executed, but {t:?}"
            );
            // One of those executed goes on.
            let entered = run.run.entered();
            let ended = run.run.ended.lock().unwrap().clone();
            let key = *entered
                .iter()
                .filter(|k| !ended.contains(k))
                .nth(c.net.seed as usize % busy)
                .ok_or("nothing is executed")?;
            run.run.open(key as u32);
            finished += 1;
            site.broker
                .until("an acknowledgement", |b| tally(b, &bus).acked.len() == finished)
                .await?;
        }
        let start = std::time::Instant::now();
        while lease.answers().len() < n {
            ensure!(
                start.elapsed() < broker::PATIENCE,
                "{} of {n} answers have arrived",
                lease.answers().len()
            );
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
        for a in lease.answers() {
            let (meta, out) = a?;
            ensure!(out == (meta.0, scripted_value(7)), "{meta:?} yielded {out:?}");
        }
        ensure!(site.broker.faults().is_empty(), "misuse: {:?}", site.broker.faults());
        rec.nontrivial(n > c.workers);
        Ok(())
    })
}

// --- Failures and aborts --------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failures {
    net: Net,
    cbor: bool,
    workers: usize,
    /// Jobs that are operated at the same time, with plans for their tasks.
    jobs: Vec<Vec<Plan>>,
    /// Which of them are aborted, and which positions their later tasks have.
    aborts: Vec<bool>,
    later: Vec<u8>,
    /// Whether some last directive fails for good, at this position.
    last: Option<(Vec<Plan>, u8)>,
}

/// No waiting: these run in real time.
fn prompt_plan() -> BoxedStrategy<Plan> {
    super::c04::plan(3)
        .prop_map(|p| {
            let quick = |r: Retry| match r {
                Retry::After(n, ms) => Retry::After(n, ms % 5),
                r => r,
            };
            match p {
                Plan::Exhausted(r, n) => Plan::Exhausted(quick(r), n),
                Plan::Flaky(r, n) => Plan::Flaky(quick(r), n),
                p => p,
            }
        })
        .boxed()
}

fn failures() -> BoxedStrategy<Failures> {
    (
        net(),
        any::<bool>(),
        1usize..4,
        vec(vec(prompt_plan(), 0..8), 1..4),
        vec(any::<bool>(), 4),
        vec(any::<u8>(), 0..8),
        proptest::option::of((vec(prompt_plan(), 1..8), any::<u8>())),
    )
        .prop_map(|(net, cbor, workers, jobs, aborts, later, last)| Failures {
            net,
            cbor,
            workers,
            jobs,
            aborts,
            later,
            last,
        })
        .boxed()
}

async fn wait(what: &str, cond: impl Fn() -> bool) -> Verdict {
    let start = std::time::Instant::now();
    while !cond() {
        ensure!(start.elapsed() < broker::PATIENCE, "waited in vain for {what}");
        tokio::time::sleep(Duration::from_micros(200)).await;
    }
    Ok(())
}

fn run_failures(c: &Failures, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        let bus = site.bus();
        let nj = c.jobs.len();
        // A panic can't be ignored.
        let jobs: Vec<Vec<Plan>> = c
            .jobs
            .iter()
            .map(|j| {
                j.iter()
                    .map(|p| if *p == Plan::Panic { Plan::Fatal } else { p.clone() })
                    .collect()
            })
            .collect();
        let key = |j: usize, k: usize| (j * 100 + k) as u64;
        let plans: BTreeMap<u64, Plan> = jobs
            .iter()
            .enumerate()
            .flat_map(|(j, ps)| ps.iter().enumerate().map(move |(k, p)| (key(j, k), p.clone())))
            .collect();
        let run = new_run(plans.iter().map(|(k, p)| (*k, p.act(Fatality::Ignore))));
        let mut leases = vec![];
        for _ in 0..nj {
            leases.push(crate::worker::scripted(&site.rt, run.id).await?);
        }
        for k in 0..8 {
            for j in 0..nj {
                if k < jobs[j].len() {
                    let key = key(j, k);
                    leases[j].send((key, format!("{key}")), (key, k as i64)).await?;
                }
            }
        }
        let mut total = plans.len();
        let settled = |n: usize| {
            let site = &site;
            let bus = &bus;
            async move {
                site.broker
                    .until("tasks to be settled", |b| {
                        let t = tally(b, bus);
                        t.acked.len() + t.rejected.len() >= n
                    })
                    .await
                    .map_err(|e| format!("{e}: {:?}", tally(&site.broker, bus)))
            }
        };
        settled(total).await?;
        // Abort some. The second command is acknowledged only after the first
        // has been processed.
        let aborted: Vec<bool> = (0..nj).map(|j| c.aborts[j % c.aborts.len()]).collect();
        let sender = site.rt.get_command_ipc_sender().await.map_err(text)?;
        let mut commands = 0;
        for j in (0..nj).filter(|j| aborted[*j]) {
            for routing_key in [leases[j].id.clone(), format!("decoy {j}")] {
                sender.publish(&CommandIpc::Abort { routing_key }).await.map_err(text)?;
                commands += c.workers;
            }
        }
        site.broker
            .until("commands to be acknowledged", |b| {
                let acks = b.log();
                acks.iter()
                    .filter(|e| matches!(e, Event::Acked { queue, .. } if *queue != bus && leases.iter().all(|l| l.id != *queue)))
                    .count()
                    >= commands
            })
            .await?;
        let mut want: Vec<Vec<(u64, i64)>> = vec![vec![]; nj];
        let mut attempts: BTreeMap<u64, u32> = BTreeMap::new();
        for (j, ps) in jobs.iter().enumerate() {
            for (k, p) in ps.iter().enumerate() {
                attempts.insert(key(j, k), p.attempts());
                if !p.fails() {
                    want[j].push((key(j, k), scripted_value(k as i64)));
                }
            }
        }
        let mut skipped = 0;
        for (i, j) in c.later.iter().enumerate() {
            let j = *j as usize % nj;
            let key = key(j, 50 + i);
            leases[j].send((key, format!("{key}")), (key, 7)).await?;
            attempts.insert(key, u32::from(!aborted[j]));
            total += 1;
            if aborted[j] {
                skipped += 1;
            } else {
                want[j].push((key, scripted_value(7)));
            }
        }
        settled(total).await?;
        for (j, lease) in leases.iter().enumerate() {
            // Those that are waited for here are all there are.
            wait(&format!("{} answers of job {j}", want[j].len()), || {
                lease.answers().len() >= want[j].len()
            })
            .await?;
            let mut got = vec![];
            for a in lease.answers() {
                let (meta, out) = a.map_err(|e| format!("job {j} got the error {e}"))?;
                ensure!(
                    meta == (out.0, format!("{}", out.0)),
                    "the metadata of {out:?} are {meta:?}"
                );
                got.push(out);
            }
            got.sort();
            ensure!(got == want[j], "job {j} got {got:?} instead of {:?}", want[j]);
            let sent = site
                .broker
                .log()
                .iter()
                .filter(|e| matches!(e, Event::Published { msg, .. } if msg.routing_key == lease.id))
                .count();
            ensure!(
                sent == want[j].len(),
                "job {j} was sent {sent} answers instead of {}",
                want[j].len()
            );
        }
        for (k, n) in &attempts {
            let got = run.run.attempts_of(*k);
            ensure!(got == *n, "task #{k} was executed {got} times instead of {n}");
        }
        let t = tally(&site.broker, &bus);
        ensure!(
            t.requeued.is_empty() && t.delivered.values().all(|n| *n == 1),
            "tasks were delivered repeatedly: {t:?}"
        );
        ensure!(
            t.acked.len() + t.rejected.len() == total && t.acked.is_disjoint(&t.rejected),
            "of {total} tasks, {t:?}"
        );
        ensure!(
            site.workers.iter().all(|w| !w.1.is_finished()),
            "a worker has stopped"
        );
        // A failure in terminate mode.
        if let Some((plans, at)) = &c.last {
            let at = *at as usize % plans.len();
            let run = new_run(plans.iter().enumerate().map(|(k, p)| {
                let p = if k == at { &Plan::Fatal } else { p };
                (k as u64, p.act(Fatality::Terminate))
            }));
            let op = driver::leak(Scripted { run: run.id });
            let rt = site.rt.clone();
            let items: Vec<(u64, i64)> = (0..plans.len()).map(|k| (k as u64, 7)).collect();
            let job = tokio::spawn(async move {
                let r = Directive::map(IndexedStream::from(items), op).run(&rt).await.map_err(text)?;
                let v: Vec<_> = r.into_values_sorted().await.map_err(text)?.into_iter().collect();
                Ok::<_, String>(v)
            });
            let r = patient("a failure", job)
                .await
                .map_err(|e| format!("{e}; queues {:?}", site.broker.queues()))?
                .map_err(|e| e.to_string())?;
            let Err(e) = r else {
                return Err(format!("{r:?} in spite of {plans:?} with #{at} fatal"));
            };
            let messages: Vec<String> = plans
                .iter()
                .enumerate()
                .map(|(k, p)| (k, if k == at { &Plan::Fatal } else { p }))
                .filter(|(_, p)| p.fails())
                .map(|(k, p)| p.message(k as u64))
                .collect();
            ensure!(
                messages.iter().any(|m| e.contains(m.as_str())),
                "the error {e:?} is none of {messages:?}"
            );
            // It makes the workers stop.
            site.broker
                .until("the abort command", |b| {
                    b.log().iter().any(|e| match e {
                        Event::Published { msg, .. } => serializer(c.cbor)
                            .from_bytes::<CommandIpc>(&msg.body)
                            .is_ok_and(|CommandIpc::Abort { routing_key }| {
                                routing_key == COMMAND_IPC_ABORT_ALL_KEY
                            }),
                        _ => false,
                    })
                })
                .await?;
            rec.label("a failure in terminate mode");
        }
        ensure!(site.broker.faults().is_empty(), "misuse: {:?}", site.broker.faults());
        rec.count("ignored failures", plans.values().filter(|p| p.fails()).count() as u64);
        rec.count("tasks of aborted jobs", skipped);
        rec.nontrivial(plans.values().any(|p| p.fails()) || skipped > 0 || c.last.is_some());
        Ok(())
    })
}

pub fn property() -> Property {
    Property {
        id: "C20",
        assumptions: &[
            "the broker is the harness's own: it implements the methods of AMQP 0-9-1 in use, with RabbitMQ's semantics, on the loopback interface",
            "waiting for something in vain for 20 s means that it doesn't happen",
        ],
        facets: vec![
            facet(
                "queues",
                "publishing, consuming, acknowledging, undecodable messages and lost connections on up to two queues and three connections; non-trivial: at least two messages and a consumer",
                Budget::new(1200, 40_000).shrink(150),
                queues,
                run_queues,
            ),
            facet(
                "lifetimes",
                "concurrent declarations, deletions and publications of up to four queues and broadcasts; non-trivial: more than one batch of them",
                Budget::new(1500, 40_000).shrink(60),
                lifetimes,
                run_lifetimes,
            ),
            facet(
                "jobs",
                "up to three concurrent directives executed by up to three workers with connections of their own, with undecodable messages; non-trivial: some input of at least two items",
                Budget::new(500, 20_000).shrink(100),
                some_jobs,
                run_jobs,
            ),
            facet(
                "losses",
                "maps during which workers are lost while they execute particular tasks; non-trivial: some loss and at least two tasks",
                Budget::new(250, 8_000).shrink(60),
                || {
                    (net(), any::<bool>(), 1usize..4, vec(any::<i64>(), 1..10), vec(any::<u8>(), 0..4))
                        .prop_map(|(net, cbor, workers, items, lost)| Losses {
                            net,
                            cbor,
                            workers,
                            items,
                            lost,
                        })
                        .boxed()
                },
                run_losses,
            ),
            facet(
                "acks",
                "tasks executed one by one, with a look at the broker's queue in between; non-trivial: more tasks than workers",
                Budget::new(250, 8_000).shrink(60),
                || {
                    (net(), any::<bool>(), 1usize..4, 1usize..8)
                        .prop_map(|(net, cbor, workers, tasks)| Acks {
                            net,
                            cbor,
                            workers,
                            tasks,
                        })
                        .boxed()
                },
                run_acks,
            ),
            facet(
                "failures",
                "up to three jobs at a time with tasks that fail and are ignored or retried, abort commands for some of the jobs and tasks after that, and a directive that fails; non-trivial: an ignored failure, a task of an aborted job or a failing directive",
                Budget::new(300, 8_000).shrink(60),
                failures,
                run_failures,
            ),
            super::bulk::queue_bulk(),
            super::bulk::large_jobs(),
        ],
    }
}

// --- C21: Broadcasts -----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BOp {
    Publish { conn: u8, queue: u8, rich: Rich, fresh: bool },
    /// A consumer is dropped.
    Leave { consumer: u8 },
    Elapse(u8),
    Consume { conn: u8, queue: u8 },
    /// A consumer receives and acknowledges what has arrived.
    Receive { consumer: u8 },
    Poison { queue: u8 },
    Kill { conn: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Broadcasts {
    net: Net,
    cbor: bool,
    conns: Vec<Option<u16>>,
    queues: Vec<(bool, bool)>,
    ops: Vec<BOp>,
}

fn broadcasts() -> BoxedStrategy<Broadcasts> {
    let b = any::<u8>;
    let op = prop_oneof![
        5 => (b(), b(), rich(), any::<bool>()).prop_map(|(conn, queue, rich, fresh)| BOp::Publish { conn, queue, rich, fresh }),
        1 => b().prop_map(|consumer| BOp::Leave { consumer }),
        1 => (0u8..29).prop_map(BOp::Elapse),
        4 => (b(), b()).prop_map(|(conn, queue)| BOp::Consume { conn, queue }),
        3 => b().prop_map(|consumer| BOp::Receive { consumer }),
        1 => b().prop_map(|queue| BOp::Poison { queue }),
        1 => b().prop_map(|conn| BOp::Kill { conn }),
    ];
    (
        net(),
        any::<bool>(),
        vec(prop_oneof![Just(None), (1u16..5).prop_map(Some)], 1..4),
        vec(any::<(bool, bool)>(), 1..3),
        vec(op, 1..30),
    )
        .prop_map(|(net, cbor, conns, queues, ops)| Broadcasts {
            net,
            cbor,
            conns,
            queues,
            ops,
        })
        .boxed()
}

struct Listener {
    reader: Reader,
    want: Vec<u64>,
    got: Vec<u64>,
}

impl Listener {
    async fn receive(&mut self, wait: Duration) -> Result<bool, String> {
        match tokio::time::timeout(wait, self.reader.stream.next()).await {
            Err(_) => Ok(false),
            Ok(None) => Err("a consumer ended".to_string()),
            Ok(Some((payload, acker))) => {
                self.got.push(payload.0);
                patient("an acknowledgement", acker.ack())
                    .await?
                    .map_err(text)?;
                Ok(true)
            }
        }
    }
}

fn run_broadcasts(c: &Broadcasts, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let s = serializer(c.cbor);
        let broker = Broker::start(c.net.style()).await?;
        let mut peers = vec![];
        for qos in &c.conns {
            peers.push(connect(&broker, s, *qos).await?);
        }
        let opts: Vec<QueueOptions> = c.queues.iter().map(|q| options(true, *q)).collect();
        for (q, o) in opts.iter().enumerate() {
            patient("a queue", peers[0].conn.declare_queue(&name(q), *o))
                .await?
                .map_err(text)?;
        }
        let nq = c.queues.len();
        let mut listeners: Vec<Listener> = vec![];
        let (mut next, mut count, mut late) = (0, 0, false);
        let mut handles: BTreeMap<(usize, usize), Handle> = BTreeMap::new();
        let (mut names, mut left) = (0, false);
        for op in &c.ops {
            let live: Vec<usize> = (0..peers.len()).filter(|p| peers[*p].alive).collect();
            match op {
                BOp::Publish {
                    conn,
                    queue,
                    rich,
                    fresh,
                } => {
                    let p = live[*conn as usize % live.len()];
                    let q = *queue as usize % nq;
                    next += 1;
                    let handle = handle(&peers, &mut handles, *fresh, p, q, opts[q]).await?;
                    let payload: Payload = (next, rich.clone(), String::new());
                    patient("publishing", handle.publisher::<Payload>().publish(&payload))
                        .await?
                        .map_err(text)?;
                    count += 1;
                    broker
                        .until("a published message", |b| {
                            b.log()
                                .iter()
                                .filter(|e| matches!(e, Event::Published { .. }))
                                .count()
                                >= count
                        })
                        .await?;
                    for l in &mut listeners {
                        if l.reader.queue == q && peers[l.reader.peer].alive {
                            l.want.push(next);
                            late |= l.want.len() > 1;
                        }
                    }
                }
                BOp::Consume { conn, queue } => {
                    if listeners.len() < 6 {
                        let p = live[*conn as usize % live.len()];
                        let q = *queue as usize % nq;
                        listeners.push(Listener {
                            reader: reader(&peers, p, q, opts[q], names).await?,
                            want: vec![],
                            got: vec![],
                        });
                        names += 1;
                    }
                }
                BOp::Leave { consumer } => {
                    let n = listeners.len().max(1);
                    let i = *consumer as usize % n;
                    if listeners.get(i).is_some_and(|l| peers[l.reader.peer].alive) {
                        let before = broker.consumers_since(0);
                        listeners.remove(i);
                        broker
                            .until("a consumer to leave", |b| b.consumers_since(0) < before)
                            .await?;
                        left = true;
                    }
                }
                BOp::Elapse(minutes) => broker.elapse(Duration::from_secs(60 * *minutes as u64)),
                BOp::Receive { consumer } => {
                    let n = listeners.len().max(1);
                    if let Some(l) = listeners.get_mut(*consumer as usize % n) {
                        if peers[l.reader.peer].alive {
                            l.receive(Duration::from_millis(3)).await?;
                        }
                    }
                }
                BOp::Poison { queue } => {
                    let q = *queue as usize % nq;
                    broker.inject_exchange(&name(q), vec![0xff; 3]);
                    count += 1;
                }
                BOp::Kill { conn } => {
                    if live.len() > 1 {
                        let p = live[*conn as usize % live.len()];
                        broker.kill(peers[p].id);
                        peers[p].alive = false;
                    }
                }
            }
        }
        let start = std::time::Instant::now();
        for (i, l) in listeners.iter_mut().enumerate() {
            if !peers[l.reader.peer].alive {
                continue;
            }
            while l.got.len() < l.want.len() {
                l.receive(Duration::from_millis(20)).await?;
                ensure!(
                    start.elapsed() < broker::PATIENCE,
                    "consumer {i} received {:?} instead of {:?}; faults {:?}",
                    l.got,
                    l.want,
                    broker.faults()
                );
            }
        }
        // And nothing else.
        for (i, l) in listeners.iter_mut().enumerate() {
            if !peers[l.reader.peer].alive {
                continue;
            }
            l.receive(Duration::from_millis(1)).await?;
            ensure!(
                l.got == l.want,
                "consumer {i} received {:?} instead of {:?}",
                l.got,
                l.want
            );
        }
        ensure!(broker.faults().is_empty(), "misuse: {:?}", broker.faults());
        rec.label_if(late, "several messages for a consumer");
        rec.label_if(left, "consumers that leave");
        rec.nontrivial(listeners.iter().filter(|l| !l.want.is_empty()).count() > 1);
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stops {
    net: Net,
    cbor: bool,
    workers: usize,
    /// The leader aborts everything, or else a task fails.
    command: bool,
    /// Commands that concern other jobs.
    others: Vec<String>,
}

fn run_stops(c: &Stops, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let site = Site::new(&c.net, c.cbor, None, c.workers).await?;
        // Every worker is busy.
        let busy = c.workers as u64 - u64::from(!c.command);
        let gate = Act::Gate {
            gate: 1,
            heed: true,
        };
        let mut script: Vec<(u64, Act)> = (0..busy).map(|k| (k, gate.clone())).collect();
        script.push((100, Act::Fatal(Fatality::Terminate)));
        let run = new_run(script);
        let lease = crate::worker::scripted(&site.rt, run.id).await?;
        for k in 0..busy {
            lease.send((k, String::new()), (k, 7)).await?;
        }
        let wait = |what: &'static str, cond: Box<dyn Fn() -> bool + Send>| async move {
            let start = std::time::Instant::now();
            while !cond() {
                ensure!(start.elapsed() < broker::PATIENCE, "waited in vain for {what}");
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
            Ok(())
        };
        let r = run.run.clone();
        wait("tasks to be executed", Box::new(move || r.entered().len() as u64 == busy)).await?;
        let sender = patient("a sender", site.rt.get_command_ipc_sender())
            .await?
            .map_err(text)?;
        for o in &c.others {
            let abort = CommandIpc::Abort {
                routing_key: format!("other-{o}"),
            };
            patient("publishing", sender.publish(&abort)).await?.map_err(text)?;
        }
        for k in 0..busy {
            ensure!(!run.run.signal(k), "task #{k} is told to abort");
        }
        if c.command {
            let abort = CommandIpc::Abort {
                routing_key: COMMAND_IPC_ABORT_ALL_KEY.to_string(),
            };
            patient("publishing", sender.publish(&abort)).await?.map_err(text)?;
        } else {
            let other = crate::worker::scripted(&site.rt, run.id).await?;
            other.send((100, String::new()), (100, 7)).await?;
            let got = other.got.clone();
            wait("the error", Box::new(move || !got.lock().unwrap().is_empty())).await?;
            let a = other.answers().remove(0);
            let want = ops::failure_msg(100, 1);
            ensure!(
                a.as_ref().is_err_and(|e| e.contains(&want)),
                "the answer is {a:?} instead of {want}"
            );
        }
        let r = run.run.clone();
        let all = Box::new(move || (0..busy).all(|k| r.signal(k)));
        wait("abort signals", all).await.map_err(|e| {
            let told: Vec<bool> = (0..busy).map(|k| run.run.signal(k)).collect();
            format!("{e} of {told:?}")
        })?;
        ensure!(site.broker.faults().is_empty(), "misuse: {:?}", site.broker.faults());
        rec.nontrivial(busy > 1);
        Ok(())
    })
}

pub fn broadcast_property() -> Property {
    Property {
        id: "C21",
        assumptions: &[
            "the broker is the harness's own: it implements the methods of AMQP 0-9-1 in use, with RabbitMQ's semantics, on the loopback interface",
            "waiting for something in vain for 20 s means that it doesn't happen",
        ],
        facets: vec![
            facet(
                "broadcasts",
                "publishers and up to six consumers of up to two broadcast queues on up to three connections, with undecodable messages and lost connections; non-trivial: at least two consumers to be sent something",
                Budget::new(1500, 50_000).shrink(150),
                broadcasts,
                run_broadcasts,
            ),
            facet(
                "stops",
                "up to four workers, all executing tasks, when everything is aborted by command or failure; non-trivial: at least two blocked workers",
                Budget::new(300, 8_000).shrink(60),
                || {
                    (net(), any::<bool>(), 1usize..5, any::<bool>(), vec("[a-z]{0,5}", 0..4))
                        .prop_map(|(net, cbor, workers, command, others)| Stops {
                            net,
                            cbor,
                            workers,
                            command,
                            others,
                        })
                        .boxed()
                },
                run_stops,
            ),
            super::bulk::broadcast_bulk(),
        ],
    }
}
