//! C10: in-memory exactly-once queues deliver each message once, in order.
use std::{
    collections::VecDeque,
    sync::{Arc, Mutex},
    task::Poll,
};

use futures::StreamExt;
use paladin::{
    acker::Acker,
    queue::{
        in_memory::{InMemoryConnection, InMemoryConsumer},
        Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions,
        SyndicationMode,
    },
    serializer::Serializer,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{rich, Rich},
    sched,
    util::{now, poll_next, Flag},
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Msg {
    id: u64,
    body: Rich,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Publish(Rich),
    /// Publish through a publisher created earlier or through the handle.
    PublishVia(u8),
    Declare(u8),
    /// Poll the given consumer.
    Poll(u8),
    /// Poll a consumer that has been woken.
    PollWoken(u8),
    Drop(u8),
    /// Declare the queue again.
    Redeclare,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cbor: bool,
    ephemeral: bool,
    durable: bool,
    steps: Vec<Step>,
}

fn case() -> BoxedStrategy<Case> {
    // Publishing and receiving prevail in turn.
    let step = |publish: u32, poll: u32| {
        prop_oneof![
            1 => rich().prop_map(Step::Publish),
            publish => any::<u8>().prop_map(Step::PublishVia),
            2 => (0u8..3).prop_map(Step::Declare),
            poll => any::<u8>().prop_map(Step::Poll),
            4 => any::<u8>().prop_map(Step::PollWoken),
            2 => any::<u8>().prop_map(Step::Drop),
            1 => Just(Step::Redeclare),
        ]
    };
    let step = move || prop_oneof![
        vec(step(7, 5), 0..60),
        vec(step(3, 12), 0..60),
    ];
    (any::<bool>(), any::<bool>(), any::<bool>(), step())
        .prop_map(|(cbor, ephemeral, durable, steps)| Case {
            cbor,
            ephemeral,
            durable,
            steps,
        })
        .boxed()
}

struct Consumer {
    stream: InMemoryConsumer<Msg>,
    flag: Arc<Flag>,
    /// The most recent poll was pending.
    waiting: bool,
}

pub fn serializer(cbor: bool) -> Serializer {
    if cbor {
        Serializer::Cbor
    } else {
        Serializer::Postcard
    }
}

fn run(c: &Case, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(serializer(c.cbor));
    let options = QueueOptions {
        syndication_mode: SyndicationMode::ExactlyOnce,
        delivery_mode: if c.ephemeral {
            DeliveryMode::Ephemeral
        } else {
            DeliveryMode::Persistent
        },
        durability: if c.durable {
            QueueDurability::Durable
        } else {
            QueueDurability::NonDurable
        },
    };
    let mut handle = now(conn.declare_queue("q", options)).map_err(|e| e.to_string())?;
    let mut publishers = vec![handle.publisher::<Msg>()];
    let mut consumers: Vec<Consumer> = Vec::new();
    let mut model: VecDeque<Msg> = VecDeque::new();
    let mut next = 0u64;
    let (mut received, mut dropped_waiting, mut woken_deliveries) = (0u64, 0u64, 0u64);

    // Polls a consumer; other consumers that have been woken may have a message
    // reserved for them.
    fn poll(
        consumers: &mut [Consumer],
        k: usize,
        model: &mut VecDeque<Msg>,
    ) -> Result<bool, String> {
        let reserved = consumers
            .iter()
            .enumerate()
            .filter(|(i, c)| *i != k && c.waiting && c.flag.woken())
            .count();
        let c = &mut consumers[k];
        c.flag.reset();
        match poll_next(&mut c.stream, &c.flag) {
            Poll::Ready(Some((m, acker))) => {
                let want = model.pop_front();
                if want.as_ref() != Some(&m) {
                    return Err(format!(
                        "received {m:?}, but the first undelivered message is {want:?}"
                    ));
                }
                now(acker.ack()).map_err(|e| e.to_string())?;
                c.waiting = false;
                Ok(true)
            }
            Poll::Ready(None) => Err("the consumer's stream ended".into()),
            Poll::Pending => {
                c.waiting = true;
                if model.len() > reserved {
                    return Err(format!(
                        "consumer {k} waits although {} messages are undelivered ({reserved} consumers have been woken)",
                        model.len()
                    ));
                }
                Ok(false)
            }
        }
    }

    for step in &c.steps {
        match step {
            Step::Publish(body) => {
                let m = Msg {
                    id: next,
                    body: body.clone(),
                };
                next += 1;
                now(handle.publish(&m)).map_err(|e| e.to_string())?;
                model.push_back(m);
            }
            Step::PublishVia(k) => {
                let m = Msg {
                    id: next,
                    body: Rich::Nat(next << 7),
                };
                next += 1;
                let n = publishers.len();
                let p = &publishers[*k as usize % n];
                now(p.publish(&m)).map_err(|e| e.to_string())?;
                model.push_back(m);
            }
            Step::Declare(name) => {
                let stream = now(handle.declare_consumer::<Msg>(&format!("consumer {name}")))
                    .map_err(|e| e.to_string())?;
                consumers.push(Consumer {
                    stream,
                    flag: Flag::new(),
                    waiting: false,
                });
            }
            Step::Poll(k) => {
                if consumers.is_empty() {
                    continue;
                }
                let k = *k as usize % consumers.len();
                received += poll(&mut consumers, k, &mut model)? as u64;
            }
            Step::PollWoken(k) => {
                let woken: Vec<usize> = (0..consumers.len())
                    .filter(|i| consumers[*i].waiting && consumers[*i].flag.woken())
                    .collect();
                if woken.is_empty() {
                    continue;
                }
                let k = woken[*k as usize % woken.len()];
                let got = poll(&mut consumers, k, &mut model)?;
                received += got as u64;
                woken_deliveries += got as u64;
            }
            Step::Drop(k) => {
                if !consumers.is_empty() {
                    let c = consumers.remove(*k as usize % consumers.len());
                    dropped_waiting += c.waiting as u64;
                }
            }
            Step::Redeclare => {
                handle = now(conn.clone().declare_queue("q", options)).map_err(|e| e.to_string())?;
                publishers.push(handle.publisher());
            }
        }
    }
    // Poll whoever has been woken until nobody is; nothing may remain if anybody
    // is waiting.
    while let Some(k) = consumers
        .iter()
        .position(|c| c.waiting && c.flag.woken())
    {
        let got = poll(&mut consumers, k, &mut model)?;
        received += got as u64;
        woken_deliveries += got as u64;
    }
    if consumers.iter().any(|c| c.waiting) {
        ensure!(
            model.is_empty(),
            "a waiting consumer isn't woken although {} messages are undelivered",
            model.len()
        );
    }
    // Whatever remains is delivered to a consumer declared now.
    consumers.clear();
    let stream =
        now(handle.declare_consumer::<Msg>("last")).map_err(|e| e.to_string())?;
    consumers.push(Consumer {
        stream,
        flag: Flag::new(),
        waiting: false,
    });
    while poll(&mut consumers, 0, &mut model)? {
        received += 1;
    }
    ensure!(model.is_empty(), "{} messages have been lost", model.len());
    ensure!(
        received == next,
        "published {next} messages, received {received}"
    );
    rec.label_if(dropped_waiting > 0, "waiting consumer dropped");
    rec.label_if(woken_deliveries > 0, "delivered after a wake-up");
    rec.count("received", received);
    rec.nontrivial(received >= 2 && c.steps.iter().any(|s| matches!(s, Step::Poll(_))));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    /// Messages per publisher.
    publishers: Vec<u8>,
    /// Per consumer: how many messages to receive before leaving (none: all).
    consumers: Vec<Option<u8>>,
    decisions: Vec<u8>,
}

fn par() -> BoxedStrategy<Par> {
    (
        vec(0u8..5, 1..3),
        vec(prop_oneof![2 => Just(None), 1 => (0u8..3).prop_map(Some)], 1..3),
        vec(0u8..6, 0..120),
    )
        .prop_map(|(publishers, consumers, decisions)| Par {
            publishers,
            consumers,
            decisions,
        })
        .boxed()
}

fn run_par(c: &Par, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let options = QueueOptions {
        syndication_mode: SyndicationMode::ExactlyOnce,
        ..Default::default()
    };
    let total: u64 = c.publishers.iter().map(|n| *n as u64).sum();
    let received: Mutex<Vec<(usize, u64)>> = Default::default();
    let stuck: Mutex<Vec<usize>> = Default::default();
    let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (p, n) in c.publishers.iter().enumerate() {
        let conn = conn.clone();
        threads.push(Box::new(move || {
            let handle = now(conn.declare_queue("q", options)).unwrap();
            for k in 0..*n as u64 {
                now(handle.publish(&(p as u64 * 100 + k))).unwrap();
            }
        }));
    }
    for (i, limit) in c.consumers.iter().enumerate() {
        let conn = conn.clone();
        let (received, stuck) = (&received, &stuck);
        threads.push(Box::new(move || {
            let handle = now(conn.declare_queue("q", options)).unwrap();
            let mut s = now(handle.declare_consumer::<u64>("c")).unwrap();
            let mut left = limit.unwrap_or(u8::MAX);
            while left > 0 {
                match sched::block_on(s.next()) {
                    Ok(Some((m, _))) => received.lock().unwrap().push((i, m)),
                    Ok(None) => panic!("stream ended"),
                    // Nobody publishes any more.
                    Err(_) => {
                        stuck.lock().unwrap().push(i);
                        break;
                    }
                }
                left -= 1;
            }
        }));
    }
    let s = sched::run(&c.decisions, |_| true, threads)?;
    // What the consumers have left behind is still available.
    let handle = now(conn.declare_queue("q", options)).unwrap();
    let mut rest = now(handle.declare_consumer::<u64>("c")).unwrap();
    let mut leftover = Vec::new();
    while let Poll::Ready(Some((m, _))) = poll_next(&mut rest, &Flag::new()) {
        leftover.push(m);
    }
    let received = received.into_inner().unwrap();
    if !stuck.lock().unwrap().is_empty() {
        ensure!(
            leftover.is_empty(),
            "a consumer is waiting forever although {leftover:?} remain in the queue"
        );
    }
    let mut all: Vec<u64> = received
        .iter()
        .map(|x| x.1)
        .chain(leftover.iter().copied())
        .collect();
    all.sort();
    let mut want: Vec<u64> = c
        .publishers
        .iter()
        .enumerate()
        .flat_map(|(p, n)| (0..*n as u64).map(move |k| p as u64 * 100 + k))
        .collect();
    want.sort();
    ensure!(
        all == want,
        "published {want:?}, but received {all:?} (of those {leftover:?} late)"
    );
    // Each consumer sees the messages of each publisher in order.
    for i in 0..c.consumers.len() {
        for p in 0..c.publishers.len() {
            let seen: Vec<u64> = received
                .iter()
                .filter(|(j, m)| *j == i && m / 100 == p as u64)
                .map(|x| x.1)
                .collect();
            ensure!(
                seen.windows(2).all(|w| w[0] < w[1]),
                "consumer {i} received the messages of publisher {p} as {seen:?}"
            );
        }
    }
    rec.count("received", all.len() as u64);
    rec.count("switches", s.switches);
    rec.label_if(s.free, "fell back to free running");
    rec.nontrivial(total >= 2 && s.switches > 3);
    Ok(())
}

/// What the messages of a bulk run look like.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// Nothing at all.
    Unit,
    /// All the same.
    Same,
    /// All different.
    Distinct,
    /// Of sizes between zero and more than a hundred kilobytes.
    Sizes,
}

pub fn kind() -> BoxedStrategy<Kind> {
    proptest::sample::select(vec![Kind::Unit, Kind::Same, Kind::Distinct, Kind::Sizes]).boxed()
}

impl Kind {
    fn text(self, i: u64) -> String {
        match self {
            Kind::Unit => String::new(),
            Kind::Same => "the same".into(),
            Kind::Distinct => format!("#{i}"),
            Kind::Sizes => {
                let h = i.wrapping_mul(0x9e3779b97f4a7c15) >> 32;
                let n = match h % 50 {
                    0 => h % 150_000,
                    1 => [0, 1, 127, 128, 255, 256, 4095, 4096, 65535, 65536][i as usize % 10],
                    _ => h % 300,
                };
                "z".repeat(n as usize)
            }
        }
    }
}

/// The messages of a bulk run.
pub trait Bulk: paladin::serializer::Serializable + PartialEq + std::fmt::Debug {
    fn nth(kind: Kind, i: u64) -> Self;
}

impl Bulk for () {
    fn nth(_: Kind, _: u64) {}
}

impl Bulk for String {
    fn nth(kind: Kind, i: u64) -> String {
        kind.text(i)
    }
}

/// Compares without printing large messages in full.
pub fn same<T: Bulk>(kind: Kind, i: u64, got: &T) -> Verdict {
    let want = T::nth(kind, i);
    if *got == want {
        return Ok(());
    }
    let show = |x: &T| format!("{x:?}").chars().take(60).collect::<String>();
    Err(format!(
        "message {i} should be {} but is {}",
        show(&want),
        show(got)
    ))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Volume {
    cbor: bool,
    ephemeral: bool,
    kind: Kind,
    /// How many to publish and receive, and whether a new consumer does the
    /// latter.
    bursts: Vec<(u16, u16, bool)>,
}

fn volume() -> BoxedStrategy<Volume> {
    let n = || prop_oneof![3 => 0u16..30, 2 => 0u16..1000, 1 => 0u16..6000];
    (
        any::<bool>(),
        any::<bool>(),
        kind(),
        vec((n(), n(), any::<bool>()), 1..6),
    )
        .prop_map(|(cbor, ephemeral, kind, bursts)| Volume {
            cbor,
            ephemeral,
            kind,
            bursts,
        })
        .boxed()
}

fn run_volume(c: &Volume, rec: &mut Rec) -> Verdict {
    match c.kind {
        Kind::Unit => volume_of::<()>(c, rec),
        _ => volume_of::<String>(c, rec),
    }
}

fn volume_of<T: Bulk>(c: &Volume, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(serializer(c.cbor));
    let options = QueueOptions {
        syndication_mode: SyndicationMode::ExactlyOnce,
        delivery_mode: if c.ephemeral {
            DeliveryMode::Ephemeral
        } else {
            DeliveryMode::Persistent
        },
        ..Default::default()
    };
    let handle = now(conn.declare_queue("q", options)).map_err(|e| e.to_string())?;
    let declare = || now(handle.declare_consumer::<T>("c")).map_err(|e| e.to_string());
    let mut consumer = declare()?;
    let (mut published, mut received, mut most) = (0u64, 0u64, 0);
    let last = (0, u16::MAX, true);
    for (publish, receive, fresh) in c.bursts.iter().chain([&last]) {
        for _ in 0..*publish {
            now(handle.publish(&T::nth(c.kind, published))).map_err(|e| e.to_string())?;
            published += 1;
        }
        most = most.max(published - received);
        if *fresh {
            consumer = declare()?;
        }
        for _ in 0..*receive {
            match poll_next(&mut consumer, &Flag::new()) {
                Poll::Ready(Some((m, acker))) => {
                    ensure!(
                        received < published,
                        "a message more than the {published} published"
                    );
                    same(c.kind, received, &m)?;
                    received += 1;
                    now(acker.ack()).map_err(|e| e.to_string())?;
                }
                Poll::Ready(None) => return Err("the consumer's stream ended".into()),
                Poll::Pending => {
                    ensure!(
                        received == published,
                        "only {received} of {published} messages are delivered"
                    );
                    break;
                }
            }
        }
    }
    ensure!(
        received == published,
        "only {received} of {published} messages have been delivered"
    );
    rec.label(format!("{:?}", c.kind));
    rec.label_if(most > 1000, "more than a thousand messages waiting");
    rec.count("received", received);
    rec.nontrivial(most > 100);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C10",
        assumptions: &[
            "all users of a queue agree on the message type",
            "interleavings are explored at the granularity of queue accesses on a sequentially consistent memory",
        ],
        facets: vec![
            facet(
                "sequential",
                "random publishes of structured messages, consumer declarations, polls, drops of (waiting) consumers and re-declarations, compared step by step with a FIFO model including wake-ups; non-trivial: two messages were received and consumers were polled in between",
                Budget::new(120_000, 2_500_000),
                case,
                run,
            ),
            facet(
                "concurrent",
                "1-2 publishing and 1-2 consuming threads under a generated schedule; non-trivial: two messages and more than three context switches",
                Budget::new(25_000, 600_000),
                par,
                run_par,
            ),
            facet(
                "volume",
                "bursts of up to 6000 messages without content, all alike, all different or of up to 150 kB, received in between by the same or a new consumer; non-trivial: more than a hundred waiting at a time",
                Budget::new(600, 12_000),
                volume,
                run_volume,
            ),
        ],
    }
}
