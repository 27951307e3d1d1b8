//! C11: in-memory broadcast queues deliver every message to every consumer.
use std::{
    collections::{BTreeMap, VecDeque},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::Poll,
};

use futures::StreamExt;
use paladin::queue::{
    in_memory::{InMemoryConnection, InMemoryConsumer},
    Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c10::{kind, same, serializer, Bulk, Kind};
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{rich, Rich},
    sched,
    util::{now, poll_next, Flag},
};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Msg {
    id: u64,
    body: Rich,
}

fn options(ephemeral: bool) -> QueueOptions {
    QueueOptions {
        syndication_mode: SyndicationMode::Broadcast,
        delivery_mode: if ephemeral {
            DeliveryMode::Ephemeral
        } else {
            DeliveryMode::Persistent
        },
        ..Default::default()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Publish(Rich),
    PublishVia(u8),
    Declare(u8),
    Poll(u8),
    PollWoken(u8),
    Drop(u8),
    Redeclare,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cbor: bool,
    ephemeral: bool,
    steps: Vec<Step>,
}

fn case() -> BoxedStrategy<Case> {
    // Publishing and receiving prevail in turn.
    let step = |publish: u32, poll: u32| {
        prop_oneof![
            1 => rich().prop_map(Step::Publish),
            publish => any::<u8>().prop_map(Step::PublishVia),
            3 => (0u8..5).prop_map(Step::Declare),
            poll => any::<u8>().prop_map(Step::Poll),
            4 => any::<u8>().prop_map(Step::PollWoken),
            1 => any::<u8>().prop_map(Step::Drop),
            1 => Just(Step::Redeclare),
        ]
    };
    let steps = prop_oneof![vec(step(6, 7), 0..70), vec(step(2, 14), 0..70)];
    (any::<bool>(), any::<bool>(), steps)
        .prop_map(|(cbor, ephemeral, steps)| Case {
            cbor,
            ephemeral,
            steps,
        })
        .boxed()
}

struct Consumer {
    name: u8,
    stream: InMemoryConsumer<Msg>,
    flag: Arc<Flag>,
    waiting: bool,
}

fn poll(
    consumers: &mut [Consumer],
    k: usize,
    model: &mut BTreeMap<u8, VecDeque<Msg>>,
) -> Result<bool, String> {
    let name = consumers[k].name;
    let reserved = consumers
        .iter()
        .enumerate()
        .filter(|(i, c)| *i != k && c.name == name && c.waiting && c.flag.woken())
        .count();
    let c = &mut consumers[k];
    let sub = model.get_mut(&name).unwrap();
    c.flag.reset();
    match poll_next(&mut c.stream, &c.flag) {
        Poll::Ready(Some((m, _))) => {
            let want = sub.pop_front();
            if want.as_ref() != Some(&m) {
                return Err(format!(
                    "consumer {name} received {m:?}, but its next message is {want:?}"
                ));
            }
            c.waiting = false;
            Ok(true)
        }
        Poll::Ready(None) => Err("the consumer's stream ended".into()),
        Poll::Pending => {
            c.waiting = true;
            if sub.len() > reserved {
                return Err(format!(
                    "consumer {name} waits although {} messages are undelivered ({reserved} sharing consumers have been woken)",
                    sub.len()
                ));
            }
            Ok(false)
        }
    }
}

fn run(c: &Case, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(serializer(c.cbor));
    let mut handle =
        now(conn.declare_queue("q", options(c.ephemeral))).map_err(|e| e.to_string())?;
    let mut publishers = vec![handle.publisher::<Msg>()];
    let mut consumers: Vec<Consumer> = Vec::new();
    let mut subs: BTreeMap<u8, VecDeque<Msg>> = BTreeMap::new();
    let mut history: VecDeque<Msg> = VecDeque::new();
    let mut next = 0;
    let mut received = 0u64;
    let mut replayed = 0;
    let mut shared = false;
    let mut woken = 0u64;

    for step in &c.steps {
        match step {
            Step::Publish(_) | Step::PublishVia(_) => {
                let m = Msg {
                    id: next,
                    body: match step {
                        Step::Publish(b) => b.clone(),
                        _ => Rich::Nat(next << 7),
                    },
                };
                next += 1;
                match step {
                    Step::PublishVia(k) => {
                        let n = publishers.len();
                        now(publishers[*k as usize % n].publish(&m))
                    }
                    _ => now(handle.publish(&m)),
                }
                .map_err(|e| e.to_string())?;
                if subs.is_empty() {
                    if !c.ephemeral {
                        history.push_back(m);
                    }
                } else {
                    for s in subs.values_mut() {
                        s.push_back(m.clone());
                    }
                }
            }
            Step::Declare(name) => {
                let stream = now(handle.declare_consumer::<Msg>(&format!("c{name}")))
                    .map_err(|e| e.to_string())?;
                if !subs.contains_key(name) {
                    replayed += history.len();
                    subs.insert(*name, std::mem::take(&mut history));
                }
                shared |= consumers.iter().any(|c| c.name == *name);
                consumers.push(Consumer {
                    name: *name,
                    stream,
                    flag: Flag::new(),
                    waiting: false,
                });
            }
            Step::Poll(k) => {
                if !consumers.is_empty() {
                    let k = *k as usize % consumers.len();
                    received += poll(&mut consumers, k, &mut subs)? as u64;
                }
            }
            Step::PollWoken(k) => {
                let woken: Vec<usize> = (0..consumers.len())
                    .filter(|i| consumers[*i].waiting && consumers[*i].flag.woken())
                    .collect();
                if !woken.is_empty() {
                    received +=
                        poll(&mut consumers, woken[*k as usize % woken.len()], &mut subs)? as u64;
                }
            }
            Step::Drop(k) => {
                if !consumers.is_empty() {
                    consumers.remove(*k as usize % consumers.len());
                }
            }
            Step::Redeclare => {
                handle = now(conn.clone().declare_queue("q", options(c.ephemeral)))
                    .map_err(|e| e.to_string())?;
                publishers.push(handle.publisher());
            }
        }
    }
    while let Some(k) = consumers.iter().position(|c| c.waiting && c.flag.woken()) {
        received += poll(&mut consumers, k, &mut subs)? as u64;
        woken += 1;
    }
    for c in consumers.iter().filter(|c| c.waiting) {
        ensure!(
            subs[&c.name].is_empty(),
            "consumer {} waits and isn't woken although it has undelivered messages",
            c.name
        );
    }
    // Drain every subscription.
    let names: Vec<u8> = subs.keys().copied().collect();
    for name in &names {
        consumers.retain(|c| c.name != *name);
        let stream = now(handle.declare_consumer::<Msg>(&format!("c{name}")))
            .map_err(|e| e.to_string())?;
        consumers.push(Consumer {
            name: *name,
            stream,
            flag: Flag::new(),
            waiting: false,
        });
        let k = consumers.len() - 1;
        while poll(&mut consumers, k, &mut subs)? {
            received += 1;
        }
        ensure!(
            subs[name].is_empty(),
            "consumer {name} lost {:?}",
            subs[name]
        );
    }
    rec.label_if(replayed > 0, "replayed from before the first consumer");
    rec.label_if(woken > 0, "delivered after a wake-up");
    rec.label_if(shared, "shared subscription");
    rec.label_if(c.ephemeral, "ephemeral");
    rec.count("received", received);
    rec.nontrivial(names.len() >= 2 && received >= 3);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    ephemeral: bool,
    /// Messages per publishing thread.
    publishers: Vec<u8>,
    /// Messages published before everything else.
    before: u8,
    /// Per declaring thread, the names to declare.
    declarers: Vec<Vec<u8>>,
    /// Consume from a thread of its own while others publish.
    listener: bool,
    decisions: Vec<u8>,
}

fn par() -> BoxedStrategy<Par> {
    (
        any::<bool>(),
        vec(1u8..4, 1..3),
        0u8..3,
        vec(vec(0u8..3, 1..3), 1..3),
        any::<bool>(),
        vec(0u8..6, 0..60),
    )
        .prop_map(
            |(ephemeral, publishers, before, declarers, listener, decisions)| Par {
                ephemeral,
                publishers,
                before,
                declarers,
                listener,
                decisions,
            },
        )
        .boxed()
}

/// The sites at which no lock is held.
fn allow(site: &str) -> bool {
    site == "atomic.fetch_add" || site.starts_with("broadcast.")
}

fn run_par(c: &Par, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(serializer(false));
    let opts = options(c.ephemeral);
    let clock = AtomicU64::new(0);
    let tick = || clock.fetch_add(1, Ordering::SeqCst);
    // message -> (start, end) of its publish
    let published: Mutex<BTreeMap<u64, (u64, u64)>> = Default::default();
    // consumer name -> (start, end) of its first declaration to finish
    let declared: Mutex<BTreeMap<u8, Vec<(u64, u64)>>> = Default::default();
    let listened: Mutex<Vec<u64>> = Default::default();
    let stuck = Mutex::new(false);
    const LISTENER: u8 = 100;

    let handle = now(conn.declare_queue("q", opts)).unwrap();
    for k in 0..c.before as u64 {
        let t = tick();
        now(handle.publish(&(9000 + k))).unwrap();
        published.lock().unwrap().insert(9000 + k, (t, tick()));
    }
    let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (p, n) in c.publishers.iter().enumerate() {
        let (conn, published, tick) = (conn.clone(), &published, &tick);
        threads.push(Box::new(move || {
            let handle = now(conn.declare_queue("q", opts)).unwrap();
            for k in 0..*n as u64 {
                let id = p as u64 * 100 + k;
                let t = tick();
                now(handle.publish(&id)).unwrap();
                published.lock().unwrap().insert(id, (t, tick()));
            }
        }));
    }
    for names in &c.declarers {
        let (conn, declared, tick) = (conn.clone(), &declared, &tick);
        threads.push(Box::new(move || {
            let handle = now(conn.declare_queue("q", opts)).unwrap();
            for name in names {
                let t = tick();
                // The subscription outlives the consumer.
                drop(now(handle.declare_consumer::<u64>(&format!("c{name}"))).unwrap());
                let end = tick();
                declared
                    .lock()
                    .unwrap()
                    .entry(*name)
                    .or_default()
                    .push((t, end));
                sched::yield_now();
            }
        }));
    }
    if c.listener {
        let (conn, declared, tick) = (conn.clone(), &declared, &tick);
        let (listened, stuck) = (&listened, &stuck);
        threads.push(Box::new(move || {
            let handle = now(conn.declare_queue("q", opts)).unwrap();
            let t = tick();
            let mut s = now(handle.declare_consumer::<u64>(&format!("c{LISTENER}"))).unwrap();
            declared
                .lock()
                .unwrap()
                .entry(LISTENER)
                .or_default()
                .push((t, tick()));
            // Ends once everybody else is done.
            while let Ok(Some((m, _))) = sched::block_on(s.next()) {
                listened.lock().unwrap().push(m);
            }
            *stuck.lock().unwrap() = true;
        }));
    }
    let s = sched::run(&c.decisions, allow, threads)?;
    let published = published.into_inner().unwrap();
    let declared = declared.into_inner().unwrap();
    let mut got: BTreeMap<u8, Vec<u64>> = BTreeMap::new();
    for name in declared.keys() {
        let mut rest = now(handle.declare_consumer::<u64>(&format!("c{name}"))).unwrap();
        let mut msgs = if *name == LISTENER {
            listened.lock().unwrap().clone()
        } else {
            vec![]
        };
        while let Poll::Ready(Some((m, _))) = poll_next(&mut rest, &Flag::new()) {
            ensure!(
                *name != LISTENER,
                "message {m} is left in the queue of a consumer that is waiting forever"
            );
            msgs.push(m);
        }
        got.insert(*name, msgs);
    }
    let mut overlap = false;
    let first_declaration = declared.values().flatten().map(|d| d.0).min().unwrap_or(u64::MAX);
    for (name, msgs) in &got {
        let available = declared[name].iter().map(|d| d.1).min().unwrap();
        let began = declared[name].iter().map(|d| d.0).min().unwrap();
        let mut sorted = msgs.clone();
        sorted.sort();
        sorted.dedup();
        ensure!(
            sorted.len() == msgs.len(),
            "consumer {name} received a message twice: {msgs:?}"
        );
        for (m, (start, end)) in &published {
            overlap |= *start < available && began < *end;
            ensure!(
                *start < available || msgs.contains(m),
                "consumer {name} was declared before {m} was published, but received only {msgs:?}"
            );
        }
        for p in (0..c.publishers.len() as u64).chain([90]) {
            let seen: Vec<u64> = msgs.iter().copied().filter(|m| m / 100 == p).collect();
            ensure!(
                seen.windows(2).all(|w| w[0] < w[1]),
                "consumer {name} received the messages of publisher {p} as {seen:?}"
            );
        }
    }
    for (m, (_, end)) in &published {
        let n = got.values().filter(|msgs| msgs.contains(m)).count();
        if *end < first_declaration {
            let want = usize::from(!c.ephemeral && !got.is_empty());
            ensure!(
                n == want,
                "message {m}, published before any consumer existed, was delivered to {n} consumers instead of {want}"
            );
        } else if !c.ephemeral && !got.is_empty() {
            ensure!(n >= 1, "message {m} has been delivered to nobody");
        }
    }
    rec.label_if(overlap, "a declaration overlapped with a publish");
    rec.label_if(s.free, "fell back to free running");
    rec.count("switches", s.switches);
    rec.nontrivial(s.switches >= 2 && overlap);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Burst {
    Publish(u16),
    /// Declare so many new consumers.
    Declare(u8),
    /// Receive up to so many messages with one of them.
    Receive(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Volume {
    cbor: bool,
    ephemeral: bool,
    kind: Kind,
    bursts: Vec<Burst>,
}

fn volume() -> BoxedStrategy<Volume> {
    let n = || prop_oneof![3 => 0u16..30, 2 => 0u16..1000, 1 => 0u16..5000];
    let burst = prop_oneof![
        3 => n().prop_map(Burst::Publish),
        2 => prop_oneof![3 => 1u8..3, 1 => 1u8..40].prop_map(Burst::Declare),
        2 => (any::<u8>(), n()).prop_map(|(k, n)| Burst::Receive(k, n)),
    ];
    (any::<bool>(), any::<bool>(), kind(), vec(burst, 1..8))
        .prop_map(|(cbor, ephemeral, kind, bursts)| Volume {
            cbor,
            ephemeral,
            kind,
            bursts,
        })
        .boxed()
}

fn run_volume(c: &Volume, rec: &mut Rec) -> Verdict {
    match c.kind {
        Kind::Unit => volume_of::<()>(c, rec),
        _ => volume_of::<String>(c, rec),
    }
}

fn volume_of<T: Bulk>(c: &Volume, rec: &mut Rec) -> Verdict {
    let conn = InMemoryConnection::new(serializer(c.cbor));
    let handle = now(conn.declare_queue("q", options(c.ephemeral))).map_err(|e| e.to_string())?;
    // Each consumer with the number of its next message.
    let mut subs: Vec<(InMemoryConsumer<T>, u64)> = vec![];
    let mut published = 0u64;
    let (mut received, mut most, mut copies) = (0u64, 0, 0u64);
    fn receive<T: Bulk>(
        (stream, next): &mut (InMemoryConsumer<T>, u64),
        k: usize,
        limit: u64,
        published: u64,
        kind: Kind,
    ) -> Result<u64, String> {
        for i in 0..limit {
            match poll_next(stream, &Flag::new()) {
                Poll::Ready(Some((m, _))) => {
                    if *next == published {
                        return Err(format!("consumer {k} received a surplus message"));
                    }
                    same(kind, *next, &m).map_err(|e| format!("consumer {k}: {e}"))?;
                    *next += 1;
                }
                Poll::Ready(None) => return Err(format!("the stream of consumer {k} ended")),
                Poll::Pending => {
                    if *next != published {
                        return Err(format!(
                            "consumer {k} lacks the messages from {next} to {published}"
                        ));
                    }
                    return Ok(i);
                }
            }
        }
        Ok(limit)
    }
    for b in &c.bursts {
        match b {
            Burst::Publish(n) => {
                for _ in 0..*n {
                    now(handle.publish(&T::nth(c.kind, published))).map_err(|e| e.to_string())?;
                    published += 1;
                    copies += subs.len() as u64;
                    // Keeps the cost of a case within bounds.
                    if copies > 100_000 {
                        break;
                    }
                }
                most = most.max(published - subs.iter().map(|s| s.1).min().unwrap_or(0));
            }
            Burst::Declare(n) => {
                for _ in 0..*n {
                    let name = format!("consumer {}", subs.len());
                    let s = now(handle.declare_consumer::<T>(&name)).map_err(|e| e.to_string())?;
                    // The first one gets what there has been so far.
                    let first = subs.is_empty() && !c.ephemeral;
                    subs.push((s, if first { 0 } else { published }));
                }
            }
            Burst::Receive(k, n) => {
                if !subs.is_empty() {
                    let k = *k as usize % subs.len();
                    received += receive(&mut subs[k], k, *n as u64, published, c.kind)?;
                }
            }
        }
    }
    let n = subs.len();
    for (k, s) in subs.iter_mut().enumerate() {
        received += receive(s, k, u64::MAX, published, c.kind)?;
    }
    rec.label(format!("{:?}", c.kind));
    rec.label_if(n > 8, "more than eight consumers");
    rec.label_if(most > 1000, "more than a thousand messages waiting");
    rec.count("received", received);
    rec.nontrivial(most > 100 && n > 0);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C11",
        assumptions: &[
            "a subscription lives on when the stream of its consumer is dropped",
            "interleavings are explored between the documented steps of a publish (message id assigned, history settled, one consumer after another); lock-protected regions run without preemption",
        ],
        facets: vec![
            facet(
                "sequential",
                "random publishes, declarations of five consumer names, polls, drops and re-declarations compared step by step with a model of one FIFO per name plus a history; non-trivial: at least two subscriptions and three deliveries",
                Budget::new(120_000, 2_500_000),
                case,
                run,
            ),
            facet(
                "concurrent",
                "1-2 publishing and 1-2 declaring threads and an optional listener under a generated schedule; deliveries are judged against the start and end times of publishes and declarations; non-trivial: a declaration overlapped with a publish and at least two context switches",
                Budget::new(30_000, 700_000),
                par,
                run_par,
            ),
            facet(
                "volume",
                "bursts of up to 5000 messages without content, all alike, all different or of up to 150 kB, to up to dozens of consumers declared and receiving in between; non-trivial: more than a hundred waiting at a time for some consumer",
                Budget::new(500, 10_000),
                volume,
                run_volume,
            ),
        ],
    }
}
