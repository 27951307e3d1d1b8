//! C12: queues and channels are identified by name.
use std::{
    collections::{BTreeMap, HashSet, VecDeque},
    task::Poll,
};

use futures::Stream;
use paladin::{
    channel::{queue::QueueChannelFactory, Channel, ChannelFactory, ChannelType},
    queue::{
        in_memory::{InMemoryConnection, InMemoryQueueHandle},
        Connection, DeliveryMode, Publisher, QueueDurability, QueueHandle, QueueOptions,
        SyndicationMode,
    },
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c10::serializer;
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    util::{now, poll_next, Flag},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Declare a name through one of the connections.
    Declare {
        conn: u8,
        name: u8,
        broadcast: bool,
        ephemeral: bool,
        durable: bool,
    },
    Delete {
        conn: u8,
        name: u8,
    },
    CloneConn(u8),
    /// Publish through one of the handles obtained so far.
    Publish(u8),
    /// Receive everything available through one of the handles.
    Drain(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    cbor: bool,
    names: Vec<String>,
    steps: Vec<Step>,
}

fn names() -> BoxedStrategy<Vec<String>> {
    // Names that are similar to each other, and arbitrary ones.
    let name = prop_oneof![
        3 => "[ab]{0,3}",
        1 => "task-ipc-routing-key|command-ipc-routing-key|abort-all-key",
        1 => ".{0,12}",
        1 => "[aA]\\.?[ /#*]?",
    ];
    vec(name, 1..5)
        .prop_map(|mut v| {
            let mut seen = HashSet::new();
            v.retain(|n| seen.insert(n.clone()));
            v
        })
        .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let step = prop_oneof![
        5 => (any::<u8>(), any::<u8>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(
            |(conn, name, broadcast, ephemeral, durable)| Step::Declare {
                conn, name, broadcast, ephemeral, durable
            }
        ),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(conn, name)| Step::Delete { conn, name }),
        1 => any::<u8>().prop_map(Step::CloneConn),
        7 => any::<u8>().prop_map(Step::Publish),
        4 => any::<u8>().prop_map(Step::Drain),
    ];
    (any::<bool>(), names(), vec(step, 0..60))
        .prop_map(|(cbor, names, steps)| Case { cbor, names, steps })
        .boxed()
}

/// A queue of the model.
#[derive(Default)]
struct Q {
    broadcast: bool,
    ephemeral: bool,
    /// Exactly once: the messages; broadcast: the history.
    messages: VecDeque<u64>,
    /// Whether the one subscription used here exists.
    subscribed: bool,
    subscription: VecDeque<u64>,
}

fn drain<S: Stream<Item = (u64, A)> + Unpin, A>(s: &mut S) -> Vec<u64> {
    let mut out = Vec::new();
    while let Poll::Ready(Some((m, _))) = poll_next(s, &Flag::new()) {
        out.push(m);
    }
    out
}

fn run(c: &Case, rec: &mut Rec) -> Verdict {
    let mut conns = vec![InMemoryConnection::new(serializer(c.cbor))];
    let mut handles: Vec<(InMemoryQueueHandle, usize, u8)> = Vec::new();
    let mut queues: Vec<Q> = Vec::new();
    let mut current: BTreeMap<u8, usize> = BTreeMap::new();
    let mut next = 0u64;
    let (mut shared, mut recreated, mut received, mut absent) = (0, 0, 0, 0);
    let mut deleted: HashSet<u8> = HashSet::new();

    for (i, step) in c.steps.iter().enumerate() {
        match step {
            Step::Declare {
                conn,
                name,
                broadcast,
                ephemeral,
                durable,
            } => {
                let name = *name % c.names.len() as u8;
                let conn = &conns[*conn as usize % conns.len()];
                let options = QueueOptions {
                    syndication_mode: if *broadcast {
                        SyndicationMode::Broadcast
                    } else {
                        SyndicationMode::ExactlyOnce
                    },
                    delivery_mode: if *ephemeral {
                        DeliveryMode::Ephemeral
                    } else {
                        DeliveryMode::Persistent
                    },
                    durability: if *durable {
                        QueueDurability::Durable
                    } else {
                        QueueDurability::NonDurable
                    },
                };
                let h = now(conn.declare_queue(&c.names[name as usize], options))
                    .map_err(|e| e.to_string())?;
                let id = match current.get(&name) {
                    Some(id) => {
                        shared += 1;
                        *id
                    }
                    None => {
                        recreated += deleted.contains(&name) as u32;
                        queues.push(Q {
                            broadcast: *broadcast,
                            ephemeral: *ephemeral,
                            ..Default::default()
                        });
                        current.insert(name, queues.len() - 1);
                        queues.len() - 1
                    }
                };
                handles.push((h, id, name));
            }
            Step::Delete { conn, name } => {
                let name = *name % c.names.len() as u8;
                let conn = &conns[*conn as usize % conns.len()];
                now(conn.delete_queue(&c.names[name as usize])).map_err(|e| {
                    format!("step {i}: deleting {:?} failed: {e}", c.names[name as usize])
                })?;
                if current.remove(&name).is_some() {
                    deleted.insert(name);
                } else {
                    absent += 1;
                }
            }
            Step::CloneConn(k) => {
                let n = conns.len();
                let new = conns[*k as usize % n].clone();
                conns.push(new);
            }
            Step::Publish(k) => {
                if handles.is_empty() {
                    continue;
                }
                let (h, id, _) = &handles[*k as usize % handles.len()];
                now(h.publish(&next)).map_err(|e| e.to_string())?;
                let q = &mut queues[*id];
                if !q.broadcast {
                    q.messages.push_back(next);
                } else if q.subscribed {
                    q.subscription.push_back(next);
                } else if !q.ephemeral {
                    q.messages.push_back(next);
                }
                next += 1;
            }
            Step::Drain(k) => {
                if handles.is_empty() {
                    continue;
                }
                let (h, id, name) = &handles[*k as usize % handles.len()];
                let mut s = now(h.declare_consumer::<u64>("x")).map_err(|e| e.to_string())?;
                let got = drain(&mut s);
                let q = &mut queues[*id];
                let want: Vec<u64> = if q.broadcast && q.subscribed {
                    std::mem::take(&mut q.subscription).into()
                } else {
                    std::mem::take(&mut q.messages).into()
                };
                q.subscribed = true;
                ensure!(
                    got == want,
                    "step {i}: queue {:?} delivered {got:?} instead of {want:?}",
                    c.names[*name as usize]
                );
                received += got.len();
            }
        }
    }
    rec.label_if(shared > 0, "declared an existing queue");
    rec.label_if(recreated > 0, "recreated a deleted queue");
    rec.label_if(absent > 0, "deleted an absent queue");
    rec.count("received", received as u64);
    rec.nontrivial(shared > 0 && received >= 2 && queues.len() >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ChanStep {
    Get(u8, bool),
    Issue(bool),
    Send(u8),
    Receiver(u8),
    Drain(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChanCase {
    cbor: bool,
    names: Vec<String>,
    steps: Vec<ChanStep>,
}

fn chan_case() -> BoxedStrategy<ChanCase> {
    let step = prop_oneof![
        3 => (any::<u8>(), any::<bool>()).prop_map(|(n, b)| ChanStep::Get(n, b)),
        2 => any::<bool>().prop_map(ChanStep::Issue),
        6 => any::<u8>().prop_map(ChanStep::Send),
        4 => any::<u8>().prop_map(ChanStep::Receiver),
        4 => any::<u8>().prop_map(ChanStep::Drain),
    ];
    (any::<bool>(), names(), vec(step, 0..50))
        .prop_map(|(cbor, names, steps)| ChanCase { cbor, names, steps })
        .boxed()
}

fn run_chan(c: &ChanCase, rec: &mut Rec) -> Verdict {
    struct Model {
        broadcast: bool,
        declared: bool,
        /// Exactly once: messages; broadcast: those from before the first receiver.
        messages: VecDeque<u64>,
        receivers: Vec<VecDeque<u64>>,
    }
    let conn = InMemoryConnection::new(serializer(c.cbor));
    let factory = QueueChannelFactory::new(conn);
    let mut ids: Vec<String> = c.names.clone();
    let mut models: Vec<Model> = ids
        .iter()
        .map(|_| Model {
            broadcast: false,
            declared: false,
            messages: VecDeque::new(),
            receivers: vec![],
        })
        .collect();
    let mut channels = Vec::new();
    let mut receivers = Vec::new();
    let mut next = 0u64;
    let (mut received, mut issued, mut broadcasts) = (0, 0, 0);
    fn ty(b: bool) -> ChannelType {
        if b {
            ChannelType::Broadcast
        } else {
            ChannelType::ExactlyOnce
        }
    }
    for (i, step) in c.steps.iter().enumerate() {
        match step {
            ChanStep::Get(n, b) => {
                let n = *n as usize % ids.len();
                // All users of a channel agree on its type.
                let m = &mut models[n];
                if !m.declared {
                    m.declared = true;
                    m.broadcast = *b;
                }
                let f = factory.clone();
                let ch = now(f.get(ids[n].clone(), ty(m.broadcast))).map_err(|e| e.to_string())?;
                channels.push((ch, n));
            }
            ChanStep::Issue(b) => {
                let (id, ch) = now(factory.issue(ty(*b))).map_err(|e| e.to_string())?;
                ensure!(
                    !ids.contains(&id),
                    "step {i}: the issued identifier {id:?} is already in use"
                );
                issued += 1;
                ids.push(id);
                models.push(Model {
                    broadcast: *b,
                    declared: true,
                    messages: VecDeque::new(),
                    receivers: vec![],
                });
                channels.push((ch, ids.len() - 1));
            }
            ChanStep::Send(k) => {
                if channels.is_empty() {
                    continue;
                }
                let (ch, n) = &channels[*k as usize % channels.len()];
                let sender = now(ch.sender::<u64>()).map_err(|e| e.to_string())?;
                now(sender.publish(&next)).map_err(|e| e.to_string())?;
                let m = &mut models[*n];
                if m.broadcast && !m.receivers.is_empty() {
                    for r in &mut m.receivers {
                        r.push_back(next);
                    }
                } else {
                    m.messages.push_back(next);
                }
                next += 1;
            }
            ChanStep::Receiver(k) => {
                if channels.is_empty() {
                    continue;
                }
                let (ch, n) = &channels[*k as usize % channels.len()];
                let r = now(ch.receiver::<u64>()).map_err(|e| e.to_string())?;
                let m = &mut models[*n];
                let pos = m.receivers.len();
                if m.broadcast {
                    let first = if pos == 0 {
                        std::mem::take(&mut m.messages)
                    } else {
                        VecDeque::new()
                    };
                    m.receivers.push(first);
                } else {
                    m.receivers.push(VecDeque::new());
                }
                receivers.push((r, *n, pos));
            }
            ChanStep::Drain(k) => {
                if receivers.is_empty() {
                    continue;
                }
                let len = receivers.len();
                let k = *k as usize % len;
                let (r, n, pos) = &mut receivers[k];
                let (n, pos) = (*n, *pos);
                let got = drain(r);
                let m = &mut models[n];
                let want: Vec<u64> = if m.broadcast {
                    broadcasts += (m.receivers.len() > 1) as u32;
                    std::mem::take(&mut m.receivers[pos]).into()
                } else {
                    std::mem::take(&mut m.messages).into()
                };
                ensure!(
                    got == want,
                    "step {i}: a receiver of channel {:?} ({}) got {got:?} instead of {want:?}",
                    ids[n],
                    if m.broadcast { "broadcast" } else { "exactly once" }
                );
                received += got.len();
                if !m.broadcast {
                    // A waiting receiver may have the next message reserved for it.
                    receivers.remove(k);
                }
            }
        }
    }
    rec.label_if(broadcasts > 0, "several receivers of a broadcast channel");
    rec.label_if(issued > 0, "issued");
    rec.count("received", received as u64);
    rec.nontrivial(received >= 2 && channels.len() >= 2);
    Ok(())
}

/// Threads that issue channels at the same time, through the same factory or
/// each through its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    threads: usize,
    shared: bool,
    n: u32,
    broadcast: bool,
}

fn issue(factory: &QueueChannelFactory<InMemoryConnection>, n: u32, broadcast: bool) -> Result<Vec<String>, String> {
    let ty = if broadcast {
        ChannelType::Broadcast
    } else {
        ChannelType::ExactlyOnce
    };
    (0..n)
        .map(|_| now(factory.issue(ty)).map(|i| i.0).map_err(|e| e.to_string()))
        .collect()
}

fn new_factory() -> QueueChannelFactory<InMemoryConnection> {
    QueueChannelFactory::new(InMemoryConnection::new(serializer(false)))
}

fn distinct(all: impl IntoIterator<Item = (String, String)>) -> Verdict {
    let mut seen = BTreeMap::new();
    for (who, id) in all {
        if let Some(other) = seen.insert(id.clone(), who.clone()) {
            return Err(format!("{who} and {other} were issued the same identifier, {id:?}"));
        }
    }
    Ok(())
}

fn run_many(c: &Many, rec: &mut Rec) -> Verdict {
    let shared = new_factory();
    let start = std::sync::Barrier::new(c.threads);
    let n = c.n / c.threads as u32;
    let all = std::thread::scope(|s| {
        let threads: Vec<_> = (0..c.threads)
            .map(|_| {
                let factory = if c.shared { shared.clone() } else { new_factory() };
                let (start, broadcast) = (&start, c.broadcast);
                s.spawn(move || {
                    start.wait();
                    issue(&factory, n, broadcast)
                })
            })
            .collect();
        let mut all = vec![];
        for (t, h) in threads.into_iter().enumerate() {
            let ids = h.join().map_err(|_| "panic".to_string())??;
            all.extend(ids.into_iter().map(|id| (format!("thread {t}"), id)));
        }
        Ok::<_, String>(all)
    })?;
    rec.count("issued", all.len() as u64);
    rec.label_if(c.threads > 1, "several threads");
    rec.nontrivial(all.len() > 1);
    distinct(all)
}

/// Processes that issue channels, as those that share a broker do.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Processes {
    /// How many channels each issues, and whether it has a namespace of its
    /// own, such as in a container.
    processes: Vec<(u16, bool)>,
    broadcast: bool,
}

/// What such a process does.
pub fn print_ids(n: u32, broadcast: bool) {
    match issue(&new_factory(), n, broadcast) {
        Ok(ids) => println!("{}", ids.join("\n")),
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(4)
        }
    }
}

fn run_processes(c: &Processes, rec: &mut Rec) -> Verdict {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let spawn = |n: u16, apart: bool| {
        let mut cmd = if apart {
            let mut cmd = Command::new("unshare");
            cmd.args(["-Urpf", "--kill-child"]).arg(&exe);
            cmd
        } else {
            Command::new(&exe)
        };
        cmd.args(["identifiers", &n.to_string(), &c.broadcast.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
    };
    let children: Vec<_> = c.processes.iter().map(|p| spawn(p.0, p.1)).collect();
    let mut all = vec![];
    let mut apart = 0;
    for (i, child) in children.into_iter().enumerate() {
        let (n, own) = c.processes[i];
        let first = child.and_then(|c| c.wait_with_output());
        let out = match first {
            Ok(o) if o.status.success() => {
                apart += own as u32;
                o
            }
            // There may be no such namespaces here.
            _ => spawn(n, false)
                .and_then(|c| c.wait_with_output())
                .map_err(|e| e.to_string())?,
        };
        ensure!(out.status.success(), "process {i} ended with {:?}", out.status);
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let ids: Vec<String> = text.lines().map(str::to_string).collect();
        ensure!(ids.len() == n as usize, "process {i} printed {} identifiers", ids.len());
        all.extend(ids.into_iter().map(|id| (format!("process {i}"), id)));
    }
    rec.label_if(apart > 0, "namespaces of their own");
    rec.count("issued", all.len() as u64);
    rec.nontrivial(c.processes.len() > 1);
    distinct(all)
}

pub fn property() -> Property {
    Property {
        id: "C12",
        assumptions: &[
            "a queue that already exists keeps the options it was first declared with",
            "users of a channel agree on its type and on the message type",
        ],
        facets: vec![
            facet(
                "queues",
                "random declarations (any options, similar and arbitrary names, several clones of the connection), deletions, publishes and drains compared with a model of queue identities; non-trivial: an existing queue was declared again, two messages were received, and two queues existed",
                Budget::new(100_000, 2_000_000),
                case,
                run,
            ),
            facet(
                "channels",
                "random get/issue/send/receive sequences on a channel factory compared with a model of each channel's delivery semantics; non-trivial: two messages received and two channels",
                Budget::new(80_000, 1_500_000),
                chan_case,
                run_chan,
            ),
            facet(
                "identifiers",
                "up to 16 threads that issue 100000 to 300000 channels at the same time, through the same or different factories, must get pairwise different identifiers; every case is non-trivial",
                Budget::new(16, 128).shards(2).shrink(20),
                || {
                    (1usize..=16, any::<bool>(), 100_000u32..300_000, any::<bool>())
                        .prop_map(|(threads, shared, n, broadcast)| Many {
                            threads,
                            shared,
                            n,
                            broadcast,
                        })
                        .boxed()
                },
                run_many,
            ),
            facet(
                "processes",
                "several processes, with or without a namespace of their own, that issue channels at the same time must get pairwise different identifiers; non-trivial: more than one process",
                Budget::new(60, 1000).shards(2).shrink(20),
                || {
                    (vec((1u16..300, any::<bool>()), 2..7), any::<bool>())
                        .prop_map(|(processes, broadcast)| Processes {
                            processes,
                            broadcast,
                        })
                        .boxed()
                },
                run_processes,
            ),
        ],
    }
}
