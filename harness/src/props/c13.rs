//! C13: a coordinated channel ends exactly when all its work is done.
use std::{
    collections::{BTreeSet, VecDeque},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Waker},
};

use futures::{future::BoxFuture, Stream, StreamExt};
use paladin::{
    acker::Acker,
    channel::coordinated_channel::{coordinated_channel, coordinated_stream::CoordinatedAcker},
    queue::Publisher,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Facet, Property, Rec, Verdict},
    ensure, sched,
    util::{now, poll_fut, poll_next, Flag},
};

/// The transport below the coordinated channel.
#[derive(Default)]
struct Pipe {
    q: Mutex<VecDeque<u64>>,
    waker: Mutex<Option<Waker>>,
    /// The stream ends once closed.
    ends: bool,
    closed: AtomicBool,
    /// Publishes that have reached the transport.
    reached: Mutex<Vec<u64>>,
}

impl Pipe {
    fn push(&self, x: u64) {
        self.q.lock().unwrap().push_back(x);
        self.wake();
    }

    fn wake(&self) {
        let w = self.waker.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}

struct Rx(Arc<Pipe>);

impl Stream for Rx {
    type Item = u64;

    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        *self.0.waker.lock().unwrap() = Some(cx.waker().clone());
        if let Some(x) = self.0.q.lock().unwrap().pop_front() {
            return Poll::Ready(Some(x));
        }
        if self.0.ends && self.0.closed.load(Ordering::SeqCst) {
            return Poll::Ready(None);
        }
        Poll::Pending
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Mode {
    Ok,
    Fail,
    /// Waits for its release, then sends.
    HoldThenSend,
    /// Sends, then waits for its release.
    SendThenHold,
}

struct Gate {
    /// Some(ok)
    released: Mutex<Option<bool>>,
    waker: Mutex<Option<Waker>>,
}

impl Gate {
    fn new() -> Arc<Self> {
        Arc::new(Gate {
            released: Mutex::new(None),
            waker: Mutex::new(None),
        })
    }

    fn release(&self, ok: bool) {
        *self.released.lock().unwrap() = Some(ok);
        if let Some(w) = self.waker.lock().unwrap().take() {
            w.wake();
        }
    }

    async fn wait(&self) -> bool {
        std::future::poll_fn(|cx| {
            *self.waker.lock().unwrap() = Some(cx.waker().clone());
            match *self.released.lock().unwrap() {
                Some(ok) => Poll::Ready(ok),
                None => Poll::Pending,
            }
        })
        .await
    }
}

struct Item {
    id: u64,
    mode: Mode,
    gate: Arc<Gate>,
}

struct Tx(Arc<Pipe>);

#[async_trait::async_trait]
impl Publisher<Item> for Tx {
    async fn publish(&self, item: &Item) -> anyhow::Result<()> {
        self.0.reached.lock().unwrap().push(item.id);
        sched::yield_now();
        match item.mode {
            Mode::Ok => self.0.push(item.id),
            Mode::Fail => anyhow::bail!("refused {}", item.id),
            Mode::HoldThenSend => {
                if !item.gate.wait().await {
                    anyhow::bail!("refused {}", item.id)
                }
                self.0.push(item.id);
            }
            Mode::SendThenHold => {
                self.0.push(item.id);
                item.gate.wait().await;
            }
        }
        sched::yield_now();
        Ok(())
    }

    async fn close(&self) -> anyhow::Result<()> {
        self.0.closed.store(true, Ordering::SeqCst);
        self.0.wake();
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Publish(Mode),
    /// Let a held publish finish.
    Release(u8, bool),
    /// Poll for the next item from the given task.
    Poll(u8),
    /// Acknowledge one of the received items, any number of times, through the
    /// trait or directly.
    Ack(u8),
    Nack(u8),
    AckDirect(u8),
    DropAcker(u8),
    Close,
    DropSender,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    ends: bool,
    steps: Vec<Step>,
}

fn seq() -> BoxedStrategy<Seq> {
    let mode = prop_oneof![
        4 => Just(Mode::Ok),
        2 => Just(Mode::Fail),
        1 => Just(Mode::HoldThenSend),
        1 => Just(Mode::SendThenHold),
    ];
    let step = prop_oneof![
        5 => mode.prop_map(Step::Publish),
        2 => (any::<u8>(), any::<bool>()).prop_map(|(k, ok)| Step::Release(k, ok)),
        8 => (0u8..3).prop_map(Step::Poll),
        4 => any::<u8>().prop_map(Step::Ack),
        2 => any::<u8>().prop_map(Step::Nack),
        2 => any::<u8>().prop_map(Step::AckDirect),
        1 => Just(Step::Close),
        1 => Just(Step::DropSender),
    ];
    // Finish off such that termination is reached often.
    let tail = prop_oneof![Just(0u8), Just(1), Just(2), Just(3)];
    (any::<bool>(), vec(step, 0..30), any::<bool>(), tail, any::<[u8; 3]>())
        .prop_map(|(ends, mut steps, close_last, tail, t)| {
            if tail > 0 {
                if !close_last {
                    steps.push(Step::Close);
                }
                for _ in 0..3 {
                    steps.push(Step::Release(0, t[0] % 2 == 0));
                }
                for i in 0..10u8 {
                    steps.push(Step::Poll((t[1].wrapping_add(i)) % 3));
                    steps.push(if i % 3 == t[2] % 3 {
                        Step::Nack(0)
                    } else {
                        Step::Ack(0)
                    });
                }
                if close_last {
                    steps.push(if t[1] % 2 == 0 {
                        Step::Close
                    } else {
                        Step::DropSender
                    });
                }
                steps.push(Step::Poll(t[1] % 3));
            }
            Seq { ends, steps }
        })
        .boxed()
}

struct Held {
    id: u64,
    gate: Arc<Gate>,
    mode: Mode,
    fut: BoxFuture<'static, anyhow::Result<()>>,
    flag: Arc<Flag>,
}

fn run_seq(c: &Seq, rec: &mut Rec) -> Verdict {
    let pipe = Arc::new(Pipe {
        ends: c.ends,
        ..Default::default()
    });
    let (tx, mut rx) = coordinated_channel(Tx(pipe.clone()), Rx(pipe.clone()));
    let mut tx = Some(Arc::new(tx));
    let flags = [Flag::new(), Flag::new(), Flag::new()];
    // The task whose poll was pending most recently.
    let mut waiting: Option<usize> = None;

    let mut next_id = 0;
    let mut closed = false;
    let mut ended = false;
    // Items sent but not received, items received but not acknowledged.
    let mut sent: VecDeque<u64> = VecDeque::new();
    let mut unacked: BTreeSet<u64> = BTreeSet::new();
    let mut held: Vec<Held> = Vec::new();
    let mut ackers: Vec<(u64, CoordinatedAcker)> = Vec::new();
    let (mut received, mut waits, mut repeated) = (0u64, 0u64, false);
    let mut acked_before: BTreeSet<u64> = BTreeSet::new();

    for (i, step) in c.steps.iter().enumerate() {
        let mut did_poll = false;
        match step {
            Step::Publish(mode) => {
                let Some(tx) = tx.clone() else { continue };
                let mut mode = *mode;
                if c.ends && !matches!(mode, Mode::Fail) {
                    mode = Mode::Ok;
                }
                let id = next_id;
                next_id += 1;
                let gate = Gate::new();
                let item = Item {
                    id,
                    mode,
                    gate: gate.clone(),
                };
                let mut fut: BoxFuture<'static, anyhow::Result<()>> =
                    Box::pin(async move { tx.publish(&item).await });
                let flag = Flag::new();
                let r = poll_fut(&mut fut, &flag);
                let reached = pipe.reached.lock().unwrap().contains(&id);
                if closed {
                    ensure!(
                        matches!(r, Poll::Ready(Err(_))) && !reached,
                        "step {i}: publishing after the channel was closed didn't fail"
                    );
                    rec.label("publish after close");
                } else {
                    match (mode, r) {
                        (Mode::Ok, Poll::Ready(Ok(()))) => sent.push_back(id),
                        (Mode::Fail, Poll::Ready(Err(e))) => {
                            ensure!(
                                format!("{e:#}").contains(&format!("refused {id}")),
                                "step {i}: the failure of the transport got lost: {e:#}"
                            );
                            rec.label("failed publish");
                        }
                        (Mode::HoldThenSend | Mode::SendThenHold, Poll::Pending) => {
                            if mode == Mode::SendThenHold {
                                sent.push_back(id);
                            }
                            held.push(Held {
                                id,
                                gate,
                                mode,
                                fut,
                                flag,
                            });
                        }
                        (mode, r) => {
                            return Err(format!("step {i}: publish in mode {mode:?}: {r:?}"))
                        }
                    }
                }
            }
            Step::Release(k, ok) => {
                if held.is_empty() {
                    continue;
                }
                let mut h = held.remove(*k as usize % held.len());
                let ok = *ok || h.mode == Mode::SendThenHold;
                h.gate.release(ok);
                ensure!(h.flag.woken(), "step {i}: held publish isn't woken");
                let r = poll_fut(&mut h.fut, &h.flag);
                ensure!(
                    matches!(&r, Poll::Ready(r) if r.is_ok() == ok),
                    "step {i}: held publish of {} returned {r:?}",
                    h.id
                );
                if ok && h.mode == Mode::HoldThenSend {
                    sent.push_back(h.id);
                }
                rec.label("held publish");
                rec.label_if(closed, "publish in flight when closing");
            }
            Step::Poll(t) => {
                if ended {
                    continue;
                }
                did_poll = true;
                let t = *t as usize;
                rec.label_if(
                    waiting.is_some_and(|w| w != t),
                    "polled from a different task",
                );
                flags[t].reset();
                let r = poll_next(&mut rx, &flags[t]);
                waiting = None;
                let unsent = held.iter().any(|h| h.mode == Mode::HoldThenSend);
                // Received and acknowledged, while the publish has not returned yet.
                let lingering = held.iter().any(|h| h.mode == Mode::SendThenHold);
                match r {
                    Poll::Ready(Some((x, acker))) => {
                        ensure!(
                            sent.pop_front() == Some(x),
                            "step {i}: received {x} unexpectedly"
                        );
                        unacked.insert(x);
                        ackers.push((x, acker));
                        received += 1;
                    }
                    Poll::Ready(None) => {
                        ensure!(
                            closed && sent.is_empty() && unacked.is_empty() && !unsent,
                            "step {i}: ended early; closed: {closed}, not received: {sent:?}, not acknowledged: {unacked:?}, in flight: {unsent}"
                        );
                        ended = true;
                    }
                    Poll::Pending => {
                        ensure!(
                            sent.is_empty(),
                            "step {i}: pending although {sent:?} can be received"
                        );
                        ensure!(
                            !(closed && unacked.is_empty() && held.is_empty()),
                            "step {i}: the channel is closed and all items are acknowledged, but it doesn't end"
                        );
                        waiting = Some(t);
                        waits += 1;
                        _ = lingering;
                    }
                }
            }
            Step::Ack(k) | Step::Nack(k) | Step::AckDirect(k) => {
                if ackers.is_empty() {
                    continue;
                }
                // The most recent one comes first.
                let k = ackers.len() - 1 - *k as usize % ackers.len();
                let (id, acker) = &ackers[k];
                match step {
                    Step::Ack(_) => now(Acker::ack(acker)).map_err(|e| e.to_string())?,
                    Step::Nack(_) => now(Acker::nack(acker)).map_err(|e| e.to_string())?,
                    _ => acker.ack(),
                }
                unacked.remove(id);
                repeated |= !acked_before.insert(*id);
            }
            Step::DropAcker(k) => {
                if !ackers.is_empty() {
                    let k = *k as usize % ackers.len();
                    ackers.remove(k);
                }
            }
            Step::Close => {
                let Some(tx) = tx.as_ref() else { continue };
                now(tx.close()).map_err(|e| e.to_string())?;
                closed = true;
            }
            Step::DropSender => {
                tx = None;
            }
        }
        if tx.is_none() && held.is_empty() {
            closed = true;
        }
        if !did_poll {
            if let Some(t) = waiting {
                let ready = !sent.is_empty()
                    || (closed && sent.is_empty() && unacked.is_empty() && held.is_empty());
                ensure!(
                    !ready || flags[t].woken(),
                    "step {i} ({step:?}): there is something to receive or the channel has ended, but the waiting receiver isn't woken"
                );
            }
        }
    }
    rec.label_if(ended, "ended");
    rec.label_if(repeated, "acknowledged more than once");
    rec.count("received", received);
    rec.nontrivial(received >= 1 && waits >= 1 && closed);
    Ok(())
}

/// The part that concerns acknowledgement handles.
pub fn double_ack() -> Facet {
    facet(
        "coordinated",
        "coordinated channel whose received items are acknowledged and rejected repeatedly in random order, compared with a model counting each message once; non-trivial: an item was received, the receiver had to wait, and the channel was closed",
        Budget::new(60_000, 1_000_000),
        || {
            let step = prop_oneof![
                6 => any::<u8>().prop_map(Step::Ack),
                6 => any::<u8>().prop_map(Step::Nack),
                6 => any::<u8>().prop_map(Step::AckDirect),
                6 => (0u8..3).prop_map(Step::Poll),
                1 => Just(Step::Publish(Mode::Ok)),
                1 => Just(Step::Close),
            ];
            (1usize..6, any::<bool>(), vec(step, 0..30))
                .prop_map(|(n, ends, rest)| {
                    let mut steps = vec![Step::Publish(Mode::Ok); n];
                    steps.extend(rest);
                    steps.push(Step::Close);
                    steps.push(Step::Poll(0));
                    steps.push(Step::Poll(1));
                    steps.push(Step::Ack(0));
                    steps.push(Step::Ack(0));
                    steps.push(Step::Poll(1));
                    Seq { ends, steps }
                })
                .boxed()
        },
        run_seq,
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    items: u8,
    /// What each thread acknowledges: an item, and whether to reject it instead.
    acks: Vec<Vec<(u8, bool)>>,
    /// Close before the items are acknowledged rather than in a thread of its own.
    closed: bool,
    decisions: Vec<u8>,
}

/// Acknowledgement handles shared by several threads.
pub fn shared_acks() -> Facet {
    facet(
        "shared",
        "the handles of 1-4 received items acknowledged and rejected repeatedly by 2-3 threads under a generated schedule while a receiver waits, which must end exactly when every item has been handled at least once; non-trivial: two threads handle the same item and there were more context switches than threads",
        Budget::new(15_000, 400_000),
        || {
            (
                1u8..5,
                vec(vec((any::<u8>(), any::<bool>()), 1..6), 2..4),
                any::<bool>(),
                vec(0u8..5, 0..100),
            )
                .prop_map(|(items, acks, closed, decisions)| Shared {
                    items,
                    acks,
                    closed,
                    decisions,
                })
                .boxed()
        },
        run_shared,
    )
}

fn run_shared(c: &Shared, rec: &mut Rec) -> Verdict {
    let pipe = Arc::new(Pipe::default());
    let (tx, mut rx) = coordinated_channel(Tx(pipe.clone()), Rx(pipe.clone()));
    let flag = Flag::new();
    let mut ackers = Vec::new();
    for id in 0..c.items as u64 {
        let item = Item {
            id,
            mode: Mode::Ok,
            gate: Gate::new(),
        };
        now(tx.publish(&item)).map_err(|e| e.to_string())?;
    }
    for id in 0..c.items as u64 {
        match poll_next(&mut rx, &flag) {
            Poll::Ready(Some((x, acker))) if x == id => ackers.push(acker),
            _ => return Err(format!("item {id} isn't received")),
        }
    }
    let mut tx = Some(tx);
    if c.closed {
        tx = None;
    }
    let pick = |k: u8| k as usize % ackers.len();
    let handled: BTreeSet<usize> = c.acks.iter().flatten().map(|(k, _)| pick(*k)).collect();
    // Handled completely, and to be handled.
    let todo: Mutex<BTreeSet<usize>> = Mutex::new((0..ackers.len()).collect());
    let early = AtomicBool::new(false);
    let ended = AtomicBool::new(false);
    let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for list in &c.acks {
        let (ackers, todo) = (&ackers, &todo);
        threads.push(Box::new(move || {
            for (k, nack) in list {
                let k = pick(*k);
                // The channel may end as soon as the last one begins.
                todo.lock().unwrap().remove(&k);
                if *nack {
                    ackers[k].nack();
                } else {
                    ackers[k].ack();
                }
                sched::yield_now();
            }
        }));
    }
    if let Some(tx) = tx.take() {
        threads.push(Box::new(move || drop(tx)));
    }
    {
        let (rx, todo, early, ended) = (&mut rx, &todo, &early, &ended);
        threads.push(Box::new(move || {
            if let Ok(None) = sched::block_on(rx.next()) {
                ended.store(true, Ordering::SeqCst);
                early.store(!todo.lock().unwrap().is_empty(), Ordering::SeqCst);
            }
        }));
    }
    let n = threads.len() as u64;
    let s = sched::run(&c.decisions, |_| true, threads)?;
    let mut ended = ended.into_inner();
    ensure!(!early.into_inner(), "the channel ended before every item was handled");
    let mut rest: Vec<usize> = (0..ackers.len()).filter(|k| !handled.contains(k)).collect();
    ensure!(
        ended == rest.is_empty(),
        "items {rest:?} haven't been handled, but the channel has ended: {ended}"
    );
    while let Some(k) = rest.pop() {
        ackers[k].ack();
        match poll_next(&mut rx, &flag) {
            Poll::Ready(None) => ended = true,
            Poll::Ready(Some(_)) => return Err("an item appeared".into()),
            Poll::Pending => {}
        }
        ensure!(
            ended == rest.is_empty(),
            "items {rest:?} haven't been handled, but the channel has ended: {ended}"
        );
    }
    let common = |k: usize| c.acks.iter().filter(|l| l.iter().any(|(i, _)| pick(*i) == k)).count() > 1;
    rec.label_if(handled.len() < ackers.len(), "an item left for later");
    rec.label_if(s.free, "fell back to free running");
    rec.nontrivial(s.switches > n && (0..ackers.len()).any(common));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    /// What each publisher publishes; true: the transport accepts.
    publishers: Vec<Vec<bool>>,
    /// Close explicitly from a thread of its own instead of dropping the sender.
    close: bool,
    /// Items (by order of receipt) whose acknowledgement is left to another thread.
    deferred: Vec<bool>,
    /// Reject instead of acknowledge.
    nacks: Vec<bool>,
    decisions: Vec<u8>,
}

fn par() -> BoxedStrategy<Par> {
    (
        vec(vec(prop_oneof![3 => Just(true), 1 => Just(false)], 0..4), 1..3),
        any::<bool>(),
        vec(any::<bool>(), 1..4),
        vec(any::<bool>(), 1..4),
        vec(0u8..6, 0..150),
    )
        .prop_map(|(publishers, close, deferred, nacks, decisions)| Par {
            publishers,
            close,
            deferred,
            nacks,
            decisions,
        })
        .boxed()
}

/// Hands acknowledgement handles to another thread.
#[derive(Default)]
struct Mailbox {
    q: Mutex<VecDeque<Option<(u64, CoordinatedAcker)>>>,
    waker: Mutex<Option<Waker>>,
}

impl Mailbox {
    fn put(&self, x: Option<(u64, CoordinatedAcker)>) {
        self.q.lock().unwrap().push_back(x);
        let w = self.waker.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }

    async fn take(&self) -> Option<(u64, CoordinatedAcker)> {
        std::future::poll_fn(|cx| {
            *self.waker.lock().unwrap() = Some(cx.waker().clone());
            match self.q.lock().unwrap().pop_front() {
                Some(x) => Poll::Ready(x),
                None => Poll::Pending,
            }
        })
        .await
    }
}

fn run_par(c: &Par, rec: &mut Rec) -> Verdict {
    let pipe = Arc::new(Pipe::default());
    let (tx, mut rx) = coordinated_channel(Tx(pipe.clone()), Rx(pipe.clone()));
    let tx = Arc::new(tx);
    let published: Mutex<BTreeSet<u64>> = Default::default();
    let refused = Mutex::new(0u64);
    let received: Mutex<Vec<u64>> = Default::default();
    let acked: Mutex<BTreeSet<u64>> = Default::default();
    let bad: Mutex<Vec<String>> = Default::default();
    let closed = AtomicBool::new(false);
    let mailbox = Mailbox::default();

    let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (p, items) in c.publishers.iter().enumerate() {
        let tx = tx.clone();
        let (published, bad, closed, refused) = (&published, &bad, &closed, &refused);
        threads.push(Box::new(move || {
            for (k, ok) in items.iter().enumerate() {
                let id = (p * 100 + k) as u64;
                let item = Item {
                    id,
                    mode: if *ok { Mode::Ok } else { Mode::Fail },
                    gate: Gate::new(),
                };
                let late = closed.load(Ordering::SeqCst);
                match sched::block_on(tx.publish(&item)) {
                    Ok(Ok(())) => {
                        published.lock().unwrap().insert(id);
                        if !ok || late {
                            bad.lock().unwrap().push(format!(
                                "publish {id} succeeded; accepted by the transport: {ok}, started after the channel was closed: {late}"
                            ));
                        }
                    }
                    Ok(Err(_)) => *refused.lock().unwrap() += 1,
                    Err(_) => bad.lock().unwrap().push(format!("publish {id} is stuck")),
                }
                sched::yield_now();
            }
            drop(tx);
        }));
    }
    {
        let (bad, closed) = (&bad, &closed);
        let close = c.close;
        threads.push(Box::new(move || {
            sched::yield_now();
            if close {
                match sched::block_on(tx.close()) {
                    Ok(Ok(())) => closed.store(true, Ordering::SeqCst),
                    r => bad.lock().unwrap().push(format!("close: {r:?}")),
                }
            }
            drop(tx);
        }));
    }
    {
        let (published, received, acked, bad, mailbox) =
            (&published, &received, &acked, &bad, &mailbox);
        threads.push(Box::new(move || {
            loop {
                match sched::block_on(rx.next()) {
                    Ok(Some((x, acker))) => {
                        let n = received.lock().unwrap().len();
                        received.lock().unwrap().push(x);
                        if c.deferred[n % c.deferred.len()] {
                            mailbox.put(Some((x, acker)));
                        } else {
                            sched::yield_now();
                            acked.lock().unwrap().insert(x);
                            if c.nacks[n % c.nacks.len()] {
                                acker.nack();
                            } else {
                                acker.ack();
                            }
                        }
                    }
                    Ok(None) => {
                        let received = received.lock().unwrap();
                        let acked = acked.lock().unwrap();
                        let published = published.lock().unwrap();
                        for x in received.iter().chain(published.iter()) {
                            if !acked.contains(x) || !received.contains(x) {
                                bad.lock().unwrap().push(format!(
                                    "ended although {x} has not been received and acknowledged"
                                ));
                            }
                        }
                        break;
                    }
                    Err(_) => {
                        bad.lock()
                            .unwrap()
                            .push("the receiver is never woken again although all work is done".into());
                        break;
                    }
                }
            }
            mailbox.put(None);
        }));
    }
    {
        let (acked, mailbox) = (&acked, &mailbox);
        threads.push(Box::new(move || {
            while let Ok(Some((x, acker))) = sched::block_on(mailbox.take()) {
                sched::yield_now();
                acked.lock().unwrap().insert(x);
                acker.ack();
            }
        }));
    }
    let n = threads.len() as u64;
    let s = sched::run(&c.decisions, |_| true, threads)?;
    if let Some(b) = bad.lock().unwrap().first() {
        return Err(b.clone());
    }
    let received = received.into_inner().unwrap();
    let published = published.into_inner().unwrap();
    ensure!(
        received.len() == published.len() && received.iter().all(|x| published.contains(x)),
        "published {published:?}, but received {received:?}"
    );
    rec.count("received", received.len() as u64);
    rec.count("refused", refused.into_inner().unwrap());
    rec.count("switches", s.switches);
    rec.label_if(s.free, "fell back to free running");
    rec.nontrivial(s.switches > n && !received.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Volume {
    ends: bool,
    /// How many are published, received and acknowledged, in turn.
    bursts: Vec<(u32, u32, u32)>,
    /// Acknowledge the most recent ones first.
    backwards: bool,
    /// Drop the sender instead of closing it.
    drop: bool,
    /// The number outstanding when the channel is closed and the rest is
    /// handled.
    close_at: u8,
    nack: bool,
}

fn volume() -> BoxedStrategy<Volume> {
    let n = || prop_oneof![3 => 0u32..100, 2 => 0u32..2000, 1 => 0u32..70_000];
    (
        any::<bool>(),
        vec((n(), n(), n()), 1..4),
        any::<bool>(),
        any::<bool>(),
        any::<u8>(),
        any::<bool>(),
    )
        .prop_map(|(ends, bursts, backwards, drop, close_at, nack)| Volume {
            ends,
            bursts,
            backwards,
            drop,
            close_at,
            nack,
        })
        .boxed()
}

/// Large numbers of messages outstanding.
fn run_volume(c: &Volume, rec: &mut Rec) -> Verdict {
    let pipe = Arc::new(Pipe {
        ends: c.ends,
        ..Default::default()
    });
    let (tx, mut rx) = coordinated_channel(Tx(pipe.clone()), Rx(pipe.clone()));
    let mut tx = Some(tx);
    let gate = Gate::new();
    let flag = Flag::new();
    let (mut published, mut received) = (0u64, 0u64);
    let mut ackers: VecDeque<CoordinatedAcker> = VecDeque::new();
    let mut most = 0;
    let settle = |ackers: &mut VecDeque<CoordinatedAcker>| -> Verdict {
        let a = if c.backwards {
            ackers.pop_back()
        } else {
            ackers.pop_front()
        };
        match a {
            Some(a) if c.nack => now(Acker::nack(&a)).map_err(|e| e.to_string()),
            Some(a) => now(Acker::ack(&a)).map_err(|e| e.to_string()),
            None => Ok(()),
        }
    };
    let mut bursts = c.bursts.clone();
    // Everything is received in the end.
    bursts.push((0, u32::MAX, 0));
    for (publish, receive, ack) in bursts {
        for _ in 0..publish {
            let item = Item {
                id: published,
                mode: Mode::Ok,
                gate: gate.clone(),
            };
            let tx = tx.as_ref().expect("open");
            now(tx.publish(&item)).map_err(|e| e.to_string())?;
            published += 1;
        }
        for _ in 0..receive {
            match poll_next(&mut rx, &flag) {
                Poll::Ready(Some((x, acker))) => {
                    ensure!(x == received, "received {x} instead of {received}");
                    received += 1;
                    ackers.push_back(acker);
                }
                Poll::Ready(None) => return Err("the open channel ended".into()),
                Poll::Pending => {
                    ensure!(
                        received == published,
                        "waits although {received} of {published} have been received"
                    );
                    break;
                }
            }
        }
        most = most.max(published - received + ackers.len() as u64);
        for _ in 0..ack {
            settle(&mut ackers)?;
        }
    }
    while ackers.len() > c.close_at as usize {
        settle(&mut ackers)?;
    }
    if c.drop {
        tx = None;
    } else {
        let tx = tx.as_ref().expect("open");
        now(tx.close()).map_err(|e| e.to_string())?;
    }
    let waited = !ackers.is_empty();
    while !ackers.is_empty() {
        flag.reset();
        match poll_next(&mut rx, &flag) {
            Poll::Pending => {}
            Poll::Ready(Some((x, _))) => return Err(format!("received {x} again")),
            Poll::Ready(None) => {
                return Err(format!(
                    "ended while {} messages are outstanding",
                    ackers.len()
                ))
            }
        }
        settle(&mut ackers)?;
    }
    ensure!(
        !waited || flag.woken(),
        "the waiting receiver isn't woken in the end"
    );
    ensure!(
        matches!(poll_next(&mut rx, &flag), Poll::Ready(None)),
        "doesn't end after all of {published} messages have been handled"
    );
    drop(tx);
    rec.label_if(most > 1000, "more than a thousand outstanding");
    rec.label_if(most > 65_536, "more than 65536 outstanding");
    rec.nontrivial(most > 100);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C13",
        assumptions: &[
            "a publish that reports failure has not been delivered by the transport",
            "publish futures are driven to completion",
            "interleavings are explored at the granularity of atomic accesses on a sequentially consistent memory",
        ],
        facets: vec![
            facet(
                "sequential",
                "random publishes (accepted, refused, held before or after delivery), closes, drops, polls from three tasks and acknowledgements, compared with a model after every step including wake-ups; non-trivial: an item was received, the receiver had to wait, and the channel was closed",
                Budget::new(200_000, 4_000_000),
                seq,
                run_seq,
            ),
            facet(
                "concurrent",
                "1-2 publishers, a closer, a receiver and an acknowledging thread on a coordinated channel under a generated schedule; non-trivial: an item was received and there were more context switches than threads",
                Budget::new(20_000, 500_000),
                par,
                run_par,
            ),
            shared_acks(),
            facet(
                "volume",
                "bursts of up to 70000 publishes, receives and acknowledgements on one channel, closed with up to 255 outstanding; non-trivial: more than a hundred outstanding at a time",
                Budget::new(600, 12_000),
                volume,
                run_volume,
            ),
        ],
    }
}
