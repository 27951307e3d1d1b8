//! Runs directives against a worker that is driven by hand: generated decisions
//! choose when inputs are released, which pending task is executed next, when
//! its result is delivered, when the caller polls and from which task.
use std::{
    collections::VecDeque,
    fmt::Debug,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
};

use futures::FutureExt;
use paladin::{
    acker::Acker,
    config::{Config, Runtime as Backend, Serializer as SerializerConfig},
    directive::IndexedStream,
    operation::{FatalStrategy, OperationError},
    runtime::{ExecutionOk, Runtime, WorkerRuntime},
    task::{AnyTask, AnyTaskOutput, AnyTaskResult},
};
use serde::{Deserialize, Serialize};
use tokio::sync::{mpsc, Semaphore};

use crate::{
    core::panic_msg,
    vrt::{settle, PollLimit, POLLS},
};

pub fn config(cbor: bool, workers: usize) -> Config {
    Config {
        runtime: Backend::InMemory,
        serializer: if cbor {
            SerializerConfig::Cbor
        } else {
            SerializerConfig::Postcard
        },
        num_workers: Some(workers),
        ..Default::default()
    }
}

/// Operations need to outlive the spawned directive.
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// An input stream whose items are released one by one.
pub struct Gate<T> {
    items: VecDeque<anyhow::Result<(usize, T)>>,
    tx: Option<futures::channel::mpsc::UnboundedSender<anyhow::Result<(usize, T)>>>,
}

pub trait Input: Send {
    fn remaining(&self) -> usize;
    fn ended(&self) -> bool;
    fn release(&mut self);
    fn end(&mut self);
}

impl<T: Send> Input for Gate<T> {
    fn remaining(&self) -> usize {
        self.items.len()
    }

    fn ended(&self) -> bool {
        self.tx.is_none()
    }

    fn release(&mut self) {
        if let (Some(x), Some(tx)) = (self.items.pop_front(), &self.tx) {
            // The receiver may be gone already.
            _ = tx.unbounded_send(x);
        }
    }

    fn end(&mut self) {
        self.tx = None;
    }
}

pub fn gated<T: Send + 'static>(
    items: impl IntoIterator<Item = anyhow::Result<(usize, T)>>,
) -> (Box<dyn Input>, IndexedStream<'static, T>) {
    let (tx, rx) = futures::channel::mpsc::unbounded();
    let gate = Gate {
        items: items.into_iter().collect(),
        tx: Some(tx),
    };
    (Box::new(gate), IndexedStream::new(rx))
}

/// The input of jobs that don't have a stream.
pub fn no_input() -> Box<dyn Input> {
    Box::new(Gate::<()> {
        items: VecDeque::new(),
        tx: None,
    })
}

/// What the caller of a directive got to see.
#[derive(Default, Debug, Clone)]
pub struct Seen {
    /// Items of the result stream.
    pub items: Vec<(usize, String)>,
    /// Errors of the result stream.
    pub errors: Vec<String>,
    /// The value returned, if not a stream.
    pub value: Option<String>,
    /// The caller is done; with an error message if it failed.
    pub done: Option<Result<(), String>>,
}

pub type Shared = Arc<Mutex<Seen>>;

enum Cmd {
    Migrate,
    Drop,
}

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

fn host(mut fut: Fut, mut rx: mpsc::UnboundedReceiver<Cmd>) {
    tokio::spawn(async move {
        tokio::select! {
            biased;
            Some(cmd) = rx.recv() => match cmd {
                // Other task, other waker.
                Cmd::Migrate => host(fut, rx),
                Cmd::Drop => {}
            },
            _ = &mut fut => {}
        }
    });
}

/// A running directive and its caller.
pub struct Job {
    pub input: Box<dyn Input>,
    pub seen: Shared,
    permits: Arc<Semaphore>,
    granted: usize,
    cmd: mpsc::UnboundedSender<Cmd>,
    pub dropped: bool,
    abandon: Arc<std::sync::atomic::AtomicBool>,
}

/// How the caller consumes a result stream.
#[derive(Clone)]
pub struct Caller {
    pub seen: Shared,
    permits: Arc<Semaphore>,
    abandon: Arc<std::sync::atomic::AtomicBool>,
}

impl Caller {
    /// Polls the stream as permitted until it ends. After an error, the caller
    /// carries on if `drain` is set.
    pub async fn consume<T: Debug>(
        &self,
        mut stream: IndexedStream<'static, T>,
        drain: bool,
    ) -> Result<(), String> {
        loop {
            self.permits.acquire().await.expect("permits").forget();
            if self.abandon.load(std::sync::atomic::Ordering::SeqCst) {
                return Ok(());
            }
            match futures::StreamExt::next(&mut stream).await {
                None => return Ok(()),
                Some(Ok((idx, x))) => {
                    let x = format!("{x:?}");
                    self.seen.lock().unwrap().items.push((idx, x));
                }
                Some(Err(e)) => {
                    let e = format!("{e:#}");
                    self.seen.lock().unwrap().errors.push(e.clone());
                    if !drain {
                        return Err(e);
                    }
                }
            }
        }
    }

    /// Collects the values of the stream sorted by index.
    pub async fn sorted<T: Debug>(
        &self,
        stream: IndexedStream<'static, T>,
    ) -> Result<(), String> {
        let values = stream
            .into_values_sorted()
            .await
            .map_err(|e| format!("{e:#}"))?;
        let mut seen = self.seen.lock().unwrap();
        seen.items = values
            .into_iter()
            .enumerate()
            .map(|(i, v)| (i, format!("{v:?}")))
            .collect();
        Ok(())
    }

    pub fn value<T: Debug>(&self, x: &T) {
        self.seen.lock().unwrap().value = Some(format!("{x:?}"));
    }
}

impl Job {
    /// Spawns the caller of a directive.
    pub fn spawn<F>(input: Box<dyn Input>, f: impl FnOnce(Caller) -> F) -> Job
    where
        F: Future<Output = Result<(), String>> + Send + 'static,
    {
        let seen: Shared = Default::default();
        let permits = Arc::new(Semaphore::new(0));
        let abandon = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let fut = f(Caller {
            seen: seen.clone(),
            permits: permits.clone(),
            abandon: abandon.clone(),
        });
        let fut = PollLimit {
            fut: Box::pin(std::panic::AssertUnwindSafe(fut).catch_unwind()),
            left: POLLS,
        };
        let (cmd, rx) = mpsc::unbounded_channel();
        let out = seen.clone();
        host(
            Box::pin(async move {
                let r = match fut.await {
                    Err(livelock) => Err(livelock),
                    Ok(Err(p)) => Err(format!("panic: {}", panic_msg(p))),
                    Ok(Ok(r)) => r,
                };
                out.lock().unwrap().done = Some(r);
            }),
            rx,
        );
        Job {
            input,
            seen,
            permits,
            granted: 0,
            cmd,
            dropped: false,
            abandon,
        }
    }

    pub fn done(&self) -> Option<Result<(), String>> {
        self.seen.lock().unwrap().done.clone()
    }

    pub fn finished(&self) -> bool {
        self.dropped || self.seen.lock().unwrap().done.is_some()
    }

    pub fn permit(&mut self, n: usize) {
        self.granted += n;
        self.permits.add_permits(n);
    }

    /// Let the caller poll without limits.
    pub fn open(&mut self) {
        if self.granted < 1 << 20 {
            self.permit(1 << 20);
        }
    }

    pub fn migrate(&self) {
        _ = self.cmd.send(Cmd::Migrate);
    }

    /// Drops the directive or its result stream wherever it is.
    pub fn cancel(&mut self) {
        _ = self.cmd.send(Cmd::Drop);
        self.dropped = true;
    }

    /// The caller stops consuming the stream at its next permit, and returns.
    pub fn abandon(&mut self) {
        self.abandon
            .store(true, std::sync::atomic::Ordering::SeqCst);
        self.open();
    }
}

pub struct Pending {
    pub task: AnyTask,
    acker: Box<dyn Acker>,
}

pub struct Held {
    key: String,
    output: Result<AnyTaskOutput, OperationError>,
    acker: Box<dyn Acker>,
}

/// A decision; interpreted relative to what is possible at that point.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub kind: u8,
    pub pick: u8,
    /// Let everything come to rest before the next decision.
    pub settle: bool,
}

pub fn steps(max: usize) -> proptest::strategy::BoxedStrategy<Vec<Step>> {
    use proptest::prelude::*;
    proptest::collection::vec(
        (any::<u8>(), any::<u8>(), proptest::bool::weighted(0.6))
            .prop_map(|(kind, pick, settle)| Step { kind, pick, settle }),
        0..max,
    )
    .boxed()
}

/// What happened in a run, to classify it.
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executed: usize,
    pub failed: usize,
    /// Deliveries out of the order of execution or of publication.
    pub reordered: usize,
    /// Results delivered before the end of the input was known.
    pub early: usize,
    /// Results delivered without a pause in between.
    pub bunched: usize,
    pub migrations: usize,
    pub max_pending: usize,
}

pub struct World {
    pub rt: Arc<Runtime>,
    pub worker: WorkerRuntime,
    inbox: Arc<Mutex<Vec<Pending>>>,
    pub pending: Vec<Pending>,
    pub held: Vec<Held>,
    pub jobs: Vec<Job>,
    pub stats: Stats,
    pub allow_migration: bool,
    /// Tasks may fail; their errors are delivered the way a worker does.
    pub failing: bool,
    since_settle: usize,
}

impl World {
    pub async fn new(cbor: bool) -> Result<World, String> {
        let rt = Runtime::from_config(&config(cbor, 0), crate::ops::register())
            .await
            .map_err(|e| format!("runtime: {e:#}"))?;
        let rt = Arc::new(rt);
        let worker = crate::hooks::worker(&rt);
        let inbox: Arc<Mutex<Vec<Pending>>> = Default::default();
        tokio::spawn({
            let worker = worker.clone();
            let inbox = inbox.clone();
            async move {
                let mut tasks = worker.get_task_receiver().await.expect("task receiver");
                while let Some((task, acker)) = futures::StreamExt::next(&mut tasks).await {
                    inbox.lock().unwrap().push(Pending { task, acker });
                }
            }
        });
        Ok(World {
            rt,
            worker,
            inbox,
            pending: vec![],
            held: vec![],
            jobs: vec![],
            stats: Stats::default(),
            allow_migration: true,
            failing: false,
            since_settle: 0,
        })
    }

    pub async fn settle(&mut self) {
        settle().await;
        self.since_settle = 0;
        self.collect();
    }

    fn collect(&mut self) {
        self.pending.append(&mut self.inbox.lock().unwrap());
        self.stats.max_pending = self.stats.max_pending.max(self.pending.len());
    }

    /// Executes a pending task, holding its result back.
    pub async fn execute(&mut self, i: usize) -> Result<(), String> {
        self.stats.reordered += usize::from(i > 0);
        let Pending { task, acker } = self.pending.remove(i);
        let key = task.routing_key.clone();
        match task.remote_execute(None).await {
            Err(e) if self.failing => {
                self.stats.failed += 1;
                let output = Err(e);
                self.held.push(Held { key, output, acker });
                Ok(())
            }
            Ok(output) => {
                self.stats.executed += 1;
                let output = Ok(output);
                self.held.push(Held { key, output, acker });
                Ok(())
            }
            Err(e) => Err(format!("a task that doesn't fail failed: {e}")),
        }
    }

    /// Delivers a held result.
    pub async fn deliver(&mut self, i: usize) -> Result<(), String> {
        self.stats.reordered += usize::from(i > 0);
        self.stats.early += usize::from(self.jobs.iter().any(|j| !j.input.ended()));
        self.stats.bunched += usize::from(self.since_settle > 0);
        self.since_settle += 1;
        let Held { key, output, acker } = self.held.remove(i);
        let r = match output {
            Ok(output) => tokio::try_join!(
                acker.ack(),
                self.worker.dispatch_ok(ExecutionOk {
                    routing_key: key,
                    output,
                })
            ),
            Err(err) => {
                let answer = async {
                    if matches!(err.fatal_strategy(), FatalStrategy::Ignore) {
                        return Ok(());
                    }
                    let sender = self.worker.get_result_sender(key).await?;
                    sender.publish(&AnyTaskResult::Err(err.to_string())).await?;
                    sender.close().await
                };
                tokio::try_join!(acker.nack(), answer)
            }
        };
        r.map(|_| ())
            .map_err(|e| format!("delivering a result failed: {e:#}"))
    }

    /// Carries out one decision. Returns false if there is nothing to decide.
    pub async fn step(&mut self, s: Step) -> Result<bool, String> {
        #[derive(Clone, Copy)]
        enum Ev {
            Release(usize),
            Burst(usize),
            End(usize),
            Exec,
            Deliver,
            Both,
            Permit(usize),
            Migrate(usize),
        }
        let mut evs = vec![];
        for (i, j) in self.jobs.iter().enumerate() {
            if j.finished() {
                continue;
            }
            if j.input.remaining() > 0 {
                evs.extend([Ev::Release(i), Ev::Release(i), Ev::Burst(i)]);
            } else if !j.input.ended() {
                evs.push(Ev::End(i));
            }
            evs.push(Ev::Permit(i));
            if self.allow_migration {
                evs.push(Ev::Migrate(i));
            }
        }
        if !self.pending.is_empty() {
            evs.extend([Ev::Exec, Ev::Exec, Ev::Both, Ev::Both]);
        }
        if !self.held.is_empty() {
            evs.extend([Ev::Deliver; 4]);
        }
        if evs.is_empty() {
            return Ok(false);
        }
        let pick = s.pick as usize;
        match evs[s.kind as usize % evs.len()] {
            Ev::Release(i) => self.jobs[i].input.release(),
            Ev::Burst(i) => {
                for _ in 0..1 + pick % 6 {
                    self.jobs[i].input.release();
                }
                // The end may become known along with the last item.
                if self.jobs[i].input.remaining() == 0 && pick & 0x80 != 0 {
                    self.jobs[i].input.end();
                }
            }
            Ev::End(i) => self.jobs[i].input.end(),
            Ev::Exec => self.execute(pick % self.pending.len()).await?,
            Ev::Deliver => self.deliver(pick % self.held.len()).await?,
            Ev::Both => {
                self.execute(pick % self.pending.len()).await?;
                self.deliver(self.held.len() - 1).await?;
            }
            Ev::Permit(i) => self.jobs[i].permit(1 + pick % 3),
            Ev::Migrate(i) => {
                self.stats.migrations += 1;
                self.jobs[i].migrate();
            }
        }
        if s.settle {
            self.settle().await;
        } else {
            self.collect();
        }
        Ok(true)
    }

    /// Releases and executes everything that is left, oldest first.
    pub async fn finish(&mut self) -> Result<(), String> {
        for j in &mut self.jobs {
            j.open();
        }
        self.settle().await;
        // Input and results alternate at first, to have a bit of both.
        while self.jobs.iter().any(|j| !j.finished() && !j.input.ended()) {
            for j in &mut self.jobs {
                if j.input.remaining() > 0 {
                    j.input.release();
                } else {
                    j.input.end();
                }
            }
            self.settle().await;
            if !self.pending.is_empty() {
                self.execute(0).await?;
            }
        }
        loop {
            self.settle().await;
            if self.jobs.iter().all(Job::finished) {
                return Ok(());
            }
            if self.pending.is_empty() && self.held.is_empty() {
                let stuck: Vec<_> = (0..self.jobs.len())
                    .filter(|i| !self.jobs[*i].finished())
                    .collect();
                return Err(format!(
                    "hang: all input has been released, all tasks have been executed and all results delivered, but job(s) {stuck:?} have not completed"
                ));
            }
            while !self.pending.is_empty() {
                self.execute(0).await?;
            }
            while !self.held.is_empty() {
                self.deliver(0).await?;
            }
        }
    }
}
