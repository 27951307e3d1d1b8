//! Workers running their main loop on the virtual clock, and jobs that talk to
//! them by hand.
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    channel::LeaseGuard,
    operation::Operation,
    queue::Publisher,
    runtime::{CommandIpc, Runtime, COMMAND_IPC_ABORT_ALL_KEY},
    task::Task,
};
use tokio::task::JoinHandle;

use crate::{
    driver::{config, leak},
    ops::{register, Run, Scripted},
};

pub struct Pool {
    pub rt: Arc<Runtime>,
    pub handles: Vec<JoinHandle<anyhow::Result<()>>>,
}

impl Pool {
    pub async fn new(cbor: bool, workers: usize) -> Result<Pool, String> {
        let rt = Runtime::from_config(&config(cbor, 0), register())
            .await
            .map_err(|e| format!("runtime: {e:#}"))?;
        let mut p = Pool {
            rt: Arc::new(rt),
            handles: vec![],
        };
        for _ in 0..workers {
            p.spawn();
        }
        // Let them get ready.
        turns(50).await;
        Ok(p)
    }

    pub fn spawn(&mut self) {
        let w = crate::hooks::worker(&self.rt);
        self.handles
            .push(tokio::spawn(async move { w.main_loop().await }));
    }

    pub fn stopped(&self) -> usize {
        self.handles.iter().filter(|h| h.is_finished()).count()
    }

    /// The ends of the workers that have stopped.
    pub async fn outcomes(&mut self) -> Vec<Result<(), String>> {
        let mut out = vec![];
        for h in &mut self.handles {
            if h.is_finished() {
                out.push(match h.await {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => Err(format!("worker failed: {e:#}")),
                    Err(e) => Err(format!("worker panicked: {e}")),
                });
            }
        }
        out
    }

    pub async fn command(&self, cmd: &CommandIpc) -> Result<(), String> {
        let sender = self
            .rt
            .get_command_ipc_sender()
            .await
            .map_err(|e| format!("command sender: {e:#}"))?;
        sender
            .publish(cmd)
            .await
            .map_err(|e| format!("publishing a command: {e:#}"))
    }

    pub async fn abort(&self, key: &str) -> Result<(), String> {
        self.command(&CommandIpc::Abort {
            routing_key: key.to_string(),
        })
        .await
    }

    pub async fn abort_all(&self) -> Result<(), String> {
        self.abort(COMMAND_IPC_ABORT_ALL_KEY).await
    }
}

/// Lets everything that is ready run, without waiting for executions.
pub async fn turns(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// Waits until that many executions have begun, while the clock stands still.
/// They are merely to be picked up, which takes microseconds.
pub async fn entries(run: &Run, n: usize) -> Result<(), String> {
    let start = std::time::Instant::now();
    loop {
        let got = run.entered().len();
        if got >= n {
            return Ok(());
        }
        if start.elapsed() > Duration::from_secs(20) {
            return Err(format!("{got} of {n} tasks are being executed"));
        }
        turns(1).await;
    }
}

/// Waits for all executions to end and everything to come to rest.
pub async fn rest() {
    tokio::time::sleep(Duration::from_millis(5)).await;
}

pub type Meta = (u64, String);

/// What arrived at a result channel: metadata and output, or an error.
pub type Answer<Out> = Result<(Meta, Out), String>;

/// A job operated by hand: the channels a directive would use.
pub struct Lease<Op: Operation + Clone + Sync + 'static> {
    pub id: String,
    op: &'static Op,
    sender: Box<dyn Publisher<Task<'static, Op, Meta>> + Send + Unpin + Sync + 'static>,
    pub got: Arc<Mutex<Vec<Answer<Op::Output>>>>,
    pub collector: JoinHandle<()>,
}

impl<Op: Operation + Clone + Sync + 'static> Lease<Op>
where
    Op::Output: Send + 'static,
{
    pub async fn new(rt: &Runtime, op: Op) -> Result<Lease<Op>, String> {
        Self::watched(rt, op, |_| {}).await
    }

    /// Calls the function on every answer as soon as it arrives.
    pub async fn watched(
        rt: &Runtime,
        op: Op,
        watch: impl Fn(&Answer<Op::Output>) + Send + 'static,
    ) -> Result<Lease<Op>, String> {
        let (id, sender, receiver) = rt
            .lease_coordinated_task_channel::<Op, Meta>()
            .await
            .map_err(|e| format!("lease: {e:#}"))?;
        let got: Arc<Mutex<Vec<Answer<Op::Output>>>> = Default::default();
        let collector = tokio::spawn(collect(receiver, got.clone(), watch));
        Ok(Lease {
            id,
            op: leak(op),
            sender,
            got,
            collector,
        })
    }

    /// Publishes a task.
    pub async fn send(&self, meta: Meta, input: Op::Input) -> Result<(), String> {
        self.sender
            .publish(&Task {
                routing_key: self.id.clone(),
                metadata: meta,
                op: self.op,
                input,
            })
            .await
            .map_err(|e| format!("publishing a task: {e:#}"))
    }

    pub fn answers(&self) -> Vec<Answer<Op::Output>>
    where
        Op::Output: Clone,
    {
        self.got.lock().unwrap().clone()
    }
}

async fn collect<C, Op, S>(
    mut receiver: LeaseGuard<C, S>,
    got: Arc<Mutex<Vec<Answer<Op::Output>>>>,
    watch: impl Fn(&Answer<Op::Output>),
) where
    C: paladin::channel::Channel,
    Op: Operation,
    S: futures::Stream<
            Item = (
                paladin::task::TaskResult<Op, Meta>,
                Box<dyn paladin::acker::Acker>,
            ),
        > + Unpin,
{
    while let Some((r, acker)) = receiver.next().await {
        _ = acker.ack().await;
        let r = r
            .map(|o| (o.metadata, o.output))
            .map_err(|e| format!("{e:#}"));
        watch(&r);
        got.lock().unwrap().push(r);
    }
}

pub async fn scripted(rt: &Runtime, run: u64) -> Result<Lease<Scripted>, String> {
    Lease::new(rt, Scripted { run }).await
}
