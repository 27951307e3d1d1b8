//! A single-threaded runtime on a virtual clock. The clock only advances once
//! nothing else can make progress, such that exceeding a (virtual) deadline
//! means that the program is stuck, deterministically.
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};

use tokio::runtime::{Builder, RngSeed};

/// Beyond every delay a legitimate program in this harness waits for.
pub const VIRTUAL_LIMIT: Duration = Duration::from_secs(2 * 3600);

pub const HANG: &str =
    "hang: nothing can make progress any more, but the program has not finished";

pub fn run<F: Future>(seed: u64, fut: F) -> Result<F::Output, String> {
    let rt = Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .rng_seed(RngSeed::from_bytes(&seed.to_le_bytes()))
        .max_blocking_threads(64)
        .build()
        .expect("runtime");
    let r = rt.block_on(async { tokio::time::timeout(VIRTUAL_LIMIT, fut).await });
    rt.shutdown_background();
    r.map_err(|_| HANG.to_string())
}

/// Let everything else run until it waits for something.
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

/// Gives up on a future that is polled over and over again.
pub struct PollLimit<F> {
    pub fut: F,
    pub left: u64,
}

pub const POLLS: u64 = 5_000_000;

impl<F: Future + Unpin> Future for PollLimit<F> {
    type Output = Result<F::Output, String>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(Err("livelock: polled millions of times".to_string()));
        }
        self.left -= 1;
        Pin::new(&mut self.fut).poll(cx).map(Ok)
    }
}
