//! Small helpers for polling by hand.
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use futures::Stream;

/// A waker that remembers whether it has been woken.
#[derive(Default)]
pub struct Flag {
    woken: AtomicBool,
    pub wakes: AtomicU64,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, Ordering::SeqCst);
        self.woken.store(true, Ordering::SeqCst);
    }
}

impl Flag {
    pub fn new() -> Arc<Self> {
        Arc::new(Self::default())
    }

    pub fn woken(&self) -> bool {
        self.woken.load(Ordering::SeqCst)
    }

    pub fn reset(&self) {
        self.woken.store(false, Ordering::SeqCst);
    }

    pub fn take(&self) -> bool {
        self.woken.swap(false, Ordering::SeqCst)
    }
}

pub fn poll_next<S: Stream + Unpin>(s: &mut S, flag: &Arc<Flag>) -> Poll<Option<S::Item>> {
    let waker = Waker::from(flag.clone());
    Pin::new(s).poll_next(&mut Context::from_waker(&waker))
}

pub fn poll_fut<F: Future + Unpin + ?Sized>(f: &mut F, flag: &Arc<Flag>) -> Poll<F::Output> {
    let waker = Waker::from(flag.clone());
    Pin::new(f).poll(&mut Context::from_waker(&waker))
}

/// Completes a future that isn't expected to wait for anything else.
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let flag = Flag::new();
    for _ in 0..1000 {
        if let Poll::Ready(r) = poll_fut(&mut f, &flag) {
            return r;
        }
        if !flag.take() {
            break;
        }
    }
    panic!("future is stuck although it has nothing to wait for");
}
