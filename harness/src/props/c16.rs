//! C16: leased result channels are released exactly once.
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    task::{Context, Poll},
};

use async_trait::async_trait;
use futures::Stream;
use paladin::{
    acker::Acker,
    channel::{Channel, LeaseGuard},
    queue::Publisher,
    serializer::Serializable,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c07::{many_released, queues_released};
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    util::{poll_next, Flag},
};

#[derive(Clone, Default)]
struct Recording {
    released: Arc<AtomicU64>,
    closed: Arc<AtomicU64>,
}

struct NoPublisher;

#[async_trait]
impl<T: Sync> Publisher<T> for NoPublisher {
    async fn publish(&self, _: &T) -> anyhow::Result<()> {
        Ok(())
    }

    async fn close(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

struct NoAcker;

#[async_trait]
impl Acker for NoAcker {
    async fn ack(&self) -> anyhow::Result<()> {
        Ok(())
    }

    async fn nack(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

#[async_trait]
impl Channel for Recording {
    type Acker = NoAcker;
    type Receiver<'a, T: Serializable + 'a> = futures::stream::Empty<(T, NoAcker)>;
    type Sender<'a, T: Serializable + 'a> = NoPublisher;

    async fn close(&self) -> anyhow::Result<()> {
        self.closed.fetch_add(1, Ordering::SeqCst);
        Ok(())
    }

    async fn sender<'a, T: Serializable + 'a>(&self) -> anyhow::Result<Self::Sender<'a, T>> {
        Ok(NoPublisher)
    }

    async fn receiver<'a, T: Serializable + 'a>(&self) -> anyhow::Result<Self::Receiver<'a, T>> {
        Ok(futures::stream::empty())
    }

    fn release(&self) {
        self.released.fetch_add(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Poll1 {
    Item(u32),
    /// Pending, with or without a wake-up to come.
    Pending(bool),
    End,
}

struct Pipe {
    script: VecDeque<Poll1>,
    polls: u64,
    dropped: Arc<AtomicU64>,
    released: Arc<AtomicU64>,
    released_before_drop: Arc<AtomicU64>,
}

impl Stream for Pipe {
    type Item = u32;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u32>> {
        self.polls += 1;
        match self.script.pop_front() {
            Some(Poll1::Item(x)) => Poll::Ready(Some(x)),
            Some(Poll1::Pending(wake)) => {
                if wake {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
            Some(Poll1::End) | None => Poll::Ready(None),
        }
    }
}

impl Drop for Pipe {
    fn drop(&mut self) {
        self.dropped.fetch_add(1, Ordering::SeqCst);
        self.released_before_drop
            .store(self.released.load(Ordering::SeqCst), Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Way {
    Plain,
    Boxed,
    Unwinding,
    OtherThread,
    /// Moved into a future that is dropped before or after its first poll.
    Future(bool),
    Replaced,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    script: Vec<Poll1>,
    polls: u8,
    /// Move the guard around every so many polls.
    moves: u8,
    way: Way,
}

fn run(c: &Case, rec: &mut Rec) -> Verdict {
    let channel = Recording::default();
    let released = channel.released.clone();
    let closed = channel.closed.clone();
    let dropped = Arc::new(AtomicU64::new(0));
    let pipe = Pipe {
        script: c.script.iter().copied().collect(),
        polls: 0,
        dropped: dropped.clone(),
        released: released.clone(),
        released_before_drop: Default::default(),
    };
    let mut guard = Box::new(LeaseGuard::new(channel, pipe));
    let mut reference: VecDeque<_> = c.script.iter().copied().collect();
    for i in 0..c.polls {
        if c.moves > 0 && i % c.moves == 0 {
            guard = Box::new(*guard);
        }
        let flag = Flag::new();
        let got = poll_next(&mut *guard, &flag);
        let (want, wake) = match reference.pop_front() {
            Some(Poll1::Item(x)) => (Poll::Ready(Some(x)), false),
            Some(Poll1::Pending(w)) => (Poll::Pending, w),
            Some(Poll1::End) | None => (Poll::Ready(None), false),
        };
        ensure!(got == want, "poll {i} gave {got:?} instead of {want:?}");
        ensure!(
            flag.woken() == wake,
            "poll {i}: the waker was {}woken",
            if wake { "not " } else { "" }
        );
        ensure!(
            guard.polls == i as u64 + 1,
            "{} polls were passed on instead of {}",
            guard.polls,
            i + 1
        );
        // Also through the mutable view of the stream.
        guard.polls += 0;
        let n = released.load(Ordering::SeqCst);
        ensure!(n == 0, "the channel was released by poll {i}");
    }
    ensure!(dropped.load(Ordering::SeqCst) == 0, "the stream was dropped early");
    match c.way {
        Way::Plain => drop(*guard),
        Way::Boxed => {
            let b: Box<dyn Stream<Item = u32> + Send + Unpin> = guard;
            drop(b)
        }
        Way::Unwinding => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _g = guard;
                panic!("unwinding");
            }));
            ensure!(r.is_err(), "no panic");
        }
        Way::OtherThread => {
            std::thread::spawn(move || drop(guard)).join().map_err(|_| "panic")?;
        }
        Way::Future(polled) => {
            let mut f = Box::pin(async move {
                let g = guard;
                futures::future::pending::<()>().await;
                drop(g);
            });
            if polled {
                _ = crate::util::poll_fut(&mut f, &Flag::new());
            }
            ensure!(released.load(Ordering::SeqCst) == 0, "released by a move");
            drop(f);
        }
        Way::Replaced => {
            let other = Recording::default();
            let other_released = other.released.clone();
            let pipe = Pipe {
                script: VecDeque::new(),
                polls: 0,
                dropped: Default::default(),
                released: Default::default(),
                released_before_drop: Default::default(),
            };
            *guard = LeaseGuard::new(other, pipe);
            ensure!(
                released.load(Ordering::SeqCst) == 1,
                "a replaced lease didn't release its channel"
            );
            ensure!(
                other_released.load(Ordering::SeqCst) == 0,
                "the new lease was released with the old one"
            );
            drop(guard);
            ensure!(
                other_released.load(Ordering::SeqCst) == 1,
                "the new lease didn't release its channel"
            );
        }
    }
    let n = released.load(Ordering::SeqCst);
    ensure!(n == 1, "the channel was released {n} times");
    let n = closed.load(Ordering::SeqCst);
    ensure!(n == 0, "the channel was closed");
    ensure!(
        dropped.load(Ordering::SeqCst) == 1,
        "the contained stream wasn't dropped"
    );
    rec.label(format!("{:?}", c.way));
    rec.label_if(
        c.polls as usize > c.script.len(),
        "polled beyond the end of the stream",
    );
    rec.nontrivial(c.polls > 0);
    Ok(())
}

pub fn property() -> Property {
    let poll = || {
        prop_oneof![
            3 => any::<u32>().prop_map(Poll1::Item),
            1 => any::<bool>().prop_map(Poll1::Pending),
        ]
    };
    let way = || {
        prop_oneof![
            Just(Way::Plain),
            Just(Way::Boxed),
            Just(Way::Unwinding),
            Just(Way::OtherThread),
            any::<bool>().prop_map(Way::Future),
            Just(Way::Replaced),
        ]
    };
    Property {
        id: "C16",
        assumptions: &[
            "a result delivered after its directive is over recreates its queue; no such late results are part of the cases",
        ],
        facets: vec![
            facet(
                "lease",
                "scripted streams (items, pending with and without wake-up, end) behind a lease over a recording channel, polled so many times, moved, and dropped in one of several ways; non-trivial: polled at all",
                Budget::new(60_000, 1_500_000),
                move || {
                    (vec(poll(), 0..12), any::<bool>(), 0u8..16, 0u8..4, way())
                        .prop_map(|(mut script, end, polls, moves, way)| {
                            if end {
                                script.push(Poll1::End);
                            }
                            Case {
                                script,
                                polls,
                                moves,
                                way,
                            }
                        })
                        .boxed()
                },
                run,
            ),
            queues_released(),
            many_released(),
        ],
    }
}
