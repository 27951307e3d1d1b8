//! C15: acknowledgement handles compose faithfully.
use std::{
    pin::Pin,
    sync::{
        atomic::{AtomicU32, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll},
};

use futures::Future;
use paladin::acker::{Acker, ComposedAcker, NoopAcker};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    util::{poll_fut, Flag},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree {
    /// The outcomes of successive calls (cyclic) and for how many polls each call
    /// is pending.
    Leaf {
        oks: Vec<bool>,
        pending: u8,
    },
    Noop,
    Boxed(Box<Tree>),
    Shared(Box<Tree>),
    Both(Box<Tree>, Box<Tree>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tree: Tree,
    /// true: ack, false: nack.
    calls: Vec<bool>,
}

fn tree() -> BoxedStrategy<Tree> {
    let leaf = prop_oneof![
        6 => (vec(prop_oneof![3 => Just(true), 2 => Just(false)], 1..4), 0u8..4)
            .prop_map(|(oks, pending)| Tree::Leaf { oks, pending }),
        1 => Just(Tree::Noop),
    ];
    leaf.prop_recursive(5, 24, 2, |inner| {
        prop_oneof![
            inner.clone().prop_map(|t| Tree::Boxed(Box::new(t))),
            inner.clone().prop_map(|t| Tree::Shared(Box::new(t))),
            (inner.clone(), inner).prop_map(|(a, b)| Tree::Both(Box::new(a), Box::new(b))),
        ]
    })
    .boxed()
}

type Log = Arc<Mutex<Vec<(usize, bool, &'static str)>>>;

struct Leaf {
    id: usize,
    oks: Vec<bool>,
    pending: u8,
    calls: AtomicU32,
    log: Log,
}

struct PendFor(u8);

impl Future for PendFor {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl Leaf {
    async fn call(&self, ack: bool) -> anyhow::Result<()> {
        self.log.lock().unwrap().push((self.id, ack, "start"));
        PendFor(self.pending).await;
        self.log.lock().unwrap().push((self.id, ack, "end"));
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        if self.oks[n as usize % self.oks.len()] {
            Ok(())
        } else {
            anyhow::bail!("leaf {} call {n}", self.id)
        }
    }
}

#[async_trait::async_trait]
impl Acker for Leaf {
    async fn ack(&self) -> anyhow::Result<()> {
        self.call(true).await
    }

    async fn nack(&self) -> anyhow::Result<()> {
        self.call(false).await
    }
}

fn build(t: &Tree, log: &Log, next: &mut usize) -> Box<dyn Acker> {
    match t {
        Tree::Leaf { oks, pending } => {
            let id = *next;
            *next += 1;
            Box::new(Leaf {
                id,
                oks: oks.clone(),
                pending: *pending,
                calls: AtomicU32::new(0),
                log: log.clone(),
            })
        }
        Tree::Noop => Box::new(NoopAcker::new()),
        Tree::Boxed(t) => Box::new(Box::new(build(t, log, next))),
        Tree::Shared(t) => {
            let shared: Arc<dyn Acker> = Arc::from(build(t, log, next));
            let first = shared.clone();
            drop(shared);
            Box::new(first)
        }
        Tree::Both(a, b) => {
            let a = build(a, log, next);
            let b = build(b, log, next);
            Box::new(ComposedAcker::new(a, b))
        }
    }
}

#[derive(Default)]
struct Model {
    calls: Vec<u32>,
    log: Vec<(usize, bool, &'static str)>,
}

fn leaves(t: &Tree) -> usize {
    match t {
        Tree::Leaf { .. } => 1,
        Tree::Noop => 0,
        Tree::Boxed(t) | Tree::Shared(t) => leaves(t),
        Tree::Both(a, b) => leaves(a) + leaves(b),
    }
}

fn eval(t: &Tree, ack: bool, next: usize, m: &mut Model) -> Result<(), String> {
    match t {
        Tree::Leaf { oks, .. } => {
            m.log.push((next, ack, "start"));
            m.log.push((next, ack, "end"));
            let n = m.calls[next];
            m.calls[next] += 1;
            if oks[n as usize % oks.len()] {
                Ok(())
            } else {
                Err(format!("leaf {next} call {n}"))
            }
        }
        Tree::Noop => Ok(()),
        Tree::Boxed(t) | Tree::Shared(t) => eval(t, ack, next, m),
        Tree::Both(a, b) => {
            eval(a, ack, next, m)?;
            eval(b, ack, next + leaves(a), m)
        }
    }
}

fn run(c: &Case, rec: &mut Rec) -> Verdict {
    let log: Log = Default::default();
    let acker = build(&c.tree, &log, &mut 0);
    let n = leaves(&c.tree);
    let mut model = Model {
        calls: vec![0; n],
        log: vec![],
    };
    let mut failed = false;
    let mut partial = false;
    for (i, ack) in c.calls.iter().enumerate() {
        let before = model.log.len();
        let want = eval(&c.tree, *ack, 0, &mut model);
        failed |= want.is_err();
        partial |= want.is_err() && model.log.len() - before < 2 * n;
        let mut fut = if *ack { acker.ack() } else { acker.nack() };
        let flag = Flag::new();
        let got = loop {
            match poll_fut(&mut fut, &flag) {
                Poll::Ready(r) => break r.map_err(|e| e.to_string()),
                Poll::Pending => {
                    ensure!(flag.take(), "call {i} is pending without a wake-up");
                }
            }
        };
        drop(fut);
        ensure!(
            got == want,
            "call {i} ({}) returned {got:?} instead of {want:?}",
            if *ack { "ack" } else { "nack" }
        );
        let log = log.lock().unwrap();
        ensure!(
            *log == model.log,
            "call {i} reached the leaves as {:?} instead of {:?}",
            &log[before.min(log.len())..],
            &model.log[before..]
        );
    }
    rec.label_if(failed, "a part failed");
    rec.label_if(partial, "a part was skipped");
    rec.nontrivial(n >= 2 && !c.calls.is_empty());
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C15",
        assumptions: &["handles are called through the Acker trait, one call at a time"],
        facets: vec![facet(
            "trees",
            "random compositions (composed, boxed, shared) of scripted handles, a random sequence of ack/nack calls; the calls reaching every leaf and every result are compared with a recursive definition; non-trivial: at least two leaves and one call",
            Budget::new(150_000, 3_000_000),
            || {
                (tree(), vec(any::<bool>(), 0..6))
                    .prop_map(|(tree, calls)| Case { tree, calls })
                    .boxed()
            },
            run,
        ), super::c13::double_ack(), super::c13::shared_acks()],
    }
}
