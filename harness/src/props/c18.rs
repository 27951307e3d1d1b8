//! C18: publisher adapters forward every item exactly once.
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
    time::Duration,
};

use async_trait::async_trait;
use futures::StreamExt;
use paladin::queue::{Publisher, PublisherExt};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    util::now,
    vrt,
};

// --- publish_all ---------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    /// Time before the item is available.
    gap: u16,
    /// Time its publication takes.
    delay: u16,
    fails: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct All {
    items: Vec<Item>,
    /// The stream fails at this position.
    stream_error: Option<u16>,
    limit: Option<u16>,
    pass_option: bool,
    boxed: bool,
}

#[derive(Default)]
struct Log {
    started: BTreeMap<usize, u32>,
    finished: BTreeMap<usize, u32>,
    active: usize,
    max_active: usize,
    closes: u32,
}

struct Slow {
    items: Vec<Item>,
    log: Arc<Mutex<Log>>,
}

struct InFlight(Arc<Mutex<Log>>);

impl Drop for InFlight {
    fn drop(&mut self) {
        self.0.lock().unwrap().active -= 1;
    }
}

#[async_trait]
impl Publisher<usize> for Slow {
    async fn publish(&self, i: &usize) -> anyhow::Result<()> {
        let _in_flight = {
            let mut l = self.log.lock().unwrap();
            *l.started.entry(*i).or_default() += 1;
            l.active += 1;
            l.max_active = l.max_active.max(l.active);
            InFlight(self.log.clone())
        };
        let item = &self.items[*i];
        if item.delay > 0 {
            tokio::time::sleep(Duration::from_millis(item.delay as u64)).await;
        }
        *self.log.lock().unwrap().finished.entry(*i).or_default() += 1;
        if item.fails {
            anyhow::bail!("publish {i} failed");
        }
        Ok(())
    }

    async fn close(&self) -> anyhow::Result<()> {
        self.log.lock().unwrap().closes += 1;
        Ok(())
    }
}

fn run_all(c: &All, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let log: Arc<Mutex<Log>> = Default::default();
        let p = Slow {
            items: c.items.clone(),
            log: log.clone(),
        };
        let n = c.items.len();
        let fail_at = c.stream_error.map(|e| e as usize % (n + 1));
        let gaps: Vec<u16> = c.items.iter().map(|i| i.gap).collect();
        let stream = futures::stream::iter(0..=n)
            .then(move |i| {
                let gap = gaps.get(i).copied().unwrap_or(0);
                async move {
                    if gap > 0 {
                        tokio::time::sleep(Duration::from_millis(gap as u64)).await;
                    }
                    if fail_at == Some(i) {
                        Err(anyhow::anyhow!("stream failed at {i}"))
                    } else {
                        Ok(i)
                    }
                }
            })
            .filter(move |r| futures::future::ready(!matches!(r, Ok(i) if *i == n)))
            .boxed();
        let limit = c.limit.map(|l| l as usize);
        let p: Box<dyn Publisher<usize> + Send + Sync> = if c.boxed {
            Box::new(Box::new(p))
        } else {
            Box::new(p)
        };
        let r = match limit {
            Some(l) if !c.pass_option => p.publish_all(stream, l).await,
            _ => p.publish_all(stream, limit).await,
        };
        let l = log.lock().unwrap();
        for (i, k) in &l.started {
            ensure!(*k == 1, "item {i} was published {k} times");
        }
        // A limit of zero means none.
        if let Some(limit) = limit.filter(|l| *l > 0) {
            ensure!(
                l.max_active <= limit,
                "{} publishes were in flight at once, the limit is {limit}",
                l.max_active
            );
        }
        let may_fail: Vec<String> = (0..n)
            .filter(|i| c.items[*i].fails && fail_at.is_none_or(|f| *i < f))
            .map(|i| format!("publish {i} failed"))
            .chain(fail_at.map(|i| format!("stream failed at {i}")))
            .collect();
        match &r {
            Ok(()) => {
                ensure!(may_fail.is_empty(), "success despite: {may_fail:?}");
                ensure!(
                    l.finished.len() == n,
                    "{} of {n} items had been published when it finished",
                    l.finished.len()
                );
            }
            Err(e) => {
                let e = format!("{e:#}");
                ensure!(
                    may_fail.contains(&e),
                    "failed with {e:?}, possible are {may_fail:?}"
                );
            }
        }
        ensure!(l.closes == 0, "the publisher was closed");
        rec.label_if(r.is_err(), "fails");
        rec.label_if(limit.is_none_or(|l| l == 0), "no limit");
        rec.label_if(l.max_active > 1, "several in flight");
        rec.label_if(Some(l.max_active) == limit, "limit reached");
        rec.nontrivial(n > 1 && l.max_active > 1);
        Ok(())
    })?
}

// --- Adapters ------------------------------------------------------------

type Dyn = Box<dyn Publisher<i64> + Send + Sync + Unpin>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Layer {
    Box,
    Pin,
    /// `x -> x * mul + add`, failing if `x % modulus == 0`.
    With { mul: i64, add: i64, modulus: i64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Publish(i64),
    Close,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Adapt {
    layers: Vec<Layer>,
    /// Wrap everything such that it accepts text.
    text: bool,
    ops: Vec<(Op, bool)>,
}

#[derive(Default)]
struct BaseState {
    seen: Vec<String>,
    fail: bool,
}

struct Base(Arc<Mutex<BaseState>>);

#[async_trait]
impl Publisher<i64> for Base {
    async fn publish(&self, x: &i64) -> anyhow::Result<()> {
        tokio::task::yield_now().await;
        let mut s = self.0.lock().unwrap();
        s.seen.push(format!("publish {x}"));
        anyhow::ensure!(!s.fail, "base refused {x}");
        Ok(())
    }

    async fn close(&self) -> anyhow::Result<()> {
        tokio::task::yield_now().await;
        let mut s = self.0.lock().unwrap();
        s.seen.push("close".into());
        anyhow::ensure!(!s.fail, "base refused to close");
        Ok(())
    }
}

fn run_adapt(c: &Adapt, rec: &mut Rec) -> Verdict {
    let base: Arc<Mutex<BaseState>> = Default::default();
    let mut p: Dyn = Box::new(Base(base.clone()));
    for l in c.layers.iter().rev() {
        p = match l.clone() {
            Layer::Box => Box::new(Box::new(p)),
            Layer::Pin => Box::new(Box::pin(p)),
            Layer::With { mul, add, modulus } => Box::new(Unpinned(p.with(move |x: &i64| {
                if *x % modulus == 0 {
                    anyhow::bail!("transformation refused {x}");
                }
                Ok(x.wrapping_mul(mul).wrapping_add(add))
            }))),
        };
    }
    let text = c.text.then(|| {
        let q: Dyn = std::mem::replace(&mut p, Box::new(Base(base.clone())));
        q.with(|s: &String| Ok(s.parse::<i64>()?))
    });
    for (i, (op, fail)) in c.ops.iter().enumerate() {
        {
            let mut s = base.lock().unwrap();
            s.fail = *fail;
            s.seen.clear();
        }
        let (got, want, want_seen) = match op {
            Op::Close => (
                match &text {
                    Some(t) => now(t.close()),
                    None => now(p.close()),
                },
                if *fail {
                    Err("base refused to close".to_string())
                } else {
                    Ok(())
                },
                vec!["close".to_string()],
            ),
            Op::Publish(x) => {
                let got = match &text {
                    Some(t) => now(t.publish(&x.to_string())),
                    None => now(p.publish(x)),
                };
                let mut y = *x;
                let mut err = None;
                for l in &c.layers {
                    if let Layer::With { mul, add, modulus } = l {
                        if y % modulus == 0 {
                            err = Some(format!("transformation refused {y}"));
                            break;
                        }
                        y = y.wrapping_mul(*mul).wrapping_add(*add);
                    }
                }
                match err {
                    Some(e) => {
                        rec.label("transformation fails");
                        (got, Err(e), vec![])
                    }
                    None => (
                        got,
                        if *fail {
                            Err(format!("base refused {y}"))
                        } else {
                            Ok(())
                        },
                        vec![format!("publish {y}")],
                    ),
                }
            }
        };
        let got = got.map_err(|e| format!("{e:#}"));
        ensure!(
            got == want,
            "operation {i} ({op:?}) returned {got:?} instead of {want:?}"
        );
        let seen = base.lock().unwrap().seen.clone();
        ensure!(
            seen == want_seen,
            "operation {i} ({op:?}) led to {seen:?} instead of {want_seen:?}"
        );
    }
    rec.nontrivial(
        c.layers.iter().any(|l| matches!(l, Layer::With { .. })) && c.ops.len() > 1,
    );
    rec.label(format!("{} layers", c.layers.len()));
    Ok(())
}

/// Closures aren't known to be `Unpin` in a `With`.
struct Unpinned<P>(P);

impl<P> Unpin for Unpinned<P> {}

#[async_trait]
impl<P: Publisher<i64> + Send + Sync> Publisher<i64> for Unpinned<P> {
    async fn publish(&self, x: &i64) -> anyhow::Result<()> {
        self.0.publish(x).await
    }

    async fn close(&self) -> anyhow::Result<()> {
        self.0.close().await
    }
}

pub fn property() -> Property {
    let item = || {
        (
            prop_oneof![3 => Just(0u16), 1 => 1u16..20],
            prop_oneof![1 => Just(0u16), 3 => 1u16..50],
            proptest::bool::weighted(0.03),
        )
            .prop_map(|(gap, delay, fails)| Item { gap, delay, fails })
    };
    let layer = || {
        prop_oneof![
            Just(Layer::Box),
            Just(Layer::Pin),
            (-5i64..5, -5i64..5, 3i64..7).prop_map(|(mul, add, modulus)| Layer::With {
                mul,
                add,
                modulus
            }),
        ]
    };
    let op = || prop_oneof![5 => (-40i64..40).prop_map(Op::Publish), 1 => Just(Op::Close)];
    Property {
        id: "C18",
        assumptions: &[
            "a limit of zero means no limit, as for the futures crate",
            "if a publish or the stream fails, the other publishes in flight may be given up",
        ],
        facets: vec![
            facet(
                "publish all",
                "streams of up to thirty items with pauses, publications taking generated virtual time, failures of publications and of the stream, limits none, zero to twelve; non-trivial: several items and several in flight",
                Budget::new(60_000, 1_500_000),
                move || {
                    (
                        vec(item(), 0..30),
                        proptest::option::weighted(0.2, 0u16..256),
                        proptest::option::weighted(
                            0.8,
                            prop_oneof![1 => Just(0u16), 8 => 1u16..13],
                        ),
                        any::<bool>(),
                        any::<bool>(),
                    )
                        .prop_map(|(items, stream_error, limit, pass_option, boxed)| All {
                            items,
                            stream_error,
                            limit,
                            pass_option,
                            boxed,
                        })
                        .boxed()
                },
                run_all,
            ),
            facet(
                "publish many",
                "streams of a hundred to 1500 items with limits up to 700, otherwise as above; non-trivial: several in flight",
                Budget::new(400, 10_000).shrink(500),
                move || {
                    let n = prop_oneof![100usize..300, 300usize..1500];
                    (
                        n.prop_flat_map(|n| {
                            let fails = proptest::bool::weighted(0.0002);
                            vec(
                                (
                                    prop_oneof![8 => Just(0u16), 1 => 1u16..20],
                                    prop_oneof![1 => Just(0u16), 4 => 0u16..2000],
                                    fails,
                                )
                                    .prop_map(|(gap, delay, fails)| Item { gap, delay, fails }),
                                n,
                            )
                        }),
                        proptest::option::weighted(0.1, any::<u16>()),
                        proptest::option::weighted(
                            0.8,
                            prop_oneof![1 => 0u16..13, 3 => 13u16..700],
                        ),
                        any::<bool>(),
                        any::<bool>(),
                    )
                        .prop_map(|(items, stream_error, limit, pass_option, boxed)| All {
                            items,
                            stream_error,
                            limit,
                            pass_option,
                            boxed,
                        })
                        .boxed()
                },
                run_all,
            ),
            facet(
                "adapters",
                "stacks of up to six boxed, pinned and transformed publishers over a recording one, with publications and closes that may fail; non-trivial: a transformation and several operations",
                Budget::new(80_000, 2_000_000),
                move || {
                    (
                        vec(layer(), 0..6),
                        any::<bool>(),
                        vec((op(), proptest::bool::weighted(0.2)), 0..10),
                    )
                        .prop_map(|(layers, text, ops)| Adapt { layers, text, ops })
                        .boxed()
                },
                run_adapt,
            ),
        ],
    }
}
