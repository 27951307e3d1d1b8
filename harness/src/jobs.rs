//! Directives over generated inputs, and what they have to yield.
use std::sync::Arc;

use paladin::{
    directive::{Directive, IndexedStream, Literal},
    operation::{Monoid, Operation},
    runtime::Runtime,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    driver::{gated, leak, no_input, Caller, Input, Job, Seen},
    ops::{
        rich, Affine, Compose, Concat, Constant, First, Measure, Nothing, Render, Rich, Seg, Sink,
        SumMod, Text, Wrap,
    },
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Prog {
    Map,
    MapTwice,
    MapChain,
    MapRich,
    Lit,
    LitChain,
    LitRich,
    FoldConcat,
    FoldText,
    FoldCompose,
    FoldFirst,
    FoldSum,
    MapFold,
    MapMapFold,
    MapSink,
    MapUnit,
    LitUnit,
    FoldUnit,
}

pub const MAPS: &[Prog] = &[
    Prog::Map,
    Prog::Map,
    Prog::MapTwice,
    Prog::MapChain,
    Prog::MapRich,
    Prog::Lit,
    Prog::LitChain,
    Prog::LitRich,
    Prog::MapSink,
    Prog::MapUnit,
    Prog::LitUnit,
];

pub const FOLDS: &[Prog] = &[
    Prog::FoldConcat,
    Prog::FoldConcat,
    Prog::FoldConcat,
    Prog::FoldText,
    Prog::FoldCompose,
    Prog::FoldFirst,
    Prog::FoldSum,
    Prog::MapFold,
    Prog::MapMapFold,
    Prog::FoldUnit,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JobSpec {
    pub prog: Prog,
    /// Items in the order in which the input yields them.
    pub items: Vec<(usize, i64)>,
    pub rich: Vec<Rich>,
    pub a: i64,
    pub b: i64,
    /// The caller collects the values sorted by index.
    pub sorted: bool,
}

impl JobSpec {
    pub fn is_fold(&self) -> bool {
        FOLDS.contains(&self.prog)
    }

    pub fn is_literal(&self) -> bool {
        matches!(self.prog, Prog::Lit | Prog::LitChain | Prog::LitRich | Prog::LitUnit)
    }

    pub fn distinct(&self) -> bool {
        let mut idx: Vec<_> = self.items.iter().map(|i| i.0).collect();
        idx.sort_unstable();
        idx.windows(2).all(|w| w[0] != w[1])
    }

    fn rich_at(&self, i: usize) -> Rich {
        if self.rich.is_empty() {
            Rich::Unit
        } else {
            self.rich[i % self.rich.len()].clone()
        }
    }
}

/// What a directive has to yield.
#[derive(Debug, PartialEq)]
pub enum Expect {
    Items(Vec<(usize, String)>),
    Value(String),
}

const P: u64 = 1_000_003;

fn text(x: i64) -> String {
    let len = (x.unsigned_abs() % 7) as usize;
    format!("<{x}{}>", "é".repeat(len))
}

fn pair(x: i64) -> (u64, u64) {
    (x as u64 % P, (x as u64).rotate_left(29) % P)
}

fn exec<Op: Operation>(op: &Op, x: Op::Input) -> Op::Output {
    op.execute(x, None).expect("local execution succeeds")
}

/// The reduction in index order, computed locally.
fn reduce<M: Monoid>(m: &M, items: impl IntoIterator<Item = M::Elem>) -> M::Elem {
    items.into_iter().fold(m.empty(), |a, b| {
        m.combine(a, b, None).expect("local combination succeeds")
    })
}

struct Ops {
    affine: Affine,
    affine2: Affine,
    render: Render,
    wrap: Wrap,
    constant: Constant,
}

fn ops(s: &JobSpec) -> Ops {
    Ops {
        affine: Affine { a: s.a, b: s.b },
        affine2: Affine { a: s.b, b: s.a },
        render: Render {
            prefix: text(s.a),
        },
        wrap: Wrap { tag: s.b as u32 },
        constant: Constant { value: s.a },
    }
}

pub fn expect(s: &JobSpec) -> Expect {
    let o = ops(s);
    let mut in_order = s.items.clone();
    in_order.sort_by_key(|i| i.0);
    fn shown<T: std::fmt::Debug>(x: T) -> String {
        format!("{x:?}")
    }
    let map = |f: &dyn Fn(usize, i64) -> String| {
        let mut v: Vec<_> = s
            .items
            .iter()
            .enumerate()
            .map(|(pos, (i, x))| (*i, f(pos, *x)))
            .collect();
        v.sort();
        if s.sorted {
            for (i, x) in v.iter_mut().enumerate() {
                x.0 = i;
            }
        }
        Expect::Items(v)
    };
    let lit = s.items.first().map_or(0, |x| x.1);
    let xs = || in_order.iter().map(|i| i.1);
    match s.prog {
        Prog::Map => map(&|_, x| shown(exec(&o.affine, x))),
        Prog::MapTwice => map(&|_, x| shown(exec(&o.affine2, exec(&o.affine, x)))),
        Prog::MapChain => {
            map(&|_, x| shown(exec(&Measure, exec(&o.render, exec(&o.affine, x)))))
        }
        Prog::MapRich => map(&|pos, _| shown(exec(&o.wrap, s.rich_at(pos)))),
        Prog::Lit => Expect::Value(shown(exec(&o.affine, lit))),
        Prog::LitChain => Expect::Value(shown(exec(
            &Measure,
            exec(&o.render, exec(&o.affine, lit)),
        ))),
        Prog::LitRich => Expect::Value(shown(exec(&o.wrap, s.rich_at(0)))),
        Prog::FoldConcat => Expect::Value(shown(
            in_order
                .iter()
                .enumerate()
                .map(|(k, (_, x))| (k as u32, text(*x)))
                .collect::<Seg>(),
        )),
        Prog::FoldText => Expect::Value(shown(reduce(&Text, xs().map(text)))),
        Prog::FoldCompose => Expect::Value(shown(reduce(&Compose { p: P }, xs().map(pair)))),
        Prog::FoldFirst => {
            Expect::Value(shown(reduce(&First, xs().map(|x| (x % 3 != 0).then_some(x)))))
        }
        Prog::FoldSum => {
            Expect::Value(shown(reduce(&SumMod { m: P }, xs().map(|x| x as u64 % P))))
        }
        Prog::MapFold => Expect::Value(shown(reduce(&Text, xs().map(|x| exec(&o.render, x))))),
        Prog::MapMapFold => Expect::Value(shown(reduce(
            &Text,
            xs().map(|x| exec(&o.render, exec(&o.affine, x))),
        ))),
        Prog::MapSink => map(&|_, _| shown(())),
        Prog::MapUnit => map(&|_, _| shown(s.a)),
        Prog::LitUnit => Expect::Value(shown(s.a)),
        Prog::FoldUnit => Expect::Value(shown(())),
    }
}

/// Compares what the caller of a completed directive saw to what it should.
pub fn compare(s: &JobSpec, seen: &Seen) -> Result<(), String> {
    match &seen.done {
        Some(Ok(())) => {}
        Some(Err(e)) => return Err(format!("{:?} failed: {e}", s.prog)),
        None => return Err(format!("{:?} has not completed", s.prog)),
    }
    if !seen.errors.is_empty() {
        return Err(format!("{:?} yielded errors: {:?}", s.prog, seen.errors));
    }
    let got = match &seen.value {
        Some(v) => Expect::Value(v.clone()),
        None => {
            let mut items = seen.items.clone();
            if !s.sorted || !s.distinct() {
                items.sort();
                if s.sorted {
                    // Equal indices may come in any order.
                    let mut want = match expect(s) {
                        Expect::Items(i) => i,
                        e => return Err(format!("{e:?}")),
                    };
                    let mut got: Vec<_> = items.into_iter().map(|i| i.1).collect();
                    got.sort();
                    let mut want2: Vec<_> = want.drain(..).map(|i| i.1).collect();
                    want2.sort();
                    if got != want2 {
                        return Err(format!(
                            "{:?} yielded {got:?} instead of {want2:?}",
                            s.prog
                        ));
                    }
                    return Ok(());
                }
            }
            Expect::Items(items)
        }
    };
    let want = expect(s);
    if got != want {
        return Err(format!("{:?} yielded {got:?} instead of {want:?}", s.prog));
    }
    Ok(())
}

async fn finish<T: std::fmt::Debug>(
    c: Caller,
    sorted: bool,
    r: anyhow::Result<IndexedStream<'static, T>>,
) -> Result<(), String> {
    let stream = r.map_err(|e| format!("{e:#}"))?;
    if sorted {
        c.sorted(stream).await
    } else {
        c.consume(stream, false).await
    }
}

fn value<T: std::fmt::Debug>(c: Caller, r: anyhow::Result<T>) -> Result<(), String> {
    let v = r.map_err(|e| format!("{e:#}"))?;
    c.value(&v);
    Ok(())
}

/// The input: gated, or a stream that has everything at once.
fn source<T: Send + Sync + 'static>(
    gate: bool,
    items: Vec<(usize, T)>,
) -> (Box<dyn Input>, IndexedStream<'static, T>) {
    let natural = items.iter().enumerate().all(|(k, (i, _))| k == *i);
    if gate {
        gated(items.into_iter().map(Ok))
    } else if natural {
        (
            no_input(),
            IndexedStream::from(items.into_iter().map(|i| i.1).collect::<Vec<_>>()),
        )
    } else {
        (
            no_input(),
            IndexedStream::new(futures::stream::iter(items.into_iter().map(Ok))),
        )
    }
}

/// Starts the directive. `run` identifies the log of combinations.
pub fn spawn(s: &JobSpec, rt: &Arc<Runtime>, run: u64, gate: bool) -> Job {
    let o = leak(ops(s));
    let rt = rt.clone();
    let sorted = s.sorted;
    let lit = s.items.first().map_or(0, |x| x.1);
    let rich0 = s.rich_at(0);
    let items = || s.items.clone();
    let mapped = |f: &dyn Fn(i64) -> String| -> Vec<(usize, String)> {
        s.items.iter().map(|(i, x)| (*i, f(*x))).collect()
    };
    match s.prog {
        Prog::Map => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                finish(c, sorted, st.map(&o.affine).run(&rt).await).await
            })
        }
        Prog::MapTwice => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                finish(c, sorted, st.map(&o.affine).map(&o.affine2).run(&rt).await).await
            })
        }
        Prog::MapChain => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                let d = st.map(&o.affine).map(&o.render).map(&Measure);
                finish(c, sorted, d.run(&rt).await).await
            })
        }
        Prog::MapRich => {
            let (input, st) = source(
                gate,
                s.items
                    .iter()
                    .enumerate()
                    .map(|(pos, (i, _))| (*i, s.rich_at(pos)))
                    .collect(),
            );
            Job::spawn(input, |c| async move {
                finish(c, sorted, st.map(&o.wrap).run(&rt).await).await
            })
        }
        Prog::Lit => Job::spawn(no_input(), |c| async move {
            value(c, Literal(lit).map(&o.affine).run(&rt).await.map(|l| l.0))
        }),
        Prog::LitChain => Job::spawn(no_input(), |c| async move {
            let d = Literal(lit).map(&o.affine).map(&o.render).map(&Measure);
            value(c, d.run(&rt).await.map(|l| l.0))
        }),
        Prog::LitRich => Job::spawn(no_input(), |c| async move {
            value(c, Literal(rich0).map(&o.wrap).run(&rt).await.map(|l| l.0))
        }),
        Prog::FoldConcat => {
            let mut rank: Vec<_> = s.items.iter().map(|i| i.0).collect();
            rank.sort_unstable();
            let (input, st) = source(
                gate,
                s.items
                    .iter()
                    .map(|(i, x)| {
                        let pos = rank.binary_search(i).expect("present") as u32;
                        (*i, vec![(pos, text(*x))] as Seg)
                    })
                    .collect(),
            );
            let m = leak(Concat { run });
            Job::spawn(
                input,
                |c| async move { value(c, st.fold(m).run(&rt).await) },
            )
        }
        Prog::FoldText => {
            let (input, st) = source(gate, mapped(&text));
            Job::spawn(input, |c| async move {
                value(c, st.fold(&Text).run(&rt).await)
            })
        }
        Prog::FoldCompose => {
            let (input, st) = source(gate, s.items.iter().map(|(i, x)| (*i, pair(*x))).collect());
            Job::spawn(input, |c| async move {
                value(c, st.fold(&Compose { p: P }).run(&rt).await)
            })
        }
        Prog::FoldFirst => {
            let (input, st) = source(
                gate,
                s.items
                    .iter()
                    .map(|(i, x)| (*i, (x % 3 != 0).then_some(*x)))
                    .collect(),
            );
            Job::spawn(input, |c| async move {
                value(c, st.fold(&First).run(&rt).await)
            })
        }
        Prog::FoldSum => {
            let (input, st) = source(
                gate,
                s.items.iter().map(|(i, x)| (*i, *x as u64 % P)).collect(),
            );
            Job::spawn(input, |c| async move {
                value(c, st.fold(&SumMod { m: P }).run(&rt).await)
            })
        }
        Prog::MapFold => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                value(c, st.map(&o.render).fold(&Text).run(&rt).await)
            })
        }
        Prog::MapMapFold => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                value(
                    c,
                    st.map(&o.affine).map(&o.render).fold(&Text).run(&rt).await,
                )
            })
        }
        Prog::MapSink => {
            let (input, st) = source(gate, items());
            Job::spawn(input, |c| async move {
                finish(c, sorted, st.map(&o.affine).map(&Sink).run(&rt).await).await
            })
        }
        Prog::MapUnit => {
            let (input, st) = source(gate, s.items.iter().map(|(i, _)| (*i, ())).collect());
            Job::spawn(input, |c| async move {
                finish(c, sorted, st.map(&o.constant).run(&rt).await).await
            })
        }
        Prog::LitUnit => Job::spawn(no_input(), |c| async move {
            let d = Literal(lit).map(&Sink).map(&o.constant);
            value(c, d.run(&rt).await.map(|l| l.0))
        }),
        Prog::FoldUnit => {
            let (input, st) = source(gate, s.items.iter().map(|(i, _)| (*i, ())).collect());
            Job::spawn(input, |c| async move {
                value(c, st.fold(&Nothing).run(&rt).await)
            })
        }
    }
}

// --- Generators ----------------------------------------------------------

fn int() -> BoxedStrategy<i64> {
    prop_oneof![3 => -50i64..50, 1 => any::<i64>(), 1 => Just(i64::MIN), 1 => Just(i64::MAX)]
        .boxed()
}

fn permuted(n: usize) -> BoxedStrategy<Vec<usize>> {
    let ident: Vec<usize> = (0..n).collect();
    prop_oneof![
        2 => Just(ident.clone()),
        1 => Just(ident.iter().rev().copied().collect::<Vec<_>>()),
        3 => Just(ident).prop_shuffle(),
    ]
    .boxed()
}

/// Input sizes: mostly small, but reaching beyond the limits on concurrency.
pub fn size(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![1 => 0usize..3, 4 => 0..=max.min(9), 2 => 0..=max.min(30), 1 => 0..=max].boxed()
}

pub fn map_spec(max: usize) -> BoxedStrategy<JobSpec> {
    let idx = |n: usize| {
        prop_oneof![
            2 => permuted(n),
            1 => vec(prop_oneof![0usize..8, any::<usize>(), Just(usize::MAX), Just(1 << 32)], n),
            1 => (permuted(n), 1usize..100_000, any::<u32>()).prop_map(|(p, k, o)| {
                p.into_iter().map(|i| i * k + o as usize).collect()
            }),
        ]
    };
    (
        proptest::sample::select(MAPS.to_vec()),
        size(max).prop_flat_map(move |n| (idx(n), vec(int(), n))),
        vec(rich(), 0..4),
        int(),
        int(),
        proptest::bool::weighted(0.25),
    )
        .prop_map(|(prog, (idx, xs), rich, a, b, sorted)| JobSpec {
            prog,
            items: idx.into_iter().zip(xs).collect(),
            rich,
            a,
            b,
            sorted,
        })
        .boxed()
}

pub fn fold_spec(max: usize) -> BoxedStrategy<JobSpec> {
    (
        proptest::sample::select(FOLDS.to_vec()),
        size(max).prop_flat_map(|n| {
            (
                permuted(n),
                vec(int(), n),
                prop_oneof![
                    3 => Just(0usize),
                    1 => 1usize..20,
                    1 => any::<u32>().prop_map(|x| x as usize),
                    1 => Just(usize::MAX - n - 1),
                ],
            )
        }),
        int(),
        int(),
    )
        .prop_map(|(prog, (idx, xs, base), a, b)| JobSpec {
            prog,
            items: idx.into_iter().map(|i| i + base).zip(xs).collect(),
            rich: vec![],
            a,
            b,
            sorted: false,
        })
        .boxed()
}

pub fn spec(max: usize) -> BoxedStrategy<JobSpec> {
    prop_oneof![map_spec(max), fold_spec(max)].boxed()
}
