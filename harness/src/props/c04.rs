//! C04: a failing task or input fails the directive with its error.
//! C06: an ignored failure leaves the other tasks alone.
use std::{collections::BTreeMap, time::Duration};

use paladin::{
    directive::{Directive, IndexedStream, Literal},
    runtime::Runtime,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c01::{completion, emulator};
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    driver::{gated, leak, no_input, steps, Input, Job, Seen, Step, World},
    ensure,
    ops::{
        failure_msg, new_run, scripted_value, Act, Brittle, BrittleOp, BrittleSum, Fatality, Retry,
        RunGuard, Scripted, ScriptedConcat, ScriptedSeg, Seg, NO_DE, NO_SER,
    },
    vrt,
    worker::{rest, scripted, Pool},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Plan {
    Fine,
    Fatal,
    Panic,
    /// Fails more often than the strategy permits.
    Exhausted(Retry, u32),
    /// Succeeds in the end.
    Flaky(Retry, u32),
}

impl Plan {
    pub fn fails(&self) -> bool {
        matches!(self, Plan::Fatal | Plan::Panic | Plan::Exhausted(..))
    }

    pub fn act(&self, fatality: Fatality) -> Act {
        match self {
            Plan::Fine => Act::Ok,
            Plan::Fatal => Act::Fatal(fatality),
            Plan::Panic => Act::Panic,
            Plan::Exhausted(retry, more) => Act::Flaky {
                failures: retry.max() + 2 + more,
                retry: retry.clone(),
                fatality,
            },
            Plan::Flaky(retry, f) => Act::Flaky {
                failures: f % (retry.max() + 2),
                retry: retry.clone(),
                fatality,
            },
        }
    }

    /// The number of attempts until success or final failure.
    pub fn attempts(&self) -> u32 {
        match self {
            Plan::Fine | Plan::Fatal | Plan::Panic => 1,
            Plan::Exhausted(retry, _) => retry.max() + 2,
            Plan::Flaky(retry, f) => f % (retry.max() + 2) + 1,
        }
    }

    /// What the error has to say about it.
    pub fn message(&self, key: u64) -> String {
        match self {
            // The payload of a panic isn't conveyed.
            Plan::Panic => "panicked".to_string(),
            _ => failure_msg(key, self.attempts()),
        }
    }
}

fn retry() -> BoxedStrategy<Retry> {
    prop_oneof![
        (1u32..4).prop_map(Retry::Immediate),
        (1u32..4, 0u64..3000).prop_map(|(n, ms)| Retry::After(n, ms)),
    ]
    .boxed()
}

pub fn plan(fails: u32) -> BoxedStrategy<Plan> {
    prop_oneof![
        14 => Just(Plan::Fine),
        fails => Just(Plan::Fatal),
        fails => Just(Plan::Panic),
        fails => (retry(), 0u32..3).prop_map(|(r, n)| Plan::Exhausted(r, n)),
        3 => (retry(), any::<u32>()).prop_map(|(r, n)| Plan::Flaky(r, n)),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Map,
    MapMap,
    Lit,
    LitLit,
    Fold,
    MapFold,
}

const KINDS: &[Kind] = &[
    Kind::Map,
    Kind::Map,
    Kind::MapMap,
    Kind::Lit,
    Kind::LitLit,
    Kind::Fold,
    Kind::Fold,
    Kind::MapFold,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec {
    kind: Kind,
    /// Index and value.
    items: Vec<(usize, i64)>,
    first: Vec<Plan>,
    second: Vec<Plan>,
    /// The input yields an error after so many items.
    input_error: Option<usize>,
    sorted: bool,
}

const INPUT_ERROR: &str = "the input failed";

fn spec(max: usize) -> BoxedStrategy<Spec> {
    (
        proptest::sample::select(KINDS.to_vec()),
        prop_oneof![3 => 1..=max.min(6), 1 => 0..=max],
        // Rarely failing elements, else hardly anything gets to be executed.
        0u32..4,
    )
        .prop_flat_map(|(kind, n, fails)| {
            let ident: Vec<usize> = (0..n).collect();
            (
                Just(kind),
                prop_oneof![Just(ident.clone()), Just(ident).prop_shuffle()],
                vec(-1000i64..1000, n),
                vec(plan(fails), n.max(1)),
                vec(plan(fails), n.max(1)),
                proptest::option::weighted(0.2, 0..=n),
                any::<bool>(),
            )
        })
        .prop_map(
            |(kind, idx, xs, first, second, input_error, sorted)| Spec {
                kind,
                items: idx.into_iter().zip(xs).collect(),
                first,
                second,
                input_error: input_error
                    .filter(|_| !matches!(kind, Kind::Lit | Kind::LitLit)),
                sorted,
            },
        )
        .boxed()
}

/// The plan of an element is that of its index.
fn script(plans: &[Plan], fatality: Fatality) -> Vec<(u64, Act)> {
    plans
        .iter()
        .enumerate()
        .map(|(k, p)| (k as u64, p.act(fatality)))
        .collect()
}

impl Spec {
    fn literal(&self) -> (u64, i64) {
        (0, self.items.first().map_or(0, |i| i.1))
    }

    /// The messages of the failures that are bound to occur unless another one
    /// comes first.
    fn failures(&self) -> Vec<String> {
        let n = match self.kind {
            Kind::Lit | Kind::LitLit => 1,
            _ => self.items.len(),
        };
        let of = |plans: &[Plan], from: usize| -> Vec<String> {
            (from..n)
                .filter(|k| plans[*k].fails())
                .map(|k| plans[k].message(k as u64))
                .collect()
        };
        let mut out = match self.kind {
            Kind::Map | Kind::Lit => of(&self.first, 0),
            Kind::MapMap | Kind::LitLit => [of(&self.first, 0), of(&self.second, 0)].concat(),
            // Combinations go by the position at which their right operand
            // starts.
            Kind::Fold => of(&self.second, 1),
            Kind::MapFold => [of(&self.first, 0), of(&self.second, 1)].concat(),
        };
        if self.input_error.is_some() {
            out.push(INPUT_ERROR.to_string());
        }
        out
    }

    fn spawn(
        &self,
        rt: &std::sync::Arc<Runtime>,
        runs: (u64, u64),
        source: impl Source,
    ) -> Job {
        let rt = rt.clone();
        let a = leak(Scripted { run: runs.0 });
        let b = leak(Scripted { run: runs.1 });
        let to_seg = leak(ScriptedSeg { run: runs.0 });
        let concat = leak(ScriptedConcat { run: runs.1 });
        let sorted = self.sorted;
        let lit = self.literal();
        let keyed = || self.with_errors(|i, x| (i as u64, x));
        fn shown<T>(r: anyhow::Result<T>) -> Result<T, String> {
            r.map_err(|e| format!("{e:#}"))
        }
        match self.kind {
            Kind::Map | Kind::MapMap => {
                let twice = self.kind == Kind::MapMap;
                let (input, s) = source.of(keyed());
                Job::spawn(input, |c| async move {
                    let s = if twice {
                        shown(s.map(a).map(b).run(&rt).await)?
                    } else {
                        shown(s.map(a).run(&rt).await)?
                    };
                    if sorted {
                        c.sorted(s).await
                    } else {
                        c.consume(s, false).await
                    }
                })
            }
            Kind::Lit => Job::spawn(no_input(), |c| async move {
                c.value(&shown(Literal(lit).map(a).run(&rt).await)?.0);
                Ok(())
            }),
            Kind::LitLit => Job::spawn(no_input(), |c| async move {
                c.value(&shown(Literal(lit).map(a).map(b).run(&rt).await)?.0);
                Ok(())
            }),
            Kind::Fold => {
                let (input, s) = source.of(self.with_errors(segment));
                Job::spawn(input, |c| async move {
                    c.value(&shown(s.fold(concat).run(&rt).await)?);
                    Ok(())
                })
            }
            Kind::MapFold => {
                let (input, s) = source.of(keyed());
                Job::spawn(input, |c| async move {
                    c.value(&shown(s.map(to_seg).fold(concat).run(&rt).await)?);
                    Ok(())
                })
            }
        }
    }

    fn with_errors<T>(&self, f: impl Fn(usize, i64) -> T) -> Vec<anyhow::Result<(usize, T)>> {
        let mut v: Vec<_> = self
            .items
            .iter()
            .map(|(i, x)| Ok((*i, f(*i, *x))))
            .collect();
        if let Some(at) = self.input_error {
            v.insert(at, Err(anyhow::anyhow!(INPUT_ERROR)));
        }
        v
    }

    fn judge(&self, seen: &Seen) -> Verdict {
        let failures = self.failures();
        let twice = self.kind == Kind::MapMap;
        let all: Vec<(usize, String)> = {
            let mut v = self.items.clone();
            v.sort();
            v.iter()
                .map(|(i, x)| {
                    let mut y = scripted_value(*x);
                    if twice {
                        y = scripted_value(y);
                    }
                    (*i, format!("{:?}", (*i as u64, y)))
                })
                .collect()
        };
        let Some(done) = &seen.done else {
            return Err("the directive did not finish".into());
        };
        let mut items = seen.items.clone();
        items.sort();
        if !failures.is_empty() {
            let Err(e) = done else {
                return Err(format!(
                    "success in spite of {failures:?}: {items:?} {:?}",
                    seen.value
                ));
            };
            ensure!(
                failures.iter().any(|f| e.contains(f.as_str())),
                "the error {e:?} is not one of {failures:?}"
            );
            ensure!(seen.value.is_none(), "a value in spite of {failures:?}");
            // What has been yielded before is genuine.
            for w in items.windows(2) {
                ensure!(w[0].0 != w[1].0, "element {} was yielded twice", w[0].0);
            }
            for i in &items {
                ensure!(all.contains(i), "{i:?} was yielded, which is none of {all:?}");
                let bad = self.first[i.0].fails() || (twice && self.second[i.0].fails());
                ensure!(!bad, "{i:?} was yielded although it failed");
            }
            return Ok(());
        }
        ensure!(*done == Ok(()), "nothing fails, but it ended with {done:?}");
        let lit = self.literal();
        let once = (0u64, scripted_value(lit.1));
        match self.kind {
            Kind::Map | Kind::MapMap => {
                ensure!(items == all, "yielded {items:?} instead of {all:?}")
            }
            Kind::Lit => ensure!(
                seen.value == Some(format!("{once:?}")),
                "the value is {:?}",
                seen.value
            ),
            Kind::LitLit => ensure!(
                seen.value == Some(format!("{:?}", (0u64, scripted_value(once.1)))),
                "the value is {:?}",
                seen.value
            ),
            Kind::Fold | Kind::MapFold => {
                let mut v = self.items.clone();
                v.sort();
                let seg: Seg = v.iter().map(|(i, x)| (*i as u32, x.to_string())).collect();
                ensure!(
                    seen.value == Some(format!("{seg:?}")),
                    "the value is {:?}",
                    seen.value
                )
            }
        }
        Ok(())
    }

    fn classify(&self, rec: &mut Rec) {
        let f = self.failures();
        rec.label(format!("{:?}", self.kind));
        rec.label(match f.len() {
            0 => "no failure",
            1 => "one failure",
            _ => "several failures",
        });
        rec.label_if(self.input_error.is_some(), "the input fails");
        rec.label_if(f.iter().any(|m| m == "panicked"), "panic");
    }
}

fn segment(i: usize, x: i64) -> Seg {
    vec![(i as u32, x.to_string())]
}

/// How the input arrives.
trait Source {
    fn of<T: Send + 'static>(
        &self,
        items: Vec<anyhow::Result<(usize, T)>>,
    ) -> (Box<dyn Input>, IndexedStream<'static, T>);
}

struct Gated;

impl Source for Gated {
    fn of<T: Send + 'static>(
        &self,
        items: Vec<anyhow::Result<(usize, T)>>,
    ) -> (Box<dyn Input>, IndexedStream<'static, T>) {
        gated(items)
    }
}

/// After pauses (in ms), repeating them as needed.
struct Paced(Vec<u16>);

impl Source for Paced {
    fn of<T: Send + 'static>(
        &self,
        items: Vec<anyhow::Result<(usize, T)>>,
    ) -> (Box<dyn Input>, IndexedStream<'static, T>) {
        let pauses = self.0.clone();
        let s = futures::stream::iter(items.into_iter().enumerate());
        let s = futures::StreamExt::then(s, move |(k, x)| {
            let ms = *pauses.get(k % pauses.len().max(1)).unwrap_or(&0);
            async move {
                if ms > 0 {
                    tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                }
                x
            }
        });
        (no_input(), IndexedStream::new(s))
    }
}

fn guards(s: &Spec) -> (RunGuard, RunGuard) {
    (
        new_run(script(&s.first, Fatality::Terminate)),
        new_run(script(&s.second, Fatality::Terminate)),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Driven {
    cbor: bool,
    spec: Spec,
    steps: Vec<Step>,
}

fn run_driven(c: &Driven, rec: &mut Rec) -> Verdict {
    let (a, b) = guards(&c.spec);
    c.spec.classify(rec);
    vrt::run(1, async {
        let mut w = World::new(c.cbor).await?;
        w.failing = true;
        let job = c.spec.spawn(&w.rt, (a.id, b.id), Gated);
        w.jobs.push(job);
        for s in &c.steps {
            if !w.step(*s).await? {
                break;
            }
        }
        w.finish().await?;
        let seen = w.jobs[0].seen.lock().unwrap().clone();
        rec.count("tasks that failed", w.stats.failed as u64);
        rec.label_if(!seen.items.is_empty(), "items yielded");
        rec.nontrivial(!c.spec.failures().is_empty() && w.stats.executed > 0);
        c.spec.judge(&seen)
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Emulated {
    cbor: bool,
    workers: usize,
    spec: Spec,
    pauses: Vec<u16>,
}

fn run_emulated(c: &Emulated, rec: &mut Rec) -> Verdict {
    let (a, b) = guards(&c.spec);
    c.spec.classify(rec);
    vrt::run(1, async {
        let rt = emulator(c.cbor, c.workers).await?;
        let mut job = c.spec.spawn(&rt, (a.id, b.id), Paced(c.pauses.clone()));
        completion(&mut job).await;
        let seen = job.seen.lock().unwrap().clone();
        let done = a.run.entered().len() + b.run.entered().len();
        rec.nontrivial(!c.spec.failures().is_empty() && done > 1);
        c.spec.judge(&seen)
    })?
}

/// Few failures among many elements.
fn large() -> BoxedStrategy<Emulated> {
    let kinds: Vec<Kind> = KINDS
        .iter()
        .copied()
        .filter(|k| !matches!(k, Kind::Lit | Kind::LitLit))
        .collect();
    let bad = || vec((any::<usize>(), plan(1000)), 0..3);
    (
        (any::<bool>(), 1usize..6, any::<bool>()),
        proptest::sample::select(kinds),
        prop_oneof![100usize..400, 400usize..1500],
        0usize..3,
        bad(),
        bad(),
        proptest::option::weighted(0.2, any::<usize>()),
    )
        .prop_map(
            |((cbor, workers, sorted), kind, n, order, first, second, input_error)| {
                let mut idx: Vec<usize> = (0..n).collect();
                match order {
                    0 => idx.reverse(),
                    1 => idx.sort_by_key(|i| (i % 13, *i)),
                    _ => {}
                }
                let plans = |bad: Vec<(usize, Plan)>| {
                    let mut all = vec![Plan::Fine; n];
                    for (at, p) in bad {
                        all[at % n] = p;
                    }
                    all
                };
                Emulated {
                    cbor,
                    workers,
                    spec: Spec {
                        kind,
                        items: idx.into_iter().map(|i| (i, i as i64 % 1000)).collect(),
                        first: plans(first),
                        second: plans(second),
                        input_error: input_error.map(|e| e % (n + 1)),
                        sorted,
                    },
                    pauses: vec![],
                }
            },
        )
        .boxed()
}

// --- Values that can't be (de)serialized ---------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Flaw {
    None,
    InputSer,
    InputDe,
    OutputSer,
    OutputDe,
    OpSer,
    OpDe,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flawed {
    cbor: bool,
    workers: usize,
    kind: u8,
    n: usize,
    flaw: Flaw,
    at: usize,
    sorted: bool,
    pauses: Vec<u16>,
}

fn flawed() -> BoxedStrategy<Flawed> {
    let flaw = proptest::sample::select(vec![
        Flaw::None,
        Flaw::InputSer,
        Flaw::InputDe,
        Flaw::OutputSer,
        Flaw::OutputDe,
        Flaw::OpSer,
        Flaw::OpDe,
    ]);
    (
        any::<bool>(),
        1usize..5,
        0u8..3,
        1usize..25,
        flaw,
        any::<usize>(),
        any::<bool>(),
        vec(prop_oneof![Just(0u16), 0u16..100], 0..4),
    )
        .prop_map(
            |(cbor, workers, kind, n, flaw, at, sorted, pauses)| Flawed {
                cbor,
                workers,
                kind,
                n: if kind == 1 { 1 } else { n },
                flaw,
                at,
                sorted,
                pauses,
            },
        )
        .boxed()
}

fn run_flawed(c: &Flawed, rec: &mut Rec) -> Verdict {
    let at = c.at % c.n;
    let fine = |value| Brittle {
        value,
        no_ser: false,
        no_de: false,
    };
    let items: Vec<anyhow::Result<(usize, Brittle)>> = (0..c.n)
        .map(|i| {
            Ok((
                i,
                Brittle {
                    value: i as i64,
                    no_ser: c.flaw == Flaw::InputSer && i == at,
                    no_de: c.flaw == Flaw::InputDe && i == at,
                },
            ))
        })
        .collect();
    let only = |f: Flaw| {
        if c.flaw == f {
            vec![at as i64]
        } else {
            vec![]
        }
    };
    let op = leak(BrittleOp {
        own: Brittle {
            value: 1,
            no_ser: c.flaw == Flaw::OpSer,
            no_de: c.flaw == Flaw::OpDe,
        },
        bad_ser: only(Flaw::OutputSer),
        bad_de: only(Flaw::OutputDe),
    });
    let sum = leak(BrittleSum {
        bad_ser: c.flaw == Flaw::OutputSer,
        bad_de: c.flaw == Flaw::OutputDe,
    });
    // Folds of a single element execute nothing.
    let fails = match c.kind {
        2 => c.n > 1 && !matches!(c.flaw, Flaw::None | Flaw::OpSer | Flaw::OpDe),
        _ => c.flaw != Flaw::None,
    };
    rec.label(format!("{:?}", c.flaw));
    rec.label(["map", "literal", "fold"][c.kind as usize]);
    rec.nontrivial(fails && c.n > 1);
    vrt::run(1, async {
        let rt = emulator(c.cbor, c.workers).await?;
        let sorted = c.sorted;
        let (kind, n) = (c.kind, c.n);
        let (input, s) = Paced(c.pauses.clone()).of(items);
        let lit = Brittle {
            value: 0,
            no_ser: c.flaw == Flaw::InputSer,
            no_de: c.flaw == Flaw::InputDe,
        };
        let mut job = Job::spawn(input, |caller| async move {
            match kind {
                0 => {
                    let s = s.map(op).run(&rt).await.map_err(|e| format!("{e:#}"))?;
                    if sorted {
                        caller.sorted(s).await
                    } else {
                        caller.consume(s, false).await
                    }
                }
                1 => {
                    let v = Literal(lit)
                        .map(op)
                        .run(&rt)
                        .await
                        .map_err(|e| format!("{e:#}"))?;
                    caller.value(&v.0);
                    Ok(())
                }
                _ => {
                    let v = s.fold(sum).run(&rt).await.map_err(|e| format!("{e:#}"))?;
                    caller.value(&v);
                    Ok(())
                }
            }
        });
        completion(&mut job).await;
        let seen = job.seen.lock().unwrap().clone();
        let Some(done) = seen.done else {
            return Err("not finished".to_string());
        };
        let items: BTreeMap<usize, String> = seen.items.iter().cloned().collect();
        ensure!(items.len() == seen.items.len(), "duplicates in {:?}", seen.items);
        for (i, x) in &items {
            let want = format!("{:?}", fine(*i as i64 + 1));
            ensure!(*x == want, "element {i} became {x}");
        }
        if fails {
            let Err(e) = done else {
                return Err(format!("success in spite of {:?} at {at}", c.flaw));
            };
            ensure!(
                !e.starts_with("panic:") && !e.starts_with("livelock"),
                "{e}"
            );
            if kind == 0 && !matches!(c.flaw, Flaw::OpSer | Flaw::OpDe) {
                ensure!(!items.contains_key(&at), "element {at} was yielded");
            }
            if c.cbor {
                let want = match c.flaw {
                    Flaw::InputSer | Flaw::OutputSer | Flaw::OpSer => NO_SER,
                    _ => NO_DE,
                };
                ensure!(e.contains(want), "the error {e:?} lacks {want:?}");
            }
        } else {
            ensure!(done == Ok(()), "failed with {done:?}");
            match kind {
                0 => ensure!(items.len() == n, "{} items instead of {n}", items.len()),
                1 => ensure!(
                    seen.value == Some(format!("{:?}", fine(1))),
                    "the value is {:?}",
                    seen.value
                ),
                _ => {
                    let total = (0..n as i64).sum();
                    // A single element is returned as is.
                    let want = Brittle {
                        value: total,
                        no_ser: n == 1 && c.flaw == Flaw::InputSer,
                        no_de: n == 1 && c.flaw == Flaw::InputDe,
                    };
                    ensure!(
                        seen.value == Some(format!("{want:?}")),
                        "the value is {:?} instead of {want:?}",
                        seen.value
                    )
                }
            }
        }
        Ok(())
    })?
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        assumptions: &[
            "the caller stops at the first error of a stream, as try_collect does",
            "failures of several jobs at a time are not covered: a failure in terminate mode stops all workers by design",
            "the message of a panic is the one the crate gives it, not its payload; the text of a custom error of a (de)serializer is only required of CBOR, as postcard discards it",
        ],
        facets: vec![
            facet(
                "driven",
                "maps, chained maps, literals, folds and folds of maps over up to 25 elements with generated fatal errors, panics, exhausted and successful retries and input errors, driven by hand; non-trivial: something fails and some tasks succeed",
                Budget::new(40_000, 1_200_000).shrink(20_000),
                || {
                    (any::<bool>(), spec(25), steps(90))
                        .prop_map(|(cbor, spec, steps)| Driven { cbor, spec, steps })
                        .boxed()
                },
                run_driven,
            ),
            facet(
                "emulated",
                "the same on one to five emulated workers with generated pauses in the input; non-trivial: something fails and at least two tasks are executed",
                Budget::new(12_000, 400_000),
                || {
                    let pause = prop_oneof![2 => Just(0u16), 1 => 0u16..100, 1 => 0u16..20_000];
                    (any::<bool>(), 1usize..6, spec(40), vec(pause, 0..5))
                        .prop_map(|(cbor, workers, spec, pauses)| Emulated {
                            cbor,
                            workers,
                            spec,
                            pauses,
                        })
                        .boxed()
                },
                run_emulated,
            ),
            facet(
                "large",
                "up to four failures among a hundred to 1500 elements, on emulated workers; non-trivial: something fails and at least two tasks are executed",
                Budget::new(160, 6_000).shrink(300),
                large,
                run_emulated,
            ),
            facet(
                "unserializable",
                "maps, literals and folds in which one input, output or the operation itself fails to serialize or to deserialize; non-trivial: that leads to a failure, with several elements",
                Budget::new(12_000, 300_000),
                flawed,
                run_flawed,
            ),
        ],
    }
}

// --- Ignored failures ----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tolerant {
    plans: Vec<Plan>,
    pauses: Vec<u16>,
    /// Starts after so many ms.
    start: u16,
    fold: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ignored {
    cbor: bool,
    workers: usize,
    jobs: Vec<Tolerant>,
    last: Vec<Plan>,
}

fn tolerable(p: Plan) -> Plan {
    match p {
        // Panics terminate.
        Plan::Panic => Plan::Fatal,
        p => p,
    }
}

fn plans(max: usize, fails: u32) -> BoxedStrategy<Vec<Plan>> {
    vec(plan(fails).prop_map(tolerable), 0..max).boxed()
}

fn ignored() -> BoxedStrategy<Ignored> {
    let job = || {
        (
            plans(20, 5),
            vec(prop_oneof![2 => Just(0u16), 1 => 0u16..100], 0..3),
            prop_oneof![2 => Just(0u16), 1 => 0u16..200],
            proptest::bool::weighted(0.2),
        )
            .prop_map(|(plans, pauses, start, fold)| Tolerant {
                plans,
                pauses,
                start,
                fold,
            })
    };
    (any::<bool>(), 1usize..5, vec(job(), 1..4), plans(10, 0))
        .prop_map(|(cbor, workers, jobs, last)| Ignored {
            cbor,
            workers,
            jobs,
            last,
        })
        .boxed()
}

/// The item of the mapped stream at the given index.
fn item(k: usize) -> (usize, String) {
    (k, format!("{:?}", (k as u64, scripted_value(k as i64))))
}

fn judge_tolerant(plans: &[Plan], fold: bool, guard: &RunGuard, seen: &Seen) -> Verdict {
    let from = usize::from(fold).min(plans.len());
    let failing = plans[from..].iter().any(Plan::fails);
    if fold {
        match &seen.done {
            None if failing => {}
            Some(Err(_)) if failing => {}
            Some(Ok(())) if !failing => {
                let seg: Seg = (0..plans.len()).map(|k| segment(k, k as i64)[0].clone()).collect();
                ensure!(
                    seen.value == Some(format!("{seg:?}")),
                    "the fold's value is {:?}",
                    seen.value
                );
            }
            d => return Err(format!("a fold ended with {d:?}, {:?}", seen.value)),
        }
    } else {
        let mut items = seen.items.clone();
        items.sort();
        let want: Vec<_> = (0..plans.len())
            .filter(|k| !plans[*k].fails())
            .map(item)
            .collect();
        ensure!(
            items == want,
            "the stream yielded {items:?} instead of {want:?}"
        );
        ensure!(seen.errors.is_empty(), "it yielded {:?}", seen.errors);
        match &seen.done {
            Some(Ok(())) => {}
            None if failing => {}
            d => return Err(format!("the stream ended with {d:?}")),
        }
    }
    for (k, p) in plans.iter().enumerate().skip(from) {
        let got = guard.run.attempts_of(k as u64);
        if fold && failing {
            continue;
        }
        ensure!(
            got == p.attempts(),
            "{got} instead of {} attempts at task {k} ({p:?})",
            p.attempts()
        );
    }
    Ok(())
}

fn tolerant(j: &Tolerant, rt: &std::sync::Arc<Runtime>, guard: &RunGuard) -> Job {
    let n = j.plans.len();
    let rt = rt.clone();
    let source = Paced(j.pauses.clone());
    if j.fold {
        let concat = leak(ScriptedConcat { run: guard.id });
        let (input, s) = source.of((0..n).map(|k| Ok((k, segment(k, k as i64)))).collect());
        Job::spawn(input, |c| async move {
            c.value(&s.fold(concat).run(&rt).await.map_err(|e| format!("{e:#}"))?);
            Ok(())
        })
    } else {
        let op = leak(Scripted { run: guard.id });
        let (input, s) = source.of((0..n).map(|k| Ok((k, (k as u64, k as i64)))).collect());
        Job::spawn(input, |c| async move {
            let s = s.map(op).run(&rt).await.map_err(|e| format!("{e:#}"))?;
            c.consume(s, true).await
        })
    }
}

fn run_ignored(c: &Ignored, rec: &mut Rec) -> Verdict {
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let mut running = vec![];
        let mut by_start: Vec<_> = c.jobs.iter().collect();
        by_start.sort_by_key(|j| j.start);
        let begin = tokio::time::Instant::now();
        for j in by_start {
            tokio::time::sleep_until(begin + Duration::from_millis(j.start as u64)).await;
            let guard = new_run(script(&j.plans, Fatality::Ignore));
            let mut job = tolerant(j, &pool.rt, &guard);
            job.open();
            running.push((j, guard, job));
        }
        // Long enough for whatever termination there might be.
        tokio::time::sleep(Duration::from_secs(150)).await;
        let mut failed = 0;
        for (j, guard, job) in &running {
            let seen = job.seen.lock().unwrap().clone();
            judge_tolerant(&j.plans, j.fold, guard, &seen)?;
            failed += j.plans.iter().filter(|p| p.fails()).count();
        }
        ensure!(
            pool.stopped() == 0,
            "a worker stopped: {:?}",
            pool.outcomes().await
        );
        // Business as usual afterwards.
        let guard = new_run(script(&c.last, Fatality::Ignore));
        let last = Tolerant {
            plans: c.last.clone(),
            pauses: vec![],
            start: 0,
            fold: false,
        };
        let mut job = tolerant(&last, &pool.rt, &guard);
        completion(&mut job).await;
        let seen = job.seen.lock().unwrap().clone();
        judge_tolerant(&c.last, false, &guard, &seen).map_err(|e| format!("afterwards: {e}"))?;
        rec.count("ignored failures", failed as u64);
        rec.label(format!("{} jobs", c.jobs.len()));
        rec.nontrivial(failed > 0 && c.jobs.iter().any(|j| j.plans.len() > 2));
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mixed {
    cbor: bool,
    workers: usize,
    /// Lease and plan of each task.
    tasks: Vec<(u8, Plan)>,
    leases: u8,
    /// Let the workers proceed after tasks at these positions.
    pause: Vec<bool>,
}

/// Tasks of several jobs interleaved at will.
fn run_mixed(c: &Mixed, rec: &mut Rec) -> Verdict {
    let plans: Vec<Plan> = c.tasks.iter().map(|t| t.1.clone()).collect();
    let guard = new_run(script(&plans, Fatality::Ignore));
    vrt::run(1, async {
        let mut pool = Pool::new(c.cbor, c.workers).await?;
        let mut leases = vec![];
        for _ in 0..c.leases {
            leases.push(scripted(&pool.rt, guard.id).await?);
        }
        for (k, (l, _)) in c.tasks.iter().enumerate() {
            let meta = (k as u64, format!("task {k}"));
            leases[*l as usize % leases.len()]
                .send(meta, (k as u64, k as i64))
                .await?;
            if c.pause.get(k).copied().unwrap_or(false) {
                rest().await;
            }
        }
        tokio::time::sleep(Duration::from_secs(120)).await;
        for (l, lease) in leases.iter().enumerate() {
            let mut got = lease.answers();
            got.sort_by_key(|a| a.as_ref().map_or(0, |a| a.0 .0));
            let want: Vec<_> = c
                .tasks
                .iter()
                .enumerate()
                .filter(|(_, (at, p))| *at as usize % leases.len() == l && !p.fails())
                .map(|(k, _)| {
                    let meta = (k as u64, format!("task {k}"));
                    Ok((meta, (k as u64, scripted_value(k as i64))))
                })
                .collect();
            ensure!(
                got == want,
                "the answers of job {l} are {got:?} instead of {want:?}"
            );
        }
        for (k, p) in plans.iter().enumerate() {
            let got = guard.run.attempts_of(k as u64);
            ensure!(got == p.attempts(), "{got} attempts at task {k} ({p:?})");
        }
        ensure!(
            pool.stopped() == 0,
            "a worker stopped: {:?}",
            pool.outcomes().await
        );
        rec.nontrivial(plans.iter().any(Plan::fails) && plans.iter().any(|p| !p.fails()));
        Ok(())
    })?
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        assumptions: &[
            "whether a stream of which some results are never sent ends is left open",
            "panics terminate and are not covered here",
        ],
        facets: vec![
            facet(
                "directives",
                "one to three concurrent maps and folds on one to four workers in which tasks fail, at once or after retries, with the ignore strategy, and one more map afterwards; non-trivial: at least one ignored failure and a job of several tasks",
                Budget::new(8_000, 250_000),
                ignored,
                run_ignored,
            ),
            facet(
                "interleaved",
                "tasks of up to four jobs in generated order, some with ignored failures; non-trivial: some fail and some succeed",
                Budget::new(12_000, 300_000),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        vec((0u8..4, plan(5).prop_map(tolerable)), 1..30),
                        1u8..5,
                        vec(proptest::bool::weighted(0.2), 0..30),
                    )
                        .prop_map(|(cbor, workers, tasks, leases, pause)| Mixed {
                            cbor,
                            workers,
                            tasks,
                            leases,
                            pause,
                        })
                        .boxed()
                },
                run_mixed,
            ),
            facet(
                "many",
                "one to four jobs with a hundred to 1500 tasks, of which few or most fail with the ignore strategy; non-trivial: some fail and some succeed",
                Budget::new(120, 4_000).shrink(300),
                || {
                    (
                        any::<bool>(),
                        1usize..5,
                        1u8..5,
                        prop_oneof![100u64..300, 300u64..1500],
                        any::<u64>(),
                        prop_oneof![Just(3u64), Just(50), Just(97)],
                    )
                        .prop_map(|(cbor, workers, leases, n, seed, percent)| Mixed {
                            cbor,
                            workers,
                            tasks: (0..n)
                                .map(|k| {
                                    let h = (seed ^ k).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
                                    let plan = if h % 100 < percent {
                                        Plan::Fatal
                                    } else {
                                        Plan::Fine
                                    };
                                    ((h >> 8) as u8, plan)
                                })
                                .collect(),
                            leases,
                            pause: vec![],
                        })
                        .boxed()
                },
                run_mixed,
            ),
        ],
    }
}
