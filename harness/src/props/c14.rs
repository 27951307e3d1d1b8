//! C14: the contiguous queue pairs adjacent values and conserves them.
use std::{collections::BTreeMap, sync::Mutex};

use paladin::contiguous::{Contiguous, ContiguousQueue};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure, sched,
};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Val {
    lo: i64,
    hi: i64,
    /// Owned heap data, such that duplication or tearing is noticed.
    cells: Vec<i64>,
}

impl Val {
    fn new(lo: i64, hi: i64) -> Self {
        Val {
            lo,
            hi,
            cells: (lo..=hi).collect(),
        }
    }

    fn merge(mut self, mut other: Val) -> Val {
        self.cells.append(&mut other.cells);
        Val {
            lo: self.lo,
            hi: other.hi,
            cells: self.cells,
        }
    }

    fn intact(&self) -> bool {
        self.cells == (self.lo..=self.hi).collect::<Vec<_>>()
    }
}

impl Contiguous for Val {
    type Key = i64;

    fn is_contiguous(&self, other: &Self) -> bool {
        self.hi + 1 == other.lo || other.hi + 1 == self.lo
    }

    fn key(&self) -> &i64 {
        &self.lo
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// Offer the next segment.
    Offer,
    /// Queue the next segment without pairing.
    Queue,
    /// Offer a segment obtained earlier by pairing or dequeuing.
    Reoffer(u8),
    Dequeue(u8),
    DequeueAbsent(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seq {
    segs: Vec<(i64, i64)>,
    initial: usize,
    steps: Vec<Step>,
}

/// Disjoint segments in random order, some of them adjacent.
fn segs(max: usize) -> BoxedStrategy<Vec<(i64, i64)>> {
    (
        prop_oneof![
            Just(0i64),
            -50i64..50,
            Just(i64::MIN + 10),
            Just(i64::MAX - 50 * max as i64)
        ],
        vec(
            (
                prop_oneof![5 => Just(1i64), 3 => 2i64..5, 1 => 5i64..40],
                prop_oneof![6 => Just(0i64), 1 => 1i64..3],
            ),
            1..max,
        ),
    )
        .prop_map(|(base, parts)| {
            let mut at = base;
            parts
                .into_iter()
                .map(|(len, gap)| {
                    let lo = at + gap;
                    at = lo + len;
                    (lo, at - 1)
                })
                .collect::<Vec<_>>()
        })
        .prop_shuffle()
        .boxed()
}

fn seq() -> BoxedStrategy<Seq> {
    let step = prop_oneof![
        8 => Just(Step::Offer),
        2 => Just(Step::Queue),
        4 => any::<u8>().prop_map(Step::Reoffer),
        1 => any::<u8>().prop_map(Step::Dequeue),
        1 => (-60i64..200).prop_map(Step::DequeueAbsent),
    ];
    (segs(30), 0usize..4, vec(step, 0..90))
        .prop_map(|(segs, initial, steps)| Seq {
            segs,
            initial,
            steps,
        })
        .boxed()
}

fn run_seq(c: &Seq, rec: &mut Rec) -> Verdict {
    let mut fresh: Vec<Val> = c
        .segs
        .iter()
        .rev()
        .map(|(lo, hi)| Val::new(*lo, *hi))
        .collect();
    let mut model: BTreeMap<i64, Val> = BTreeMap::new();
    let mut held: Vec<Val> = Vec::new();
    let mut init = Vec::new();
    for _ in 0..c.initial {
        if let Some(v) = fresh.pop() {
            model.insert(v.lo, v.clone());
            init.push(v);
        }
    }
    let q: ContiguousQueue<Val> = if c.initial == 0 {
        ContiguousQueue::new()
    } else {
        ContiguousQueue::from(init)
    };
    let mut pairs = 0;

    let neighbours = |model: &BTreeMap<i64, Val>, v: &Val| -> (Option<Val>, Option<Val>) {
        let left = model
            .range(..v.lo)
            .next_back()
            .map(|x| x.1.clone())
            .filter(|x| x.is_contiguous(v));
        let right = model.get(&(v.hi + 1)).cloned();
        (left, right)
    };

    for step in &c.steps {
        match step {
            Step::Offer | Step::Reoffer(_) => {
                let v = match step {
                    Step::Offer => fresh.pop(),
                    Step::Reoffer(k) if !held.is_empty() => {
                        let k = *k as usize % held.len();
                        Some(held.swap_remove(k))
                    }
                    _ => None,
                };
                let Some(v) = v else { continue };
                let (left, right) = neighbours(&model, &v);
                match q.acquire_contiguous_pair_or_queue(v.clone()) {
                    None => {
                        ensure!(
                            left.is_none() && right.is_none(),
                            "offering {v:?} queued it although a contiguous neighbour was queued: {left:?} / {right:?}"
                        );
                        model.insert(v.lo, v);
                    }
                    Some((l, r)) => {
                        let as_left = Some(&l) == left.as_ref() && r == v;
                        let as_right = Some(&r) == right.as_ref() && l == v;
                        ensure!(
                            as_left || as_right,
                            "offering {v:?} returned ({l:?}, {r:?}), expected it with {left:?} or {right:?}"
                        );
                        model.remove(&if as_left { l.lo } else { r.lo });
                        rec.label_if(left.is_some() && right.is_some(), "both neighbours");
                        held.push(l.merge(r));
                        pairs += 1;
                    }
                }
            }
            Step::Queue => {
                let Some(v) = fresh.pop() else { continue };
                model.insert(v.lo, v.clone());
                q.queue(v);
            }
            Step::Dequeue(k) => {
                if model.is_empty() {
                    continue;
                }
                let key = *model.keys().nth(*k as usize % model.len()).unwrap();
                let want = model.remove(&key);
                let got = q.dequeue(&key);
                ensure!(got == want, "dequeue({key}) returned {got:?}, not {want:?}");
                held.extend(want);
            }
            Step::DequeueAbsent(key) => {
                let want = model.remove(key);
                let got = q.dequeue(key);
                ensure!(got == want, "dequeue({key}) returned {got:?}, not {want:?}");
                held.extend(want);
            }
        }
    }
    for (key, want) in &model {
        let got = q.dequeue(key);
        ensure!(
            got.as_ref() == Some(want),
            "at the end, dequeue({key}) returned {got:?}, not {want:?}"
        );
        ensure!(
            q.dequeue(key).is_none(),
            "the value at {key} has been dequeued twice"
        );
    }
    for (lo, _) in &c.segs {
        if let Some(x) = q.dequeue(lo) {
            return Err(format!("{x:?} shouldn't be in the queue"));
        }
    }
    for v in &held {
        ensure!(v.intact(), "{v:?} has been paired incorrectly");
    }
    rec.count("pairs", pairs);
    rec.nontrivial(pairs >= 1 && model.len() + held.len() >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    segs: Vec<(i64, i64)>,
    /// Segments queued beforehand.
    initial: usize,
    threads: u8,
    decisions: Vec<u8>,
}

fn par() -> BoxedStrategy<Par> {
    (segs(12), 0usize..3, 2u8..4, vec(0u8..6, 0..120))
        .prop_map(|(segs, initial, threads, decisions)| Par {
            segs,
            initial,
            threads,
            decisions,
        })
        .boxed()
}

fn run_par(c: &Par, rec: &mut Rec) -> Verdict {
    let q: ContiguousQueue<Val> = ContiguousQueue::new();
    let initial = c.initial.min(c.segs.len());
    for (lo, hi) in &c.segs[..initial] {
        q.queue(Val::new(*lo, *hi));
    }
    let rest = &c.segs[initial..];
    let bad: Mutex<Vec<String>> = Default::default();
    let pairs = Mutex::new(0u64);
    let threads = (0..c.threads as usize)
        .map(|t| {
            let (q, bad, pairs) = (&q, &bad, &pairs);
            let mine: Vec<_> = rest
                .iter()
                .skip(t)
                .step_by(c.threads as usize)
                .cloned()
                .collect();
            Box::new(move || {
                for (lo, hi) in mine {
                    let mut v = Val::new(lo, hi);
                    while let Some((l, r)) = q.acquire_contiguous_pair_or_queue(v.clone()) {
                        *pairs.lock().unwrap() += 1;
                        if l.hi + 1 != r.lo || (l != v && r != v) {
                            bad.lock()
                                .unwrap()
                                .push(format!("offering {v:?} returned ({l:?}, {r:?})"));
                            return;
                        }
                        v = l.merge(r);
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let s = sched::run(&c.decisions, |_| true, threads)?;
    if let Some(b) = bad.lock().unwrap().first() {
        return Err(b.clone());
    }
    // Whatever has not been paired up must still be there.
    let mut cells: Vec<i64> = Vec::new();
    let mut starts: Vec<i64> = c.segs.iter().map(|s| s.0).collect();
    starts.sort();
    for lo in starts {
        while let Some(v) = q.dequeue(&lo) {
            ensure!(v.lo == lo && v.intact(), "{v:?} has been corrupted");
            cells.extend(v.cells);
        }
    }
    cells.sort();
    let mut want: Vec<i64> = c.segs.iter().flat_map(|(lo, hi)| *lo..=*hi).collect();
    want.sort();
    ensure!(
        cells == want,
        "values have been lost or duplicated: left {cells:?}, expected {want:?}"
    );
    let pairs = *pairs.lock().unwrap();
    rec.count("pairs", pairs);
    rec.count("switches", s.switches);
    rec.label_if(s.free, "fell back to free running");
    rec.nontrivial(pairs >= 1 && s.switches >= 2);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C14",
        assumptions: &[
            "values of distinct, non-overlapping segments are queued (as directives do)",
            "two contiguous values offered concurrently may both be queued; only conservation and adjacency are required then",
            "interleavings are explored at the granularity of skip map and cell accesses on a sequentially consistent memory",
        ],
        facets: vec![
            facet(
                "sequential",
                "random segments (with gaps) offered, queued, re-offered after pairing and dequeued in random order, compared step by step with an ordered-map model; non-trivial: at least one pair was returned and two values remained",
                Budget::new(200_000, 4_000_000),
                seq,
                run_seq,
            ),
            facet(
                "volume",
                "the same with up to 600 segments; non-trivial: at least one pair was returned and two values remained",
                Budget::new(1_500, 40_000).shrink(2000),
                || {
                    let step = prop_oneof![
                        6 => Just(Step::Offer),
                        4 => Just(Step::Queue),
                        3 => any::<u8>().prop_map(Step::Reoffer),
                        1 => any::<u8>().prop_map(Step::Dequeue),
                    ];
                    (segs(600), 0usize..300, vec(step, 0..1200))
                        .prop_map(|(segs, initial, steps)| Seq {
                            segs,
                            initial,
                            steps,
                        })
                        .boxed()
                },
                run_seq,
            ),
            facet(
                "concurrent",
                "2-3 threads offering interleaved parts of a partition and re-offering the pairs they get, under a generated schedule; non-trivial: a pair was returned and at least two context switches happened",
                Budget::new(40_000, 1_000_000),
                par,
                run_par,
            ),
        ],
    }
}
