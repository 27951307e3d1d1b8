//! C08: a serialized task executes exactly the operation it was built from.
use std::{future::Future, pin::Pin};

use bytes::Bytes;
use ops2::{Input, Output, Twin};
use paladin::{
    operation::OperationError,
    serializer::Serializer,
    task::{AnyTask, Task, TaskOutput},
};
use proptest::{collection::vec, prelude::*};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;

use super::c10::serializer;
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{rich, Affine, Measure, Render, Rich, Text, Wrap},
    twins,
    vrt,
};

/// Operations may be identified by anything that can be serialized.
fn name<T: Serialize>(id: &T) -> Value {
    serde_json::to_value(id).expect("an identifier serializes")
}

/// Alters an identifier, provided that the result is one.
fn alter<T: Serialize + DeserializeOwned>(id: &mut T, f: impl FnOnce(&mut String)) {
    let altered = match name(id) {
        Value::String(mut s) => {
            f(&mut s);
            Value::String(s)
        }
        Value::Number(n) => {
            let mut s = n.to_string();
            f(&mut s);
            s.parse::<u64>().unwrap_or(s.len() as u64).into()
        }
        other => other,
    };
    if let Ok(altered) = serde_json::from_value(altered) {
        *id = altered;
    }
}

type Job = Pin<Box<dyn Future<Output = Verdict>>>;

/// An operation, with its type erased.
#[derive(Clone, Copy)]
pub struct Entry {
    tag: &'static str,
    build: fn(&Call, Serializer, u64) -> Result<AnyTask, String>,
    local: fn(Serializer, &[u8], &[u8]) -> Option<Output>,
    decode: fn(paladin::task::AnyTaskOutput) -> Result<(Rich, Output), String>,
}

pub fn entry<T: Twin + 'static>() -> Entry {
    Entry {
        tag: T::TAG,
        build: |c, s, key| {
            let op = T::make(c.p, &c.q);
            Task {
                routing_key: c.key.clone(),
                metadata: c.meta.clone(),
                op: &op,
                input: (key, c.x),
            }
            .as_any_task(s)
            .map_err(|e| format!("{e:#}"))
        },
        local: |s, op, input| {
            let op: T = s.from_bytes(op).ok()?;
            let (_, x): Input = s.from_bytes(input).ok()?;
            let (p, q) = op.parameters();
            Some((T::TAG.to_string(), p, q, x))
        },
        decode: |out| {
            let out: TaskOutput<T, Rich> = out.try_into().map_err(|e| format!("{e:#}"))?;
            Ok((out.metadata, out.output))
        },
    }
}

fn entries() -> Vec<Entry> {
    vec![
        entry::<ops2::Twin0>(),
        entry::<ops2::Twin1>(),
        entry::<ops2::Other>(),
        entry::<ops2::a::Twin0>(),
        entry::<ops2::a::Twin1>(),
        entry::<ops2::a::b::Twin0>(),
        entry::<ops2::a::b::Other>(),
        entry::<ops2::b::Twin0>(),
        entry::<ops2::b::a::Twin0>(),
        entry::<ops2::b::a::Twin1>(),
        entry::<ops2::twins::Twin0>(),
        entry::<ops2::twins::Twin1>(),
        entry::<ops2::twins::Other>(),
        entry::<ops2::case::twin>(),
        entry::<ops2::case::Twin>(),
        entry::<ops2::case::TWIN>(),
        entry::<ops2::case::Twin_>(),
        entry::<ops2::case::Twin10>(),
        entry::<ops2::case::Twin1>(),
        entry::<twins::Twin0>(),
        entry::<twins::Twin1>(),
        entry::<twins::Other>(),
        entry::<twins::a::Twin0>(),
        entry::<twins::a::Twin1>(),
        entry::<twins::a::b::Twin0>(),
        entry::<twins::a::b::Other>(),
        entry::<twins::b::Twin0>(),
        entry::<twins::b::a::Twin0>(),
        entry::<twins::b::a::Twin1>(),
        twins::local::first(),
        twins::local::second(),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    op: u8,
    p: i64,
    q: String,
    x: i64,
    meta: Rich,
    key: String,
    cbor: bool,
    /// The opaque form is encoded and decoded again: not, as postcard, as CBOR.
    hop: u8,
}

fn call() -> BoxedStrategy<Call> {
    (
        any::<u8>(),
        any::<i64>(),
        ".{0,10}",
        any::<i64>(),
        rich(),
        "[a-z0-9-]{0,10}",
        any::<bool>(),
        0u8..3,
    )
        .prop_map(|(op, p, q, x, meta, key, cbor, hop)| Call {
            op,
            p,
            q,
            x,
            meta,
            key,
            cbor,
            hop,
        })
        .boxed()
}

/// Carries the task from one process to another, as it were.
fn hop(task: AnyTask, how: u8) -> Result<AnyTask, String> {
    let s = match how {
        0 => return Ok(task),
        1 => Serializer::Postcard,
        _ => Serializer::Cbor,
    };
    let b = s.to_bytes(&task).map_err(|e| format!("{e:#}"))?;
    s.from_bytes(&b).map_err(|e| format!("{e:#}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    calls: Vec<Call>,
}

fn run_calls(c: &Calls, rec: &mut Rec) -> Verdict {
    let entries = entries();
    vrt::run(1, async {
        let jobs: Vec<Job> = c
            .calls
            .iter()
            .cloned()
            .map(|call| {
                let e = entries[call.op as usize % entries.len()];
                let job = async move {
                    let key = ops2::new_key();
                    let any = (e.build)(&call, serializer(call.cbor), key)?;
                    let any = hop(any, call.hop)?;
                    ensure!(
                        any.routing_key == call.key,
                        "the routing key {:?} became {:?}",
                        call.key,
                        any.routing_key
                    );
                    let out = any
                        .remote_execute(None)
                        .await
                        .map_err(|err| format!("{} failed: {err}", e.tag))?;
                    let (meta, out) = (e.decode)(out)?;
                    let want = (e.tag.to_string(), call.p, call.q.clone(), call.x);
                    ensure!(out == want, "the output is {out:?} instead of {want:?}");
                    ensure!(
                        meta == call.meta,
                        "the metadata {:?} became {meta:?}",
                        call.meta
                    );
                    let ran = ops2::executed(key);
                    ensure!(ran == [e.tag], "{} executed {ran:?}", e.tag);
                    Ok(())
                };
                Box::pin(job) as Job
            })
            .collect();
        for r in futures::future::join_all(jobs).await {
            r?;
        }
        rec.nontrivial(c.calls.len() > 1);
        Ok(())
    })?
}

// --- Tasks that aren't what they should be -------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Twist {
    /// The identifier of another operation.
    Other(u8),
    Unknown(String),
    /// The identifier loses or gains characters.
    Truncated(u8),
    Extended(String),
    Op(Vec<u8>),
    Input(Vec<u8>),
    OpFlip(u8, u8),
    InputFlip(u8, u8),
    OpCut(u8),
    InputCut(u8),
    Meta(Vec<u8>),
    /// The other serializer is declared.
    Serializer,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Twisted {
    call: Call,
    twists: Vec<Twist>,
}

fn twisted() -> BoxedStrategy<Twisted> {
    let bytes = || vec(any::<u8>(), 0..30);
    let twist = prop_oneof![
        2 => any::<u8>().prop_map(Twist::Other),
        1 => ".{0,20}".prop_map(Twist::Unknown),
        2 => any::<u8>().prop_map(Twist::Truncated),
        1 => "[a-z0-9:#]{1,4}".prop_map(Twist::Extended),
        1 => bytes().prop_map(Twist::Op),
        1 => bytes().prop_map(Twist::Input),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Twist::OpFlip(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Twist::InputFlip(a, b)),
        1 => any::<u8>().prop_map(Twist::OpCut),
        1 => any::<u8>().prop_map(Twist::InputCut),
        1 => bytes().prop_map(Twist::Meta),
        1 => Just(Twist::Serializer),
    ];
    (call(), vec(twist, 1..3))
        .prop_map(|(call, twists)| Twisted { call, twists })
        .boxed()
}

fn run_twisted(c: &Twisted, rec: &mut Rec) -> Verdict {
    let entries = entries();
    let at = c.call.op as usize % entries.len();
    // One key per case is enough, unless the input is damaged: then it can be
    // anything.
    let key = ops2::new_key();
    let tasks: Vec<AnyTask> = entries
        .iter()
        .map(|e| (e.build)(&c.call, Serializer::Postcard, key))
        .collect::<Result<_, _>>()?;
    let mut any = (entries[at].build)(&c.call, serializer(c.call.cbor), key)?;
    let flip = |b: &Bytes, i: u8, x: u8| -> Bytes {
        let mut v = b.to_vec();
        if !v.is_empty() {
            let n = v.len();
            v[i as usize % n] ^= x;
        }
        v.into()
    };
    let cut = |b: &Bytes, i: u8| b.slice(0..b.len() - 1 - i as usize % b.len().max(1));
    for t in &c.twists {
        match t {
            Twist::Other(i) => {
                any.operation_id = tasks[*i as usize % tasks.len()].operation_id.clone();
            }
            Twist::Unknown(s) => alter(&mut any.operation_id, |id| *id = s.clone()),
            Twist::Truncated(i) => alter(&mut any.operation_id, |id| {
                if let Some((at, _)) = id.char_indices().nth(*i as usize % id.len().max(1)) {
                    id.remove(at);
                }
            }),
            Twist::Extended(s) => alter(&mut any.operation_id, |id| id.push_str(s)),
            Twist::Op(b) => any.op = b.clone().into(),
            Twist::Input(b) => any.input = b.clone().into(),
            Twist::OpFlip(i, x) => any.op = flip(&any.op, *i, *x),
            Twist::InputFlip(i, x) => any.input = flip(&any.input, *i, *x),
            Twist::OpCut(i) if !any.op.is_empty() => any.op = cut(&any.op, *i),
            Twist::InputCut(i) if !any.input.is_empty() => any.input = cut(&any.input, *i),
            Twist::OpCut(_) | Twist::InputCut(_) => {}
            Twist::Meta(b) => any.metadata = b.clone().into(),
            Twist::Serializer => any.serializer = serializer(!c.call.cbor),
        }
    }
    let any = hop(any, c.call.hop)?;
    // What the task says, if anything.
    let id = name(&any.operation_id);
    let named = tasks.iter().position(|t| name(&t.operation_id) == id);
    // Numbers may happen to be those of other operations of the harness.
    let known = named.is_some() || !id.is_string();
    let want = named.and_then(|i| (entries[i].local)(any.serializer, &any.op, &any.input));
    let decoded_key = any
        .serializer
        .from_bytes::<Input>(&any.input)
        .map_or(key, |i| i.0);
    let (meta, ser) = (any.metadata.clone(), any.serializer);
    // A damaged key may be that of another case.
    let key = (decoded_key == key).then_some(key);
    vrt::run(1, async {
        let r = any.remote_execute(None).await;
        let ran = key.map(ops2::executed);
        match (r, want) {
            (Ok(out), Some(want)) => {
                ensure!(out.metadata == meta, "the metadata changed");
                let got: Output = out
                    .serializer
                    .from_bytes(&out.output)
                    .map_err(|e| format!("{e:#}"))?;
                ensure!(got == want, "the output is {got:?} instead of {want:?}");
                ensure!(
                    format!("{:?}", out.serializer) == format!("{ser:?}"),
                    "the serializer became {:?}",
                    out.serializer
                );
                if let Some(ran) = ran {
                    ensure!(ran == [want.0.clone()], "{} executed {ran:?}", want.0);
                }
                rec.label("still a valid task");
            }
            (Err(e), None) => {
                ensure!(
                    matches!(e, OperationError::Fatal { .. }),
                    "not a fatal error: {e:?}"
                );
                if let Some(ran) = ran {
                    ensure!(ran.is_empty(), "an invalid task executed {ran:?}");
                }
                rec.label(if known {
                    "undecodable"
                } else {
                    "unknown operation"
                });
                rec.nontrivial(true);
            }
            // Some other operation of this program.
            (Ok(_), None) if known && named.is_none() => {}
            (Ok(_), None) => {
                return Err("an invalid task was executed successfully".to_string())
            }
            (Err(e), Some(want)) => {
                return Err(format!("a task computing {want:?} failed: {e}"))
            }
        }
        Ok(())
    })?
}

/// Operations and monoids of different types at a time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mixed {
    cbor: bool,
    a: i64,
    b: i64,
    x: i64,
    s: String,
    rich: Rich,
    meta: (u64, String),
}

async fn through<Op>(c: &Mixed, op: Op, input: Op::Input) -> Result<String, String>
where
    Op: paladin::operation::Operation + 'static,
{
    let t = Task {
        routing_key: String::new(),
        metadata: c.meta.clone(),
        op: &op,
        input,
    };
    let any = t
        .as_any_task(serializer(c.cbor))
        .map_err(|e| format!("{e:#}"))?;
    let out = any.remote_execute(None).await.map_err(|e| e.to_string())?;
    let out: TaskOutput<Op, (u64, String)> = out.try_into().map_err(|e| format!("{e:#}"))?;
    ensure!(out.metadata == c.meta, "metadata {:?}", out.metadata);
    Ok(format!("{:?}", out.output))
}

fn run_mixed(c: &Mixed, rec: &mut Rec) -> Verdict {
    use paladin::operation::Operation as _;
    vrt::run(1, async {
        let affine = Affine { a: c.a, b: c.b };
        let render = Render {
            prefix: c.s.clone(),
        };
        let wrap = Wrap { tag: c.a as u32 };
        macro_rules! same {
            ($op:expr, $input:expr) => {{
                let want = format!("{:?}", $op.execute($input, None).expect("succeeds"));
                let got = through(c, $op, $input).await?;
                ensure!(got == want, "the output is {got} instead of {want}");
            }};
        }
        same!(affine.clone(), c.x);
        same!(render.clone(), c.x);
        same!(Measure, c.s.clone());
        same!(wrap.clone(), c.rich.clone());
        same!(Text, (c.s.clone(), c.x.to_string()));
        rec.nontrivial(c.a != 0 && !c.s.is_empty());
        Ok(())
    })?
}

pub fn property() -> Property {
    Property {
        id: "C08",
        assumptions: &[
            "the operations linked into the harness: some thirty of its own and of a second crate, in nested modules and functions, many under equal names",
        ],
        facets: vec![
            facet(
                "calls",
                "up to eight tasks at a time, of any of some thirty operations that look alike, encoded with either serializer and carried over; non-trivial: at least two tasks",
                Budget::new(40_000, 1_500_000),
                || {
                    vec(call(), 0..9)
                        .prop_map(|calls| Calls { calls })
                        .boxed()
                },
                run_calls,
            ),
            facet(
                "twisted",
                "tasks with altered identifiers, operations, inputs, metadata or serializers, compared to what they say when decoded; non-trivial: the task is invalid",
                Budget::new(60_000, 2_000_000),
                twisted,
                run_twisted,
            ),
            facet(
                "mixed",
                "five different operations and monoids with generated parameters, inputs and metadata; non-trivial: parameters that matter",
                Budget::new(20_000, 600_000),
                || {
                    (
                        any::<bool>(),
                        any::<i64>(),
                        any::<i64>(),
                        any::<i64>(),
                        ".{0,12}",
                        rich(),
                        any::<(u64, String)>(),
                    )
                        .prop_map(|(cbor, a, b, x, s, rich, meta)| Mixed {
                            cbor,
                            a,
                            b,
                            x,
                            s,
                            rich,
                            meta,
                        })
                        .boxed()
                },
                run_mixed,
            ),
        ],
    }
}
