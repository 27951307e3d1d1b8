//! C09: serialization round-trips and decoding never panics.
use std::{
    collections::{BTreeMap, HashMap},
    fmt::Debug,
    ops::RangeInclusive,
};

use bytes::Bytes;
use paladin::{
    operation::Operation,
    runtime::CommandIpc,
    serializer::{Serializable, Serializer},
    task::{AnyTask, AnyTaskOutput, AnyTaskResult, Task, TaskOutput},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c10::serializer;
use crate::{
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    ops::{rich, Affine, Compose, Rich, Text, Wrap},
};

const BOTH: [Serializer; 2] = [Serializer::Postcard, Serializer::Cbor];

/// Types beyond those of `Rich`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Zoo {
    ints: (i8, i16, i32, i64, i128),
    nats: (u8, u16, u32, u64, u128),
    size: (usize, isize),
    float: f32,
    range: RangeInclusive<usize>,
    map: BTreeMap<i16, Vec<Option<u64>>>,
    table: Table,
    result: Result<Option<String>, (bool, char)>,
    unit: (),
    array: [[u8; 3]; 2],
    boxed: Box<(String, Bytes)>,
    newtype: Newtype,
    marker: Marker,
    empty: Empty,
}

/// A hash map whose debug output is deterministic.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct Table(HashMap<u32, String>);

impl Debug for Table {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().collect::<BTreeMap<_, _>>()).finish()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Newtype(Vec<(i64, Option<bool>)>);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Marker;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Empty {}

fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => (0u32..64, -2i64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add_signed(d)),
        1 => 0u64..300,
    ]
    .boxed()
}

fn zoo() -> BoxedStrategy<Zoo> {
    let e = edge_u64;
    (
        (e(), e(), e(), e(), e(), e()),
        (
            any::<f32>().prop_filter("JSON has finite numbers only", |f| f.is_finite()),
            any::<(bool, char)>(),
            any::<bool>(),
            any::<Option<String>>(),
        ),
        proptest::collection::btree_map(
            any::<i16>(),
            vec(proptest::option::of(e()), 0..4),
            0..4,
        ),
        proptest::collection::hash_map(any::<u32>(), ".{0,6}", 0..4),
        any::<[[u8; 3]; 2]>(),
        (".{0,10}", vec(any::<u8>(), 0..300)),
        vec((any::<i64>(), any::<Option<bool>>()), 0..4),
    )
        .prop_map(
            |((a, b, c, d, e, f), (float, err, ok, text), map, table, array, boxed, newtype)| Zoo {
                ints: (
                    a as i8,
                    b as i16,
                    c as i32,
                    d as i64,
                    (e as i128).wrapping_mul(f as i128).wrapping_neg(),
                ),
                nats: (f as u8, e as u16, d as u32, c, (b as u128) << 64 | a as u128),
                size: (a as usize, b as isize),
                float,
                range: (a.min(b) as usize)..=(a.max(b) as usize),
                map,
                table: Table(table),
                result: if ok { Ok(text) } else { Err(err) },
                unit: (),
                array,
                boxed: Box::new((boxed.0, boxed.1.into())),
                newtype: Newtype(newtype),
                marker: Marker,
                empty: Empty {},
            },
        )
        .boxed()
}

/// Nested values; cases list the layers since JSON itself is limited in depth.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Deep {
    Leaf(u64),
    Boxed(Box<Deep>),
    Listed(Vec<Deep>),
    Named { before: u8, inner: Box<Deep>, after: String },
    Mapped(BTreeMap<String, Deep>),
    Paired(Option<Box<(Deep, u16)>>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    layers: Vec<u8>,
    leaf: u64,
    /// The length of a flat collection beside the nested one.
    long: u32,
}

fn nest() -> BoxedStrategy<Nest> {
    // CBOR is limited to a depth of 256; a layer takes at most four of it.
    (
        vec(any::<u8>(), 0..60),
        edge_u64(),
        prop_oneof![6 => 0u32..50, 1 => 250u32..260, 1 => 65_530u32..65_540, 1 => 0u32..200_000],
    )
        .prop_map(|(layers, leaf, long)| Nest { layers, leaf, long })
        .boxed()
}

fn run_nest(c: &Nest, rec: &mut Rec) -> Verdict {
    let mut v = Deep::Leaf(c.leaf);
    for (i, l) in c.layers.iter().enumerate() {
        v = match l % 5 {
            0 => Deep::Boxed(Box::new(v)),
            1 => Deep::Listed(if l & 64 > 0 { vec![v, Deep::Leaf(7)] } else { vec![v] }),
            2 => Deep::Named {
                before: *l,
                inner: Box::new(v),
                after: format!("{i}"),
            },
            3 => Deep::Mapped([(format!("k{l}"), v)].into()),
            _ => Deep::Paired(Some(Box::new((v, i as u16)))),
        };
    }
    roundtrip_eq(&v)?;
    let long: Vec<u64> = (0..c.long as u64).map(|x| x.wrapping_mul(0x9e3779b97f4a7c15) >> (x % 64)).collect();
    let text: String = long.iter().map(|x| char::from(b'a' + (x % 26) as u8)).collect();
    let raw: Bytes = long.iter().map(|x| *x as u8).collect::<Vec<_>>().into();
    roundtrip_eq(&(long, text, raw, v))?;
    rec.label_if(c.layers.len() >= 20, "at least 20 layers");
    rec.label_if(c.long > 65_535, "more than 65535 elements");
    rec.nontrivial(c.layers.len() >= 8 || c.long > 200);
    Ok(())
}

fn roundtrip<T: Serializable + Debug>(v: &T) -> Verdict {
    for s in BOTH {
        let bytes = s
            .to_bytes(v)
            .map_err(|e| format!("{s}: encoding {v:?} failed: {e}"))?;
        let back: T = s
            .from_bytes(&bytes)
            .map_err(|e| format!("{s}: decoding the encoding of {v:?} failed: {e}"))?;
        // Debug output shows every part of the values used here.
        ensure!(
            format!("{back:?}") == format!("{v:?}"),
            "{s}: {v:?} came back as {back:?}"
        );
        ensure!(
            s.to_bytes(v).ok() == Some(bytes),
            "{s}: encoding {v:?} twice gave different bytes"
        );
    }
    Ok(())
}

fn roundtrip_eq<T: Serializable + Debug + PartialEq>(v: &T) -> Verdict {
    for s in BOTH {
        let bytes = s
            .to_bytes(v)
            .map_err(|e| format!("{s}: encoding {v:?} failed: {e}"))?;
        let back: T = s
            .from_bytes(&bytes)
            .map_err(|e| format!("{s}: decoding the encoding of {v:?} failed: {e}"))?;
        ensure!(back == *v, "{s}: {v:?} came back as {back:?}");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msgs {
    routing_key: String,
    metadata: Vec<u8>,
    op: Vec<u8>,
    operation_id: String,
    input: Vec<u8>,
    cbor: bool,
    err: String,
}

fn msgs() -> BoxedStrategy<Msgs> {
    let bytes = || {
        prop_oneof![
            6 => vec(any::<u8>(), 0..40),
            1 => vec(any::<u8>(), 120..300),
            1 => (any::<u8>(), 16_000usize..70_000).prop_map(|(b, n)| vec![b; n]),
        ]
    };
    (
        prop_oneof!["[a-zA-Z0-9]{5,16}", ".{0,40}"],
        bytes(),
        bytes(),
        ".{0,60}",
        bytes(),
        any::<bool>(),
        prop_oneof![3 => ".{0,60}", 1 => ".{200,300}"],
    )
        .prop_map(
            |(routing_key, metadata, op, operation_id, input, cbor, err)| Msgs {
                routing_key,
                metadata,
                op,
                operation_id,
                input,
                cbor,
                err,
            },
        )
        .boxed()
}

/// A template to derive [`AnyTask`]s from; the type of the operation's
/// identifier is up to the crate.
fn any_task(m: &Msgs) -> AnyTask {
    let op = Affine { a: 1, b: 2 };
    let t = Task {
        routing_key: m.routing_key.clone(),
        metadata: (),
        op: &op,
        input: 3,
    };
    let mut t = t.as_any_task(serializer(m.cbor)).expect("serializable");
    t.metadata = m.metadata.clone().into();
    t.op = m.op.clone().into();
    t.input = m.input.clone().into();
    t
}

fn any_output(m: &Msgs) -> AnyTaskOutput {
    AnyTaskOutput {
        metadata: m.metadata.clone().into(),
        output: m.input.clone().into(),
        serializer: serializer(m.cbor),
    }
}

fn run_msgs(m: &Msgs, rec: &mut Rec) -> Verdict {
    roundtrip(&any_task(m))?;
    roundtrip(&any_output(m))?;
    roundtrip(&AnyTaskResult::Ok(any_output(m)))?;
    roundtrip(&AnyTaskResult::Err(m.err.clone()))?;
    roundtrip(&CommandIpc::Abort {
        routing_key: m.routing_key.clone(),
    })?;
    rec.label_if(m.input.len() > 10_000, "large payload");
    rec.nontrivial(!m.input.is_empty() && !m.routing_key.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    cbor: bool,
    routing_key: String,
    meta: Rich,
    idx: u64,
    tag: u32,
    input: Rich,
    a: String,
    b: String,
    pair: ((u64, u64), (u64, u64)),
    err: String,
}

fn run_typed(c: &Typed, rec: &mut Rec) -> Verdict {
    let s = serializer(c.cbor);
    fn check<Op: Operation, M: Serializable + Debug + Clone>(
        s: Serializer,
        key: &str,
        op: &Op,
        input: impl Fn() -> Op::Input,
        meta: &M,
        err: &str,
    ) -> Verdict
    where
        Op: Debug,
    {
        let e = |what: &str| {
            let what = what.to_string();
            move |e: &dyn std::fmt::Display| format!("{what}: {e}")
        };
        let task = Task {
            routing_key: key.to_string(),
            metadata: meta.clone(),
            op,
            input: input(),
        };
        let any = task
            .as_any_task(s)
            .map_err(|x| e("as_any_task")(&x))?;
        // Through the wire, with the other serializer as the transport.
        for wire in BOTH {
            let bytes = wire.to_bytes(&any).map_err(|x| e("encode task")(&x))?;
            let any: AnyTask = wire.from_bytes(&bytes).map_err(|x| e("decode task")(&x))?;
            ensure!(
                any.routing_key == key,
                "routing key {key:?} became {:?}",
                any.routing_key
            );
            let m: M = any
                .serializer
                .from_bytes(&any.metadata)
                .map_err(|x| e("decode metadata")(&x))?;
            ensure!(
                format!("{m:?}") == format!("{meta:?}"),
                "metadata {meta:?} became {m:?}"
            );
            let op2 = Op::from_bytes(any.serializer, &any.op).map_err(|x| e("decode op")(&x))?;
            ensure!(
                format!("{op2:?}") == format!("{op:?}"),
                "operation {op:?} became {op2:?}"
            );
            let input2 = op2
                .input_from_bytes(any.serializer, &any.input)
                .map_err(|x| e("decode input")(&x))?;
            ensure!(
                format!("{input2:?}") == format!("{:?}", input()),
                "input {:?} became {input2:?}",
                input()
            );
            let want = op.execute(input(), None).map_err(|x| e("execute")(&x))?;
            let shown = format!("{want:?}");
            let bytes = op2
                .execute_as_bytes(any.serializer, &any.input, None)
                .map_err(|x| e("execute_as_bytes")(&x))?;
            // And the way back.
            let result = AnyTaskResult::Ok(AnyTaskOutput {
                metadata: any.metadata.clone(),
                output: bytes,
                serializer: any.serializer,
            });
            let result: AnyTaskResult = wire
                .from_bytes(&wire.to_bytes(&result).map_err(|x| e("encode result")(&x))?)
                .map_err(|x| e("decode result")(&x))?;
            let out: TaskOutput<Op, M> = result
                .into_task_result()
                .map_err(|x| e("into_task_result")(&x))?;
            ensure!(
                format!("{:?}", out.output) == shown,
                "output {shown} became {:?}",
                out.output
            );
            ensure!(
                format!("{:?}", out.metadata) == format!("{meta:?}"),
                "metadata {meta:?} became {:?}",
                out.metadata
            );
            let failed: AnyTaskResult = wire
                .from_bytes(
                    &wire
                        .to_bytes(&AnyTaskResult::Err(err.to_string()))
                        .map_err(|x| e("encode error")(&x))?,
                )
                .map_err(|x| e("decode error")(&x))?;
            match failed.into_task_result::<Op, M>() {
                Ok(_) => return Err("an error result became a success".into()),
                Err(x) => ensure!(
                    x.to_string() == err,
                    "error {err:?} became {:?}",
                    x.to_string()
                ),
            }
            let back = Op::from_bytes(s, &op.as_bytes(s).map_err(|x| e("as_bytes")(&x))?)
                .map_err(|x| e("from_bytes")(&x))?;
            ensure!(
                format!("{back:?}") == format!("{op:?}"),
                "operation {op:?} became {back:?}"
            );
        }
        Ok(())
    }
    let wrap = Wrap { tag: c.tag };
    check(s, &c.routing_key, &wrap, || c.input.clone(), &c.meta, &c.err)?;
    let affine = Affine {
        a: c.idx as i64,
        b: c.tag as i64,
    };
    check(s, &c.routing_key, &affine, || c.idx as i64, &c.idx, &c.err)?;
    check(
        s,
        &c.routing_key,
        &Text,
        || (c.a.clone(), c.b.clone()),
        &(c.idx as usize..=c.idx as usize),
        &c.err,
    )?;
    check(s, &c.routing_key, &Compose { p: 1_000_003 }, || c.pair, &(), &c.err)?;
    rec.nontrivial(!matches!(c.input, Rich::Unit));
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Mutation {
    Truncate(u16),
    Set(u16, u8),
    Flip(u16, u8),
    Insert(u16, u8),
    Remove(u16),
    Repeat(u16, u8),
    Append(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Source {
    Random(Vec<u8>),
    Rich(Rich),
    Zoo(Box<Zoo>),
    Msgs(Box<Msgs>, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Decode {
    source: Source,
    encode_cbor: bool,
    mutations: Vec<Mutation>,
}

fn decode() -> BoxedStrategy<Decode> {
    let m = prop_oneof![
        any::<u16>().prop_map(Mutation::Truncate),
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mutation::Set(a, b)),
        (any::<u16>(), 0u8..8).prop_map(|(a, b)| Mutation::Flip(a, b)),
        (any::<u16>(), prop_oneof![any::<u8>(), Just(0xff), Just(0x80), Just(0x9f), Just(0xfb)])
            .prop_map(|(a, b)| Mutation::Insert(a, b)),
        any::<u16>().prop_map(Mutation::Remove),
        (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mutation::Repeat(a, b)),
        any::<u8>().prop_map(Mutation::Append),
    ];
    let source = prop_oneof![
        2 => vec(any::<u8>(), 0..120).prop_map(Source::Random),
        3 => rich().prop_map(Source::Rich),
        2 => zoo().prop_map(|z| Source::Zoo(Box::new(z))),
        3 => (msgs(), 0u8..5).prop_map(|(m, k)| Source::Msgs(Box::new(m), k)),
    ];
    (source, any::<bool>(), vec(m, 0..5))
        .prop_map(|(source, encode_cbor, mutations)| Decode {
            source,
            encode_cbor,
            mutations,
        })
        .boxed()
}

fn try_decode<T: Serializable + Debug>(bytes: &[u8], ok: &mut u64) -> Verdict {
    for s in BOTH {
        if let Ok(v) = s.from_bytes::<T>(bytes) {
            *ok += 1;
            // Whatever has been decoded is a proper value.
            let again = s
                .to_bytes(&v)
                .and_then(|b| s.from_bytes::<T>(&b))
                .map_err(|e| format!("{s}: {v:?} was decoded but doesn't round-trip: {e}"))?;
            ensure!(
                format!("{v:?}") == format!("{again:?}"),
                "{s}: {v:?} came back as {again:?}"
            );
        }
    }
    Ok(())
}

fn run_decode(c: &Decode, rec: &mut Rec) -> Verdict {
    let s = serializer(c.encode_cbor);
    let mut bytes: Vec<u8> = match &c.source {
        Source::Random(b) => b.clone(),
        Source::Rich(r) => s.to_bytes(r).map_err(|e| e.to_string())?.to_vec(),
        Source::Zoo(z) => s.to_bytes(z).map_err(|e| e.to_string())?.to_vec(),
        Source::Msgs(m, k) => match k {
            0 => s.to_bytes(&any_task(m)),
            1 => s.to_bytes(&any_output(m)),
            2 => s.to_bytes(&AnyTaskResult::Ok(any_output(m))),
            3 => s.to_bytes(&AnyTaskResult::Err(m.err.clone())),
            _ => s.to_bytes(&CommandIpc::Abort {
                routing_key: m.routing_key.clone(),
            }),
        }
        .map_err(|e| e.to_string())?
        .to_vec(),
    };
    let mut changed = false;
    for m in &c.mutations {
        let n = bytes.len();
        if n == 0 {
            break;
        }
        let before = bytes.clone();
        match *m {
            Mutation::Truncate(k) => bytes.truncate(k as usize % (n + 1)),
            Mutation::Set(k, b) => bytes[k as usize % n] = b,
            Mutation::Flip(k, b) => bytes[k as usize % n] ^= 1 << b,
            Mutation::Insert(k, b) => bytes.insert(k as usize % (n + 1), b),
            Mutation::Remove(k) => {
                bytes.remove(k as usize % n);
            }
            Mutation::Repeat(k, len) => {
                let k = k as usize % n;
                let part = bytes[k..(k + len as usize).min(n)].to_vec();
                bytes.splice(k..k, part);
            }
            Mutation::Append(b) => bytes.push(b),
        }
        changed |= before != bytes;
    }
    let mut ok = 0;
    try_decode::<Rich>(&bytes, &mut ok)?;
    try_decode::<Zoo>(&bytes, &mut ok)?;
    try_decode::<AnyTask>(&bytes, &mut ok)?;
    try_decode::<AnyTaskOutput>(&bytes, &mut ok)?;
    try_decode::<AnyTaskResult>(&bytes, &mut ok)?;
    try_decode::<CommandIpc>(&bytes, &mut ok)?;
    try_decode::<Vec<Rich>>(&bytes, &mut ok)?;
    try_decode::<String>(&bytes, &mut ok)?;
    try_decode::<(u64, i32, char, bool, f32)>(&bytes, &mut ok)?;
    // The typed view of undecodable results.
    for s in BOTH {
        let out = AnyTaskOutput {
            metadata: bytes.clone().into(),
            output: bytes.clone().into(),
            serializer: s,
        };
        let _: Result<TaskOutput<Wrap, Rich>, _> = out.try_into();
        let out = AnyTaskResult::Ok(AnyTaskOutput {
            metadata: Bytes::new(),
            output: bytes.clone().into(),
            serializer: s,
        });
        _ = out.into_task_result::<Affine, ()>();
        _ = Wrap::from_bytes(s, &bytes);
        _ = (Wrap { tag: 0 }).input_from_bytes(s, &bytes);
        _ = (Wrap { tag: 0 }).execute_as_bytes(s, &bytes, None);
    }
    rec.count("decoded successfully", ok);
    rec.label_if(ok == 0, "no target decoded");
    rec.label_if(!changed, "unchanged");
    rec.nontrivial(changed && bytes.len() >= 2);
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C09",
        assumptions: &[
            "supported types exclude those CBOR itself cannot represent (nested options, options of unit) and NaN",
            "inputs to decoding are at most some ten kilobytes",
        ],
        facets: vec![
            facet(
                "values",
                "structured values of most of serde's data model, both serializers; non-trivial: the encoding has more than two bytes",
                Budget::new(40_000, 1_000_000),
                || (rich(), zoo()).boxed(),
                |(r, z), rec| {
                    roundtrip(r)?;
                    roundtrip_eq(r)?;
                    roundtrip_eq(z)?;
                    // What cases themselves, being JSON, can't contain.
                    let inf = if z.float < 0.0 { f64::NEG_INFINITY } else { f64::INFINITY };
                    roundtrip_eq(&(Rich::Float(inf), inf as f32, (z.table.0.clone(), inf)))?;
                    rec.nontrivial(
                        Serializer::Postcard
                            .to_bytes(r)
                            .is_ok_and(|b| b.len() > 2),
                    );
                    Ok(())
                },
            ),
            facet(
                "sizes",
                "values nested up to 60 layers deep and collections of up to 200 000 elements; non-trivial: at least 8 layers or 200 elements",
                Budget::new(3_000, 60_000),
                nest,
                run_nest,
            ),
            facet(
                "messages",
                "the messages the system exchanges with arbitrary contents of up to 70 kB; non-trivial: input and routing key are not empty",
                Budget::new(5_000, 150_000),
                msgs,
                run_msgs,
            ),
            facet(
                "typed",
                "typed tasks and results of four operations converted to their opaque forms, through the wire, and back; non-trivial: a structured input",
                Budget::new(15_000, 300_000),
                || {
                    (
                        (any::<bool>(), ".{0,20}", rich(), edge_u64(), any::<u32>(), rich()),
                        (".{0,10}", ".{0,10}", any::<((u32, u32), (u32, u32))>(), ".{0,30}"),
                    )
                        .prop_map(
                            |((cbor, routing_key, meta, idx, tag, input), (a, b, p, err))| Typed {
                                cbor,
                                routing_key,
                                meta,
                                idx,
                                tag,
                                input,
                                a,
                                b,
                                pair: (
                                    (p.0 .0 as u64 % 1_000_003, p.0 .1 as u64 % 1_000_003),
                                    (p.1 .0 as u64 % 1_000_003, p.1 .1 as u64 % 1_000_003),
                                ),
                                err,
                            },
                        )
                        .boxed()
                },
                run_typed,
            ),
            facet(
                "decoding",
                "random bytes and mutated (truncated, flipped, spliced) encodings decoded as nine types by both serializers; whatever decodes must round-trip; non-trivial: a valid encoding was changed and at least two bytes remained",
                Budget::new(60_000, 2_000_000),
                decode,
                run_decode,
            ),
        ],
    }
}
