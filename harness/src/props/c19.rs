//! C19: configuration.
use std::{sync::Mutex, time::Duration};

use clap::Parser;
use paladin::{
    config::{Config, Runtime as Backend, Serializer as Format},
    runtime::{Runtime, WorkerRuntime, TASK_IPC_ROUTING_KEY},
    serializer::Serializer,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::c20::{amqp_config, net, Net, Site};
use crate::{
    broker::{self, patient, Broker, Event},
    core::{facet, Budget, Property, Rec, Verdict},
    ensure,
    jobs::{self, JobSpec},
    ops::{new_run, register, Act},
    vrt,
    worker::{entries, rest, scripted, turns},
};

#[derive(Parser, Debug)]
#[command(name = "program")]
struct Cli {
    #[command(flatten)]
    options: Config,
}

/// The options: long name, short name, and environment variable.
const OPTIONS: [(&str, Option<char>, &str); 5] = [
    ("serializer", Some('s'), "PALADIN_SERIALIZER"),
    ("runtime", Some('r'), "PALADIN_RUNTIME"),
    ("num-workers", Some('n'), "PALADIN_NUM_WORKERS"),
    ("amqp-uri", None, "PALADIN_AMQP_URI"),
    (
        "task-bus-routing-key",
        None,
        "PALADIN_TASK_BUS_ROUTING_KEY",
    ),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Source {
    /// The value on the command line, and how it is spelled.
    arg: Option<(String, u8)>,
    env: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parse {
    options: Vec<Source>,
    /// Determines the order of the arguments.
    order: Vec<u8>,
}

fn value(option: usize) -> BoxedStrategy<String> {
    let s = |v: &[&str]| {
        proptest::sample::select(v.iter().map(|x| x.to_string()).collect::<Vec<_>>()).boxed()
    };
    let valid = match option {
        0 => s(&["postcard", "cbor"]),
        1 => s(&["amqp", "in-memory"]),
        2 => prop_oneof![
            (0usize..100).prop_map(|n| n.to_string()),
            any::<usize>().prop_map(|n| n.to_string()),
            s(&["0", "007", "18446744073709551615"]),
        ]
        .boxed(),
        3 => prop_oneof![
            "amqp://[a-z]{1,8}:[0-9]{1,5}(/[a-z%]{0,5})?",
            "[a-z/=: ]{1,12}"
        ]
        .boxed(),
        _ => prop_oneof!["[a-zA-Z0-9_.-]{1,20}", "[a-z][ =a-zé\"']{0,12}"].boxed(),
    };
    let invalid = match option {
        0 => s(&["", "json", "Postcard", "CBOR", "postcar", "postcard ", "cbor,postcard", "0"]),
        1 => s(&["", "amqps", "inmemory", "in_memory", "InMemory", "memory", "AMQP"]),
        2 => s(&["", "-1", "x", "1.5", " 3", "3 ", "18446744073709551616", "0x10", "1e3"]),
        _ => valid.clone(),
    };
    prop_oneof![12 => valid, 1 => invalid].boxed()
}

fn parses() -> BoxedStrategy<Parse> {
    let source = |i: usize| {
        let value = value(i);
        (
            proptest::option::weighted(0.5, (value.clone(), any::<u8>())),
            proptest::option::weighted(0.4, value),
        )
            .prop_map(|(arg, env)| Source { arg, env })
    };
    (
        (source(0), source(1), source(2), source(3), source(4)),
        vec(any::<u8>(), 5),
    )
        .prop_map(|((a, b, c, d, e), order)| Parse {
            options: vec![a, b, c, d, e],
            order,
        })
        .boxed()
}

/// What the options mean: `None` if they have to be rejected.
fn meaning(c: &Parse) -> Option<Config> {
    let v: Vec<Option<&String>> = c
        .options
        .iter()
        .map(|s| s.arg.as_ref().map(|a| &a.0).or(s.env.as_ref()))
        .collect();
    Some(Config {
        serializer: match v[0].map(|s| s.as_str()) {
            None | Some("postcard") => Format::Postcard,
            Some("cbor") => Format::Cbor,
            _ => return None,
        },
        runtime: match v[1].map(|s| s.as_str()) {
            None | Some("amqp") => Backend::Amqp,
            Some("in-memory") => Backend::InMemory,
            _ => return None,
        },
        num_workers: match v[2] {
            None => None,
            Some(n) => Some(n.parse().ok()?),
        },
        amqp_uri: v[3].cloned(),
        task_bus_routing_key: v[4].cloned(),
    })
}

fn run_parse(c: &Parse, rec: &mut Rec) -> Verdict {
    // There is just one environment.
    static ENV: Mutex<()> = Mutex::new(());
    let _guard = ENV.lock().unwrap_or_else(|e| e.into_inner());
    for ((_, _, var), s) in OPTIONS.iter().zip(&c.options) {
        match &s.env {
            Some(v) => std::env::set_var(var, v),
            None => std::env::remove_var(var),
        }
    }
    let mut order: Vec<usize> = (0..5).collect();
    order.sort_by_key(|i| c.order[*i]);
    let mut args = vec!["program".to_string()];
    for i in order {
        let (long, short, _) = OPTIONS[i];
        if let Some((v, spelling)) = &c.options[i].arg {
            // A separate value may not look like an option.
            let separate = !v.starts_with('-');
            match (spelling % 5, short) {
                (0, _) if separate => args.extend([format!("--{long}"), v.clone()]),
                (1, Some(s)) if separate => args.extend([format!("-{s}"), v.clone()]),
                (2, Some(s)) if !v.is_empty() && !v.starts_with('=') => {
                    args.push(format!("-{s}{v}"));
                }
                (3, Some(s)) => args.push(format!("-{s}={v}")),
                _ => args.push(format!("--{long}={v}")),
            }
        }
    }
    let got = Cli::try_parse_from(&args);
    for (_, _, var) in OPTIONS {
        std::env::remove_var(var);
    }
    drop(_guard);
    let want = meaning(c);
    let both = c.options.iter().any(|s| s.arg.is_some() && s.env.is_some());
    rec.label_if(both, "command line over environment");
    rec.nontrivial(c.options.iter().any(|s| s.arg.is_some() || s.env.is_some()));
    match (got, want) {
        (Err(_), None) => {
            rec.label("malformed");
            Ok(())
        }
        (Ok(cli), None) => Err(format!("{args:?} was accepted as {:?}", cli.options)),
        (got, Some(want)) if want.runtime == Backend::Amqp && want.amqp_uri.is_none() => {
            rec.label("no URI");
            let Ok(cli) = got else { return Ok(()) };
            ensure!(cli.options == want, "{:?} instead of {want:?}", cli.options);
            // At the latest, this is an error.
            vrt::run(1, async {
                let r = Runtime::from_config(&cli.options, register()).await;
                ensure!(r.is_err(), "there is a runtime without URI");
                let r = WorkerRuntime::from_config(&cli.options, register()).await;
                ensure!(r.is_err(), "there is a worker without URI");
                Ok(())
            })?
        }
        (Ok(cli), Some(want)) => {
            ensure!(
                cli.options == want,
                "{args:?} was understood as {:?} instead of {want:?}",
                cli.options
            );
            rec.label("accepted");
            Ok(())
        }
        (Err(e), Some(want)) => Err(format!("{want:?} was rejected: {e}")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Local {
    cbor: bool,
    workers: Option<usize>,
    bus: Option<String>,
    /// An in-memory runtime has no use for it.
    uri: Option<String>,
    tasks: usize,
}

fn run_local(c: &Local, rec: &mut Rec) -> Verdict {
    let config = Config {
        serializer: if c.cbor { Format::Cbor } else { Format::Postcard },
        runtime: Backend::InMemory,
        num_workers: c.workers,
        amqp_uri: c.uri.clone(),
        task_bus_routing_key: c.bus.clone(),
    };
    let bus = c
        .bus
        .clone()
        .unwrap_or_else(|| TASK_IPC_ROUTING_KEY.to_string());
    let workers = c.workers.unwrap_or(3);
    vrt::run(1, async {
        let run = new_run((0..c.tasks as u64).map(|k| {
            (
                k,
                Act::Gate {
                    gate: 1,
                    heed: false,
                },
            )
        }));
        let rt = Runtime::from_config(&config, register())
            .await
            .map_err(|e| format!("{e:#}"))?;
        turns(50).await;
        let lease = scripted(&rt, run.id).await?;
        for k in 0..c.tasks as u64 {
            lease.send((k, String::new()), (k, 1)).await?;
        }
        let names = crate::hooks::queue_names(&rt);
        ensure!(
            names.contains(&bus),
            "there is no task bus {bus:?}, but {names:?}"
        );
        // As many as there are workers begin.
        let want = workers.min(c.tasks);
        entries(&run.run, want).await?;
        turns(100).await;
        let got = run.run.entered().len();
        ensure!(
            got == want,
            "{got} of {} tasks are being executed by {workers} workers",
            c.tasks
        );
        run.run.open(1);
        rest().await;
        let n = lease.answers().len();
        if workers > 0 {
            ensure!(n == c.tasks, "{n} of {} answers", c.tasks);
        } else {
            // An emulation of no workers leaves it to others.
            let w = crate::hooks::worker(&rt);
            let mut tasks = w.get_task_receiver().await.map_err(|e| format!("{e:#}"))?;
            for _ in 0..c.tasks {
                let next = tokio::time::timeout(
                    Duration::from_secs(1),
                    futures::StreamExt::next(&mut tasks),
                );
                let (task, _) = next
                    .await
                    .map_err(|_| "there is no task")?
                    .ok_or("the task bus ended")?;
                let cbor = matches!(task.serializer, Serializer::Cbor);
                ensure!(
                    cbor == c.cbor,
                    "a task is serialized with {:?}",
                    task.serializer
                );
                let input: Result<(u64, i64), _> = task.serializer.from_bytes(&task.input);
                ensure!(input.is_ok(), "the input can't be decoded");
            }
        }
        rec.label_if(c.workers.is_none(), "default number of workers");
        rec.nontrivial(c.tasks > workers);
        Ok(())
    })?
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Remote {
    net: Net,
    cbor: bool,
    bus: Option<String>,
    other: Option<String>,
    num_workers: Option<usize>,
    job: JobSpec,
}

fn run_remote(c: &Remote, rec: &mut Rec) -> Verdict {
    broker::rt().block_on(async {
        let mut site = Site::new(&c.net, c.cbor, c.bus.clone(), 0).await?;
        let run = new_run([]);
        // A leader of its own doesn't execute anything.
        let mut config = amqp_config(&site.broker, c.cbor, c.bus.clone());
        config.num_workers = c.num_workers;
        let rt = patient("a runtime", Runtime::from_config(&config, register()))
            .await?
            .map_err(|e| format!("{e:#}"))?;
        let mut job = jobs::spawn(&c.job, &std::sync::Arc::new(rt), run.id, false);
        // The caller takes results, hence nothing keeps tasks back.
        job.open();
        let bus = site.bus();
        let tasks = c.job.items.len() > 1;
        let queued = |b: &Broker| b.queues().get(&bus).is_some_and(|q| q.ready > 0);
        if tasks {
            site.broker
                .until("tasks at the task bus", |b| queued(b))
                .await
                .map_err(|e| format!("{e} {bus:?}: {:?}", site.broker.queues()))?;
        }
        // Nor does a worker of another bus.
        let key = c.other.clone().unwrap_or_else(|| "another".to_string());
        if key != bus {
            let config = amqp_config(&site.broker, c.cbor, Some(key.clone()));
            let w = patient("a worker", WorkerRuntime::from_config(&config, register()))
                .await?
                .map_err(|e| format!("{e:#}"))?;
            let h = tokio::spawn(async move { w.main_loop().await });
            site.workers.push((0, h));
            site.broker
                .until("a worker", |b| {
                    b.queues().get(&key).is_some_and(|q| q.consumers == 1)
                })
                .await
                .map_err(|e| format!("{e} at {key:?}: {:?}", site.broker.queues()))?;
        }
        let untouched = !site
            .broker
            .log()
            .iter()
            .any(|e| matches!(e, Event::Delivered { .. }));
        ensure!(untouched, "something was delivered without a worker");
        site.spawn().await?;
        ensure!(
            site.broker.queues().get(&bus).is_some_and(|q| q.consumers == 1),
            "nobody listens to {bus:?}: {:?}",
            site.broker.queues()
        );
        site.join(&c.job, &mut job).await?;
        rec.label_if(c.bus.is_some(), "task bus configured");
        rec.nontrivial(tasks);
        Ok(())
    })
}

pub fn property() -> Property {
    Property {
        id: "C19",
        assumptions: &[
            "AMQP: the broker is the harness's own, on the loopback interface",
        ],
        facets: vec![
            facet(
                "parse",
                "any combination of command line arguments in different spellings, environment variables and malformed values; non-trivial: some option is given",
                Budget::new(20_000, 800_000).shards(1),
                parses,
                run_parse,
            ),
            facet(
                "local",
                "in-memory runtimes with blocked tasks to count the workers; non-trivial: more tasks than workers",
                Budget::new(3000, 100_000),
                || {
                    (
                        any::<bool>(),
                        proptest::option::of(prop_oneof![12 => 0usize..9, 1 => 9usize..40]),
                        proptest::option::of("[a-zA-Z0-9 é-]{1,10}"),
                        proptest::option::of("[a-z:/]{0,10}"),
                        prop_oneof![12 => 1usize..14, 1 => 14usize..45],
                    )
                        .prop_map(|(cbor, workers, bus, uri, tasks)| Local {
                            cbor,
                            workers,
                            bus,
                            uri,
                            tasks,
                        })
                        .boxed()
                },
                run_local,
            ),
            facet(
                "remote",
                "a leader, a worker, and a worker of another task bus on a broker; non-trivial: a job of at least two items",
                Budget::new(300, 8_000).shrink(60),
                || {
                    (
                        net(),
                        any::<bool>(),
                        proptest::option::of("[a-zA-Z0-9 é-]{1,10}"),
                        proptest::option::of("[a-z]{1,3}"),
                        proptest::option::of(0usize..9),
                        jobs::spec(10),
                    )
                        .prop_map(|(net, cbor, bus, other, num_workers, job)| Remote {
                            net,
                            cbor,
                            bus,
                            other,
                            num_workers,
                            job,
                        })
                        .boxed()
                },
                run_remote,
            ),
        ],
    }
}
