//! Property-based checks of paladin; see ../../DESIGN.md.
mod broker;
mod core;
mod driver;
mod hooks;
mod jobs;
mod ops;
mod props;
mod sched;
mod twins;
mod util;
mod vrt;
mod worker;

fn usage() -> ! {
    eprintln!("usage: harness check <PROPERTY> | harness replay <FILE> | harness list");
    std::process::exit(2)
}

fn main() {
    // Panics are part of many cases; keep the output readable.
    if std::env::var_os("VERIF_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    hooks::init();

    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["check", id] => {
            let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            };
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => core::Tier::Thorough,
                _ => core::Tier::Quick,
            };
            core::spawn_watchdog(seed);
            core::check(&p, &core::Ctx::new(id, tier, seed))
        }
        ["replay", path] => core::replay(&props::all(), path),
        ["list"] => {
            for p in props::all() {
                for f in &p.facets {
                    println!("{} {}: {}", p.id, f.name, f.rule);
                }
            }
            0
        }
        // What some checks run in processes of their own.
        ["identifiers", n, broadcast] => {
            props::print_ids(n.parse().unwrap_or(0), broadcast == "true");
            0
        }
        _ => usage(),
    };
    // Skip destructors: abandoned threads may still be running.
    std::process::exit(code)
}
