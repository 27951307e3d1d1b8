//! What needs the crate to be compiled with its verification hooks. If it
//! doesn't build with them, the harness is built without and skips the cases that
//! depend on them.
use paladin::runtime::{Runtime, WorkerRuntime};

/// The reason of cases that can't be decided without hooks.
pub const NO_HOOKS: &str = "not decidable without hooks";

#[cfg(paladin_verif)]
pub fn init() {
    paladin::verif::set_yield_fn(crate::sched::hook);
}

#[cfg(not(paladin_verif))]
pub fn init() {
    _ = crate::sched::hook as fn(&'static str);
    eprintln!("the crate is compiled without hooks");
}

#[cfg(paladin_verif)]
pub fn worker(rt: &Runtime) -> WorkerRuntime {
    rt.verif_worker()
}

#[cfg(not(paladin_verif))]
pub fn worker(_: &Runtime) -> WorkerRuntime {
    panic!("{NO_HOOKS}")
}

#[cfg(paladin_verif)]
pub fn queue_names(rt: &Runtime) -> Vec<String> {
    rt.verif_queue_names()
}

#[cfg(not(paladin_verif))]
pub fn queue_names(_: &Runtime) -> Vec<String> {
    panic!("{NO_HOOKS}")
}
