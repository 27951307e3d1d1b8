//! A cooperative scheduler for real threads: exactly one of the participating
//! threads runs at a time, and a generated vector of decisions picks the next
//! one at every yield point. An empty vector means that threads run one after
//! the other; shrinking the vector hence removes context switches.
use std::{
    cell::RefCell,
    future::Future,
    pin::pin,
    sync::{Arc, Condvar, Mutex},
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    /// Waits for its waker.
    Blocked,
    Done,
}

struct State {
    current: usize,
    status: Vec<Status>,
    decisions: Vec<u8>,
    next: usize,
    steps: u64,
    switches: u64,
    deadlock: bool,
    /// All threads run freely: a thread failed to reach a yield point in time
    /// (e.g. it waits for a lock held by a thread that has been preempted).
    free: bool,
}

pub struct Sched {
    m: Mutex<State>,
    cv: Condvar,
    /// The sites at which to yield.
    allow: fn(&str) -> bool,
}

thread_local! {
    static CURRENT: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// The callback to register with the instrumented crate.
pub fn hook(site: &'static str) {
    let cur = CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    if let Some((s, id)) = cur {
        if (s.allow)(site) {
            s.yield_now(id);
        }
    }
}

/// An explicit yield point of the harness.
pub fn yield_now() {
    let cur = CURRENT.with(|c| c.borrow().clone());
    if let Some((s, id)) = cur {
        s.yield_now(id);
    }
}

/// No thread can make progress any more.
#[derive(Debug)]
pub struct Deadlock;

impl State {
    /// Choose the next thread to run among the ready ones. Returns false if
    /// there are none.
    fn choose(&mut self, me: usize) -> bool {
        let mut ready: Vec<usize> = Vec::new();
        let n = self.status.len();
        // The current thread comes first, such that decision 0 means to continue.
        for k in 0..n {
            let i = (me + k) % n;
            if self.status[i] == Status::Ready {
                ready.push(i);
            }
        }
        if ready.is_empty() {
            return false;
        }
        let d = if ready.len() == 1 {
            0
        } else {
            let d = self.decisions.get(self.next).copied().unwrap_or(0);
            self.next += 1;
            d as usize % ready.len()
        };
        let chosen = ready[d];
        self.steps += 1;
        if chosen != me {
            self.switches += 1;
        }
        self.current = chosen;
        true
    }
}

impl Sched {
    fn wait_turn<'a>(
        &'a self,
        mut st: std::sync::MutexGuard<'a, State>,
        id: usize,
    ) -> std::sync::MutexGuard<'a, State> {
        while st.current != id && !st.free && !st.deadlock {
            let before = st.steps;
            let (s, timeout) = self.cv.wait_timeout(st, Duration::from_secs(4)).unwrap();
            st = s;
            if timeout.timed_out() && st.steps == before && st.current != id {
                st.free = true;
                self.cv.notify_all();
            }
        }
        st
    }

    fn yield_now(&self, id: usize) {
        let mut st = self.m.lock().unwrap();
        if st.free || st.deadlock {
            return;
        }
        st.choose(id);
        if st.current != id {
            self.cv.notify_all();
            drop(self.wait_turn(st, id));
        }
    }

    fn finish(&self, id: usize) {
        let mut st = self.m.lock().unwrap();
        st.status[id] = Status::Done;
        if !st.choose(id) && st.status.iter().any(|s| *s == Status::Blocked) {
            st.deadlock = true;
        }
        self.cv.notify_all();
    }
}

struct SchedWaker {
    sched: Arc<Sched>,
    id: usize,
    woken: Mutex<bool>,
}

impl Wake for SchedWaker {
    fn wake(self: Arc<Self>) {
        *self.woken.lock().unwrap() = true;
        let mut st = self.sched.m.lock().unwrap();
        if st.status[self.id] == Status::Blocked {
            st.status[self.id] = Status::Ready;
        }
        if st.free {
            self.sched.cv.notify_all();
        }
    }
}

/// Drive a future on the current participating thread. Fails if the thread
/// waits for a wake-up and no other thread can make progress any more.
pub fn block_on<F: Future>(fut: F) -> Result<F::Output, Deadlock> {
    let (sched, id) = CURRENT
        .with(|c| c.borrow().clone())
        .expect("called on a scheduled thread");
    let mut fut = pin!(fut);
    loop {
        let w = Arc::new(SchedWaker {
            sched: sched.clone(),
            id,
            woken: Mutex::new(false),
        });
        let waker = Waker::from(w.clone());
        if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            return Ok(r);
        }
        let mut st = sched.m.lock().unwrap();
        if *w.woken.lock().unwrap() {
            drop(st);
            sched.yield_now(id);
            continue;
        }
        if st.deadlock {
            return Err(Deadlock);
        }
        st.status[id] = Status::Blocked;
        if st.free {
            // Fall back to real time.
            while st.status[id] == Status::Blocked && !st.deadlock {
                let (s, t) = sched.cv.wait_timeout(st, Duration::from_secs(5)).unwrap();
                st = s;
                let stuck = st
                    .status
                    .iter()
                    .all(|s| matches!(s, Status::Blocked | Status::Done));
                if t.timed_out() && stuck {
                    st.deadlock = true;
                }
            }
        } else {
            if !st.choose(id) {
                st.deadlock = true;
            }
            sched.cv.notify_all();
            st = sched.wait_turn(st, id);
        }
        if st.status[id] == Status::Blocked {
            // Only a deadlock (or free running) gets us here.
            if st.deadlock {
                return Err(Deadlock);
            }
            st.status[id] = Status::Ready;
        }
    }
}

pub struct Summary {
    pub switches: u64,
    pub steps: u64,
    pub free: bool,
}

/// Run the given threads under the given decisions until all of them are done.
/// Panics of a thread are propagated as `Err`.
pub fn run(
    decisions: &[u8],
    allow: fn(&str) -> bool,
    threads: Vec<Box<dyn FnOnce() + Send + '_>>,
) -> Result<Summary, String> {
    let n = threads.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(State {
            current: usize::MAX,
            status: vec![Status::Ready; n],
            decisions: decisions.to_vec(),
            next: 0,
            steps: 0,
            switches: 0,
            deadlock: false,
            free: false,
        }),
        cv: Condvar::new(),
        allow,
    });
    let mut errors = Vec::new();
    std::thread::scope(|s| {
        let handles: Vec<_> = threads
            .into_iter()
            .enumerate()
            .map(|(id, f)| {
                let sched = sched.clone();
                s.spawn(move || {
                    CURRENT.with(|c| *c.borrow_mut() = Some((sched.clone(), id)));
                    {
                        let st = sched.m.lock().unwrap();
                        drop(sched.wait_turn(st, id));
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    CURRENT.with(|c| *c.borrow_mut() = None);
                    sched.finish(id);
                    r
                })
            })
            .collect();
        {
            let mut st = sched.m.lock().unwrap();
            st.choose(0);
            sched.cv.notify_all();
        }
        for h in handles {
            match h.join().expect("scheduled thread") {
                Ok(()) => {}
                Err(p) => errors.push(crate::core::panic_msg(p)),
            }
        }
    });
    if let Some(e) = errors.first() {
        return Err(format!("panic: {e}"));
    }
    let st = sched.m.lock().unwrap();
    Ok(Summary {
        switches: st.switches,
        steps: st.steps,
        free: st.free,
    })
}
