//! Cooperative scheduling of real threads: one runs at a time, and the schedule
//! decides at every lock operation and every call into caller code which one
//! goes on.

use crate::engine::*;
use crate::fail;
use crate::seam;
use ::portgraph::sim::{set_lock_hook, LockEvent};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, PoisonError};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// Waiting for a lock of the library.
    Blocked,
    /// Did not come back: it waits for something that the simulator does not
    /// control.
    Away,
    Done,
}
struct State {
    running: Option<usize>,
    st: Vec<St>,
    site: Vec<&'static str>,
    abort: bool,
    /// How many points the running thread may pass before it stops again.
    quantum: u32,
}
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}
/// Unwinds a thread of a run that is over.
struct Abort;

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    static QUANTUM: Cell<u32> = const { Cell::new(0) };
}

impl Sched {
    /// Gives up the processor until chosen again.
    fn park(&self, me: usize, st: St, site: &'static str) {
        let left = QUANTUM.with(|q| q.get());
        if st == St::Ready && left > 0 {
            QUANTUM.with(|q| q.set(left - 1));
            return;
        }
        let mut s = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        s.st[me] = st;
        s.site[me] = site;
        if s.running == Some(me) {
            s.running = None;
        }
        self.cv.notify_all();
        while s.running != Some(me) && !s.abort {
            s = self.cv.wait(s).unwrap_or_else(PoisonError::into_inner);
        }
        if s.abort {
            drop(s);
            std::panic::panic_any(Abort);
        }
        QUANTUM.with(|q| q.set(s.quantum));
    }
    fn released(&self) {
        let mut s = self.m.lock().unwrap_or_else(PoisonError::into_inner);
        for x in s.st.iter_mut() {
            if *x == St::Blocked {
                *x = St::Ready;
            }
        }
    }
}
fn on_lock(ev: LockEvent) {
    let me = ME.with(|c| c.borrow().clone());
    let panicking = std::thread::panicking();
    match me {
        Some((s, i)) => {
            if ev == LockEvent::Released {
                s.released();
            }
            if panicking {
                return;
            }
            match ev {
                LockEvent::Read => s.park(i, St::Ready, "before read lock"),
                LockEvent::Write => s.park(i, St::Ready, "before write lock"),
                LockEvent::Blocked => s.park(i, St::Blocked, "waiting for the lock"),
                LockEvent::Acquired => s.park(i, St::Ready, "holding a lock"),
                LockEvent::Released => s.park(i, St::Ready, "after unlock"),
            }
        }
        None if ev == LockEvent::Blocked && !panicking => fail!("deadlock", "a single thread waits for a lock that it holds"),
        None => {}
    }
}
pub fn install() {
    set_lock_hook(on_lock);
}

/// Runs the jobs as threads, one at a time, in a schedule drawn from `ctx`.
pub fn run<'a>(ctx: &mut Ctx, jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let count = jobs.len();
    let sched = Arc::new(Sched {
        m: Mutex::new(State { running: None, st: vec![St::Away; count], site: vec!["start"; count], abort: false, quantum: 0 }),
        cv: Condvar::new(),
    });
    let hash_seed = ctx.hash_seed;
    let far = *ctx.pick(&[30, 5, 70]).unwrap();
    let failures: Mutex<Vec<(usize, Caught)>> = Mutex::default();
    let outcome = std::thread::scope(|scope| {
        for (i, job) in jobs.into_iter().enumerate() {
            let sched = sched.clone();
            let failures = &failures;
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(scope, move || {
                    seed_thread(hash_seed ^ (i as u64 + 1));
                    ME.with(|c| *c.borrow_mut() = Some((sched.clone(), i)));
                    let s2 = sched.clone();
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        sched.park(i, St::Ready, "start");
                        seam::set_yield(Some(Rc::new(move |site| s2.park(i, St::Ready, site))));
                        job()
                    }));
                    seam::set_yield(None);
                    ME.with(|c| *c.borrow_mut() = None);
                    if let Err(p) = res {
                        if !p.is::<Abort>() {
                            failures.lock().unwrap_or_else(PoisonError::into_inner).push((i, classify(p)));
                        }
                    }
                    let mut s = sched.m.lock().unwrap_or_else(PoisonError::into_inner);
                    s.st[i] = St::Done;
                    if s.running == Some(i) {
                        s.running = None;
                    }
                    sched.cv.notify_all();
                })
                .expect("spawn simulated thread");
        }
        let res = catch_unwind(AssertUnwindSafe(|| drive(ctx, &sched, far, &failures)));
        let mut s = sched.m.lock().unwrap_or_else(PoisonError::into_inner);
        s.abort = true;
        sched.cv.notify_all();
        drop(s);
        res
    });
    if let Some((i, c)) = failures.into_inner().unwrap_or_else(PoisonError::into_inner).into_iter().next() {
        match c {
            Caught::Violation(v) => violate(&v.class, format!("thread {i}: {}", v.msg)),
            Caught::Injected => fail!("injected-panic-escaped", "thread {i}: an injected panic escaped"),
            Caught::Panic(msg, loc) => {
                let file = loc.split(':').next().unwrap_or("").to_string();
                fail!(&format!("panic in {file}"), "thread {i}: unexpected panic at {loc}: {msg}")
            }
        }
    }
    if let Err(p) = outcome {
        resume_unwind(p)
    }
}
fn drive(ctx: &mut Ctx, sched: &Sched, far: usize, failures: &Mutex<Vec<(usize, Caught)>>) {
    let mut current = 0;
    let mut turns = 0;
    let mut order = Fnv::default();
    // Wait for all threads to arrive.
    let mut s = sched.m.lock().unwrap_or_else(PoisonError::into_inner);
    while s.st.contains(&St::Away) {
        s = sched.cv.wait(s).unwrap_or_else(PoisonError::into_inner);
    }
    loop {
        if !failures.lock().unwrap_or_else(PoisonError::into_inner).is_empty() {
            return;
        }
        let ready: Vec<usize> = (0..s.st.len()).filter(|i| s.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            if s.st.iter().all(|x| *x == St::Done) {
                use std::hash::Hasher;
                ctx.state(order.finish());
                return;
            }
            if s.st.contains(&St::Away) {
                s = sched.cv.wait(s).unwrap_or_else(PoisonError::into_inner);
                continue;
            }
            let held: Vec<_> = s.st.iter().zip(&s.site).collect();
            fail!("deadlock", "no thread can go on: {held:?}");
        }
        turns += 1;
        if turns > 400_000 {
            fail!("no progress", "the threads are still busy after {turns} turns");
        }
        // The current thread first: zero goes on with it.
        let mut order_of = ready.clone();
        order_of.sort_by_key(|i| (*i != current, *i));
        let next = *ctx.pick(&order_of).unwrap();
        // How far it goes: zero is far.
        s.quantum = if ctx.draw(100) < far { 300 } else { ctx.draw(8) as u32 };
        if next != current {
            ctx.fault("thread switch");
            let site = s.site[current];
            let contended = s.st[current] == St::Blocked;
            if contended {
                ctx.probe("thread waits for a lock");
            }
            ctx.log(|| format!("  schedule: thread {next} goes on; thread {current} is {site}"));
        }
        {
            use std::hash::Hasher;
            order.write(&[next as u8]);
            order.write(s.site[next].as_bytes());
        }
        current = next;
        s.running = Some(next);
        sched.cv.notify_all();
        while s.running == Some(next) {
            let (g, t) = sched.cv.wait_timeout(s, Duration::from_secs(2)).unwrap_or_else(PoisonError::into_inner);
            s = g;
            if t.timed_out() && s.running == Some(next) {
                s.running = None;
                s.st[next] = St::Away;
            }
        }
    }
}
