//! A deterministic scheduler for Kompact systems: every scheduling decision is a choice of the
//! generator, so a whole multi-component history is a function of the choice sequence.
use crate::pbt::*;
use futures::task::{ArcWake, noop_waker, waker};
use kompact::KompactLogger;
use kompact::component::SchedulingDecision;
use kompact::prelude::*;
use kompact::runtime::{Scheduler, SchedulerShutdownError};
use std::{
    collections::{HashMap, HashSet},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex, OnceLock},
    task::{Context, Poll},
};
use uuid::Uuid;

pub fn quiet_logger() -> KompactLogger {
    static L: OnceLock<KompactLogger> = OnceLock::new();
    L.get_or_init(|| {
        let drain = slog_async::Async::new(slog::Discard).chan_size(64).overflow_strategy(slog_async::OverflowStrategy::Drop).build();
        slog::Logger::root_typed(Arc::new(slog::Fuse(drain)), slog::o!())
    })
    .clone()
}

type BoxFut = futures::future::BoxFuture<'static, ()>;

struct TaskEntry {
    fut: Mutex<Option<BoxFut>>,
    queued: Mutex<bool>,
    sched: SimSched,
}
impl ArcWake for TaskEntry {
    fn wake_by_ref(me: &Arc<Self>) {
        let mut q = me.queued.lock().unwrap();
        if !*q {
            *q = true;
            progress();
            me.sched.0.lock().unwrap().ready.push(Item::Task(me.clone()));
        }
    }
}

enum Item {
    Comp(Arc<dyn CoreContainer>),
    Task(Arc<TaskEntry>),
}

thread_local!(
    /// number of the current component execution
    pub static EXEC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// counts everything that happens (handlers, schedulings, tasks) on this thread
    pub static PROGRESS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }
);
pub fn progress() {
    PROGRESS.with(|e| e.set(e.get() + 1));
}
thread_local!(
    /// Test components that are stopped. A stopped component with outstanding work is rescheduled
    /// again and again without doing anything; when only such components are runnable and running
    /// them has no effect, the system counts as quiescent.
    pub static PASSIVE: std::cell::RefCell<HashSet<Uuid>> = std::cell::RefCell::new(HashSet::new())
);
const IDLE_RUNS: usize = 3;

#[derive(Default)]
pub struct Inner {
    ready: Vec<Item>,
    running: Option<Uuid>,
    pub poisoned: bool,
    pub shut: bool,
    pub problems: Vec<String>,
    pub executions: HashMap<Uuid, u64>,
    pub steps: u64,
    /// wakers of blocking futures schedule a component directly, so it may be queued twice
    pub waive_double: bool,
}

#[derive(Clone, Default)]
pub struct SimSched(pub Arc<Mutex<Inner>>);

impl Scheduler for SimSched {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        progress();
        let mut g = self.0.lock().unwrap();
        if g.shut {
            return;
        }
        let id = c.id();
        if g.waive_double {
            g.ready.push(Item::Comp(c));
            return;
        }
        if g.running == Some(id) {
            g.problems.push(format!("component {} scheduled while it was executing", c.type_name()));
        }
        if g.ready.iter().any(|i| matches!(i, Item::Comp(o) if o.id() == id)) {
            g.problems.push(format!("component {} scheduled twice", c.type_name()));
        }
        g.ready.push(Item::Comp(c));
    }
    fn shutdown_async(&self) {
        self.0.lock().unwrap().shut = true;
    }
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        self.0.lock().unwrap().shut = true;
        Ok(())
    }
    fn shutdown_notify(&self) -> futures::future::BoxFuture<'static, Result<(), SchedulerShutdownError>> {
        self.0.lock().unwrap().shut = true;
        Box::pin(async { Ok(()) })
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        let mut g = self.0.lock().unwrap();
        g.poisoned = true;
        g.shut = true;
    }
    fn spawn(&self, future: BoxFut) {
        progress();
        let t = Arc::new(TaskEntry {
            fut: Mutex::new(Some(future)),
            queued: Mutex::new(true),
            sched: self.clone(),
        });
        self.0.lock().unwrap().ready.push(Item::Task(t));
    }
}

impl SimSched {
    pub fn ready(&self) -> usize {
        self.0.lock().unwrap().ready.len()
    }

    /// Runs the `k`-th runnable item.
    pub fn step(&self, k: usize) {
        let item = {
            let mut g = self.0.lock().unwrap();
            if k >= g.ready.len() {
                return;
            }
            g.steps += 1;
            g.ready.remove(k)
        };
        match item {
            Item::Comp(c) => {
                let id = c.id();
                {
                    let mut g = self.0.lock().unwrap();
                    g.running = Some(id);
                    *g.executions.entry(id).or_insert(0) += 1;
                }
                let mut resumes = 0;
                let d = loop {
                    EXEC.with(|e| e.set(e.get() + 1));
                    let d = c.execute();
                    if d == SchedulingDecision::Resume {
                        resumes += 1;
                        if resumes > 100_000 {
                            self.0.lock().unwrap().problems.push("component keeps resuming without end".into());
                            break SchedulingDecision::NoWork;
                        }
                        continue;
                    }
                    break d;
                };
                self.0.lock().unwrap().running = None;
                if d == SchedulingDecision::Schedule {
                    let c2 = c.clone();
                    let before = PROGRESS.with(|p| p.get());
                    c.system_schedule(c2, self);
                    if PASSIVE.with(|p| p.borrow().contains(&id)) {
                        PROGRESS.with(|p| p.set(before));
                    }
                }
            }
            Item::Task(t) => {
                progress();
                *t.queued.lock().unwrap() = false;
                let f = t.fut.lock().unwrap().take();
                if let Some(mut f) = f {
                    let w = waker(t.clone());
                    let mut cx = Context::from_waker(&w);
                    // a panicking task must not take the simulation down (pools contain it as well)
                    match no_panic(|| f.as_mut().poll(&mut cx)) {
                        Ok(Poll::Pending) => *t.fut.lock().unwrap() = Some(f),
                        _ => {}
                    }
                }
            }
        }
    }

    /// Runs until nothing is runnable; `Ok(false)` when `limit` steps did not suffice.
    pub fn drain(&self, src: &mut Src, limit: u64) -> bool {
        self.drain_by(limit, |n| src.idx(n))
    }

    pub fn drain_fifo(&self, limit: u64) -> bool {
        self.drain_by(limit, |_| 0)
    }

    fn drain_by(&self, limit: u64, mut pick: impl FnMut(usize) -> usize) -> bool {
        let mut idle = 0;
        for _ in 0..limit {
            let n = self.ready();
            if n == 0 {
                return true;
            }
            // after a few steps without effect: round robin, until something happens
            let k = if n == 1 || idle > 4 { 0 } else { pick(n) };
            let before = PROGRESS.with(|p| p.get());
            self.step(k);
            if PROGRESS.with(|p| p.get()) != before || self.ready() != n {
                idle = 0;
            } else {
                idle += 1;
                if idle > 4 + IDLE_RUNS * n {
                    return true;
                }
            }
        }
        self.ready() == 0
    }

    pub fn problem(&self) -> Option<String> {
        self.0.lock().unwrap().problems.first().cloned()
    }

    pub fn poisoned(&self) -> bool {
        self.0.lock().unwrap().poisoned
    }

    pub fn shut(&self) -> bool {
        self.0.lock().unwrap().shut
    }

    pub fn executions(&self, id: &Uuid) -> u64 {
        self.0.lock().unwrap().executions.get(id).copied().unwrap_or(0)
    }
}

trait ScheduleExt {
    fn system_schedule(&self, c: Arc<dyn CoreContainer>, s: &SimSched);
}
impl ScheduleExt for Arc<dyn CoreContainer> {
    // what `maybe_reschedule` of the executor-based schedulers does
    fn system_schedule(&self, c: Arc<dyn CoreContainer>, s: &SimSched) {
        s.schedule(c);
    }
}

pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    match Pin::new(f).poll(&mut cx) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

pub struct Sim {
    pub sys: KompactSystem,
    pub sched: SimSched,
    pub timer: kompact::timer::ManualTimer,
}

pub const LIMIT: u64 = 200_000;

impl Sim {
    pub fn config() -> (KompactConfig, SimSched, kompact::timer::ManualTimer) {
        let mut cfg = KompactConfig::default();
        cfg.logger(quiet_logger());
        cfg.load_config_str("[kompact.runtime]\nthreads = 1\nlabel = \"kv\"\n");
        let sched = SimSched::default();
        PASSIVE.with(|p| p.borrow_mut().clear());
        let s2 = sched.clone();
        cfg.scheduler(move |_| Box::new(s2.clone()));
        let timer = kompact::default_components::install_manual_timer(&mut cfg);
        (cfg, sched, timer)
    }

    pub fn start(cfg: KompactConfig, sched: SimSched, timer: kompact::timer::ManualTimer) -> Result<Sim, Failure> {
        let mut b = Box::pin(cfg.build());
        for _ in 0..50 {
            if let Some(r) = poll_once(&mut b) {
                let sys = match r {
                    Ok(s) => s,
                    Err(e) => return fail("build-failed", format!("system did not build: {:?}", e)),
                };
                return Ok(Sim { sys, sched, timer });
            }
            sched.drain_fifo(LIMIT);
        }
        fail("build-hang", "system did not become ready")
    }

    pub fn new(throughput: usize, priority: f32) -> Result<Sim, Failure> {
        let (mut cfg, sched, timer) = Sim::config();
        cfg.set_config_value(&kompact::config_keys::system::THROUGHPUT, throughput);
        cfg.set_config_value(&kompact::config_keys::system::MESSAGE_PRIORITY, priority);
        Sim::start(cfg, sched, timer)
    }

    /// Random throughput and message priority.
    pub fn random(src: &mut Src) -> Result<Sim, Failure> {
        let t = *src.pick(&[50usize, 1, 2, 3, 5, 10]);
        let p = *src.pick(&[0.5f32, 0.1, 0.9]);
        src.note(|| format!("throughput={} priority={}", t, p));
        Sim::new(t, p)
    }

    pub fn run(&self, src: &mut Src) -> CaseResult {
        if !self.sched.drain(src, LIMIT) {
            return fail("no-quiescence", format!("system still busy after {} executions without external stimulus", LIMIT));
        }
        self.ok()
    }

    /// A few scheduling steps.
    pub fn some(&self, src: &mut Src, max: usize) {
        let k = src.range(0, max);
        for _ in 0..k {
            let n = self.sched.ready();
            if n == 0 {
                break;
            }
            let i = if n == 1 { 0 } else { src.idx(n) };
            self.sched.step(i);
        }
    }

    pub fn ok(&self) -> CaseResult {
        if let Some(p) = self.sched.problem() {
            return fail("double-schedule", p);
        }
        Ok(())
    }

    /// Lets go of as much memory as possible: a Kompact system is never freed as a whole, because
    /// its system components and the system refer to each other.
    pub fn dispose(&self) {
        if !self.sched.shut() {
            let mut f = Box::pin(self.sys.clone().shutdown());
            for _ in 0..5 {
                if no_panic(|| poll_once(&mut f).is_some()).unwrap_or(true) {
                    break;
                }
                self.sched.drain_fifo(10_000);
            }
        }
        let mut g = self.sched.0.lock().unwrap();
        g.shut = true;
        let old = std::mem::take(&mut g.ready);
        drop(g);
        drop(old);
    }

    /// Shuts the system down, running the scheduler as needed.
    pub fn shutdown(self, src: &mut Src) -> CaseResult {
        let mut f = Box::pin(self.sys.clone().shutdown());
        for _ in 0..100 {
            if let Some(r) = poll_once(&mut f) {
                return match r {
                    Ok(()) => Ok(()),
                    Err(e) => fail("shutdown-error", format!("shutdown failed: {:?}", e)),
                };
            }
            if !self.sched.drain(src, LIMIT) {
                return fail("shutdown-no-quiescence", "system still busy during shutdown");
            }
        }
        fail("shutdown-hang", "shutdown did not complete although nothing is left to run")
    }
}
