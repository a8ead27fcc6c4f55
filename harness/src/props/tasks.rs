//! C16: futures run on the system's pool.
use crate::pbt::*;
use crate::sim::*;
use crate::stress::{Class, or_stress};
use crate::{check, check_eq};
use kompact::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub static PROPS: [&Prop; 1] =
    [&Prop::new("C16", "at least two futures were spawned, and one waited for something", 200_000, 10_000_000, |s| or_stress(s, Class::Off, c16)).segment(100_000)];

type Handle = futures::channel::oneshot::Receiver<u64>;

#[derive(Clone, Copy, Debug)]
enum Step {
    Gate(usize),
    Yield,
    Spawn(usize),
    /// spawns another future and waits for its result
    Await(usize),
}

#[derive(Clone, Debug)]
struct Script {
    steps: Vec<Step>,
    panics: bool,
}

#[derive(Default)]
struct Inst {
    script: usize,
    steps: usize,
    finished: usize,
    panicked: usize,
    got: Vec<Result<u64, ()>>,
}

#[derive(Default)]
struct Inner {
    scripts: Vec<Script>,
    insts: Vec<Inst>,
    open: Vec<bool>,
    wakers: Vec<Vec<Waker>>,
    pings: Vec<u64>,
    dead: Vec<bool>,
    waits: usize,
    wrong: Vec<String>,
}
struct World(Mutex<Inner>);
type W = Arc<World>;

fn value(i: usize) -> u64 {
    1000 + 17 * i as u64
}

impl World {
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        progress();
        let mut g = match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(&mut g)
    }
    fn inst(&self, script: usize) -> Option<usize> {
        self.with(|g| {
            if g.insts.len() >= 40 {
                return None;
            }
            g.insts.push(Inst { script, ..Inst::default() });
            Some(g.insts.len() - 1)
        })
    }
    fn got(&self, i: usize, r: Result<u64, ()>) {
        self.with(|g| g.insts[i].got.push(r))
    }
    fn open(&self, i: usize) {
        let w = self.with(|g| {
            g.open[i] = true;
            std::mem::take(&mut g.wakers[i])
        });
        for w in w {
            w.wake();
        }
    }
}

struct GateFut(W, usize);
impl Future for GateFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        self.0.with(|g| {
            if g.open[self.1] {
                Poll::Ready(())
            } else {
                g.wakers[self.1].push(cx.waker().clone());
                g.waits += 1;
                Poll::Pending
            }
        })
    }
}
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

fn body(w: W, sys: KompactSystem, i: usize) -> futures::future::BoxFuture<'static, u64> {
    Box::pin(async move {
        let sc = w.with(|g| g.scripts[g.insts[i].script].clone());
        for st in sc.steps {
            match st {
                Step::Gate(g) => GateFut(w.clone(), g).await,
                Step::Yield => Yield(false).await,
                Step::Spawn(k) => {
                    if let Some(c) = w.inst(k) {
                        drop(sys.spawn(body(w.clone(), sys.clone(), c)));
                    }
                }
                Step::Await(k) => {
                    if let Some(c) = w.inst(k) {
                        let h = sys.spawn(body(w.clone(), sys.clone(), c));
                        let r = h.await.map_err(|_| ());
                        w.got(c, r);
                    }
                }
            }
            w.with(|g| g.insts[i].steps += 1);
        }
        if sc.panics {
            w.with(|g| g.insts[i].panicked += 1);
            panic!("kv test panic");
        }
        w.with(|g| g.insts[i].finished += 1);
        value(i)
    })
}

#[derive(Debug, Clone, Copy)]
enum How {
    Drop,
    Local,
    Block,
    /// awaits locally, then panics
    LocalPanic,
    /// spawns, then panics with the handle
    PanicNow,
    /// awaits on another future of the pool
    Off,
}

#[derive(Debug)]
enum Msg {
    Spawn(usize, How),
    Ping(u64),
}

#[derive(ComponentDefinition)]
struct Spawner {
    ctx: ComponentContext<Spawner>,
    me: usize,
    w: W,
    sys: KompactSystem,
}
impl ComponentLifecycle for Spawner {
    fn on_start(&mut self) -> HandlerResult {
        let id = *self.ctx.id();
        PASSIVE.with(|s| s.borrow_mut().remove(&id));
        Handled::OK
    }
}
impl Actor for Spawner {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        let w = self.w.clone();
        let me = self.me;
        match m {
            Msg::Ping(x) => {
                w.with(|g| g.pings.push(x));
                Handled::OK
            }
            Msg::Spawn(k, how) => {
                let Some(i) = w.inst(k) else { return Handled::OK };
                let h: Handle = self.spawn_off(body(w.clone(), self.sys.clone(), i));
                match how {
                    How::Drop => drop(h),
                    How::Local | How::LocalPanic => self.spawn_local(move |s| async move {
                        let r = h.await.map_err(|_| ());
                        w.got(i, r);
                        if s.me != me {
                            w.with(|g| g.wrong.push("local task runs with another component".into()));
                        }
                        if matches!(how, How::LocalPanic) {
                            w.with(|g| g.dead[me] = true);
                            panic!("kv test panic");
                        }
                        Handled::OK
                    }),
                    How::Block => {
                        return Handled::block_on(self, move |_s| async move {
                            let r = h.await.map_err(|_| ());
                            w.got(i, r);
                            Handled::OK
                        });
                    }
                    How::PanicNow => {
                        w.with(|g| g.dead[me] = true);
                        panic!("kv test panic");
                    }
                    How::Off => {
                        let h2 = self.spawn_off(async move {
                            let r = h.await.map_err(|_| ());
                            w.got(i, r);
                        });
                        drop(h2);
                    }
                }
                Handled::OK
            }
        }
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn c16(s: &mut Src) -> CaseResult {
    let sim = Sim::random(s)?;
    sim.sched.0.lock().unwrap().waive_double = true;
    let gates = 3;
    let ns = s.range(1, 5);
    let scripts: Vec<Script> = (0..ns)
        .map(|i| {
            let k = s.range(0, 4);
            let steps = (0..k)
                .map(|_| match s.weighted(&[3, 2, if i > 0 { 1 } else { 0 }, if i > 0 { 2 } else { 0 }]) {
                    0 => Step::Gate(s.idx(gates)),
                    1 => Step::Yield,
                    2 => Step::Spawn(s.idx(i)),
                    _ => Step::Await(s.idx(i)),
                })
                .collect();
            Script { steps, panics: s.chance(1, 5) }
        })
        .collect();
    for (i, x) in scripts.iter().enumerate() {
        s.note(|| format!("script {}: {:?}", i, x));
    }
    let n = s.range(1, 3);
    let w: W = Arc::new(World(Mutex::new(Inner {
        scripts,
        open: vec![false; gates],
        wakers: (0..gates).map(|_| vec![]).collect(),
        dead: vec![false; n],
        ..Inner::default()
    })));
    let mut comps = vec![];
    for me in 0..n {
        let (w2, sys) = (w.clone(), sim.sys.clone());
        let c = sim.sys.create(move || Spawner { ctx: ComponentContext::uninitialised(), me, w: w2, sys });
        PASSIVE.with(|p| p.borrow_mut().insert(c.id()));
        sim.sys.start(&c);
        comps.push(c);
    }
    let mut held: Vec<(usize, Handle)> = vec![];
    let r = (|| {
        let k = s.range(1, 25);
        for _ in 0..k {
            match s.weighted(&[4, 4, 8, 2, 3, 1]) {
                0 => {
                    let k = s.idx(ns);
                    if let Some(i) = w.inst(k) {
                        s.note(|| format!("harness spawns #{} (script {})", i, k));
                        let h = sim.sys.spawn(body(w.clone(), sim.sys.clone(), i));
                        if s.chance(3, 4) {
                            held.push((i, h));
                        } else {
                            s.note(|| format!("and drops the handle of #{}", i));
                        }
                    }
                }
                1 => {
                    let (c, k) = (s.idx(n), s.idx(ns));
                    let how = match s.weighted(&[2, 4, 2, 1, 1, 2]) {
                        0 => How::Drop,
                        1 => How::Local,
                        2 => How::Block,
                        3 => How::LocalPanic,
                        4 => How::PanicNow,
                        _ => How::Off,
                    };
                    s.note(|| format!("component {} spawns script {}: {:?}", c, k, how));
                    comps[c].actor_ref().tell(Msg::Spawn(k, how));
                }
                2 => sim.some(s, 6),
                3 => {
                    let g = s.idx(gates);
                    s.note(|| format!("gate {} opens", g));
                    w.open(g);
                }
                4 => {
                    if !held.is_empty() {
                        let k = s.idx(held.len());
                        if s.chance(1, 5) {
                            let (i, h) = held.remove(k);
                            s.note(|| format!("harness drops the handle of #{}", i));
                            drop(h);
                        } else {
                            let i = held[k].0;
                            if let Some(r) = poll_once(&mut held[k].1) {
                                s.note(|| format!("harness gets #{}: {:?}", i, r));
                                w.got(i, r.map_err(|_| ()));
                                held.remove(k);
                            }
                        }
                    }
                }
                _ => {
                    let c = s.idx(n);
                    s.note(|| format!("kill {}", c));
                    w.with(|g| g.dead[c] = true);
                    sim.sys.kill(comps[c].clone());
                }
            }
            c16_check(&w, false)?;
        }
        for g in 0..gates {
            w.open(g);
        }
        sim.run(s)?;
        for (i, mut h) in held.drain(..) {
            match poll_once(&mut h) {
                Some(r) => w.got(i, r.map_err(|_| ())),
                None => return fail("handle-stuck", format!("the handle of future {} is not ready although nothing is left to run", i)),
            }
        }
        c16_check(&w, true)?;
        // the others still work
        for (c, x) in comps.iter().enumerate() {
            if !w.with(|g| g.dead[c]) {
                x.actor_ref().tell(Msg::Ping(c as u64));
            }
        }
        sim.run(s)?;
        for c in 0..n {
            let (dead, k) = w.with(|g| (g.dead[c], g.pings.iter().filter(|p| **p == c as u64).count()));
            check!(dead || k == 1, "component-affected", "component {} did not handle a message any more", c);
        }
        Ok(())
    })();
    let (k, waits) = w.with(|g| (g.insts.len(), g.waits));
    s.nontrivial_if(k >= 2 && waits > 0);
    let old = w.with(|g| std::mem::take(&mut g.wakers));
    w.with(|g| g.wakers = (0..gates).map(|_| vec![]).collect());
    drop(old);
    drop(held);
    comps.clear();
    sim.dispose();
    r
}

fn c16_check(w: &W, quiet: bool) -> CaseResult {
    w.with(|g| {
        if let Some(p) = g.wrong.first() {
            return fail("world", p.clone());
        }
        for (i, x) in g.insts.iter().enumerate() {
            let sc = &g.scripts[x.script];
            check!(x.finished <= 1 && x.panicked <= 1, "ran-twice", "future {} finished {} times", i, x.finished + x.panicked);
            check!(x.steps <= sc.steps.len(), "ran-twice", "future {} took {} of {} steps", i, x.steps, sc.steps.len());
            check!(x.got.len() <= 1, "yielded-twice", "future {} yielded {:?}", i, x.got);
            match x.got.first() {
                Some(Ok(v)) => {
                    check_eq!(*v, value(i), "wrong-value", "value of future {}", i);
                    check!(x.finished == 1, "value-from-nowhere", "the handle of future {} is ready, but it has not finished", i);
                }
                Some(Err(())) => check!(x.panicked == 1, "value-lost", "the handle of future {} failed, but it has not panicked", i),
                None => (),
            }
            if quiet {
                check!(x.steps == sc.steps.len() && x.finished + x.panicked == 1, "not-finished", "future {} took {} of {} steps and finished {} times", i, x.steps, sc.steps.len(), x.finished);
            }
        }
        Ok(())
    })
}
