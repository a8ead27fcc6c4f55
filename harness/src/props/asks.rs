//! C11: requests that carry their own reply handle.
use crate::pbt::*;
use crate::sim::*;
use crate::stress::{Class, or_stress};
use crate::uni::TestErr;
use crate::{check, check_eq};
use kompact::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub static PROPS: [&Prop; 1] =
    [&Prop::new("C11", "at least three requests were made, and one was not answered at once", 200_000, 10_000_000, |s| or_stress(s, Class::Ask, c11)).segment(100_000)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pol {
    Now,
    Complete,
    Drop,
    Store,
    Block(usize),
    BlockDrop(usize),
    Local(usize),
    Off(usize),
    Forward(usize),
    Nested(usize),
    PanicBefore,
    PanicAfter,
    FailBefore,
    Take,
}

#[derive(Default)]
struct Req {
    hops: Vec<Pol>,
    hop: usize,
    to: usize,
    fut: Option<KFuture<u64>>,
    forgotten: bool,
    /// asked by a task of a component, which may go away with the component
    nested: bool,
    /// value given to the reply handle
    replied: bool,
    /// the reply handle is known to be gone without a reply
    dropped: bool,
    result: Option<Result<u64, ()>>,
    seen: usize,
}

#[derive(Default)]
struct Inner {
    reqs: Vec<Req>,
    open: Vec<bool>,
    wakers: Vec<Vec<Waker>>,
    taken: Vec<(u64, KPromise<u64>)>,
    refs: Vec<ActorRef<Msg>>,
    problems: Vec<String>,
    dead: Vec<bool>,
    budget: usize,
}
struct World(Mutex<Inner>);
type W = Arc<World>;

fn value(id: u64) -> u64 {
    id * 31 + 7
}

impl World {
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        progress();
        let mut g = match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(&mut g)
    }
    fn replied(&self, id: u64, r: Result<(), PromiseErr>) {
        self.with(|g| {
            let q = &mut g.reqs[id as usize];
            if q.replied {
                g.problems.push(format!("request {} was handed out twice", id));
                return;
            }
            q.replied = true;
            if !q.nested && r.is_ok() == q.forgotten {
                g.problems.push(format!("reply to request {} reported {:?}, but the asker {}", id, r.map_err(|e| e.to_string()), if q.forgotten { "had gone" } else { "was waiting" }));
            }
        })
    }
    fn dropped(&self, id: u64) {
        self.with(|g| g.reqs[id as usize].dropped = true)
    }
    fn ask(&self, from_fut: bool, to: usize, hops: Vec<Pol>, kind: u64) -> (u64, Option<KFuture<u64>>) {
        let (id, r) = self.with(|g| {
            g.reqs.push(Req { hops, to, nested: from_fut, ..Req::default() });
            (g.reqs.len() as u64 - 1, g.refs[to].clone())
        });
        let f = match kind {
            0 => r.ask_with(|p| Msg::Ask(Ask::new(p, id))),
            1 => r.ask_with(|p| Msg::Ask(Ask::of(id)(p))),
            2 => match r.hold() {
                Some(s) => s.ask_with(|p| Msg::Ask(Ask::new(p, id))),
                None => r.ask_with(|p| Msg::Ask(Ask::new(p, id))),
            },
            _ => {
                // the same thing by hand, through a recipient
                let (p, f) = promise();
                r.recipient::<Ask<u64, u64>>().tell(Ask::new(p, id));
                f
            }
        };
        if from_fut {
            return (id, Some(f));
        }
        self.with(|g| g.reqs[id as usize].fut = Some(f));
        (id, None)
    }
    fn open(&self, i: usize) {
        let w = self.with(|g| {
            g.open[i] = true;
            std::mem::take(&mut g.wakers[i])
        });
        for w in w {
            w.wake();
        }
    }
}

struct GateFut(W, usize);
impl Future for GateFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        self.0.with(|g| {
            if g.open[self.1] {
                Poll::Ready(())
            } else {
                g.wakers[self.1].push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

#[derive(Debug)]
enum Msg {
    Ask(Ask<u64, u64>),
    /// answers the k-th stored request (or drops it)
    Flush(usize, bool),
}
impl From<Ask<u64, u64>> for Msg {
    fn from(a: Ask<u64, u64>) -> Msg {
        Msg::Ask(a)
    }
}

#[derive(ComponentDefinition)]
struct Resp {
    ctx: ComponentContext<Resp>,
    me: usize,
    w: W,
    stored: Vec<Ask<u64, u64>>,
}

impl Resp {
    fn passive(&self, p: bool) {
        let id = *self.ctx.id();
        progress();
        PASSIVE.with(|s| if p { s.borrow_mut().insert(id) } else { s.borrow_mut().remove(&id) });
    }
}

impl ComponentLifecycle for Resp {
    fn on_start(&mut self) -> HandlerResult {
        self.passive(false);
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.passive(true);
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.passive(false);
        let me = self.me;
        self.w.with(|g| g.dead[me] = true);
        Handled::OK
    }
}

impl Actor for Resp {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        let w = self.w.clone();
        let me = self.me;
        let a = match m {
            Msg::Flush(k, reply) => {
                if !self.stored.is_empty() {
                    let k = k % self.stored.len();
                    let a = self.stored.remove(k);
                    let id = *a.request();
                    if reply {
                        w.replied(id, a.reply(value(id)));
                    } else {
                        drop(a);
                        w.dropped(id);
                    }
                } else {
                    w.with(|_| ());
                }
                return Handled::OK;
            }
            Msg::Ask(a) => a,
        };
        let id = *a.request();
        let pol = w.with(|g| {
            let q = &mut g.reqs[id as usize];
            q.seen += 1;
            if q.to != me {
                g.problems.push(format!("request {} for {} arrived at {}", id, q.to, me));
            }
            let p = q.hops.get(q.hop).copied().unwrap_or(Pol::Now);
            q.hop += 1;
            p
        });
        match pol {
            Pol::Now => w.replied(id, a.reply(value(id))),
            Pol::Complete => {
                let r = a.complete(value);
                w.replied(id, r)
            }
            Pol::Drop => {
                drop(a);
                w.dropped(id)
            }
            Pol::Store => self.stored.push(a),
            Pol::Take => {
                let (p, _) = a.take();
                w.with(|g| g.taken.push((id, p)));
            }
            Pol::Block(gate) => {
                return Handled::block_on(self, move |_s| async move {
                    let w2 = w.clone();
                    let r = a
                        .complete_with(move |id| async move {
                            GateFut(w2, gate).await;
                            value(id)
                        })
                        .await;
                    w.replied(id, r);
                    Handled::OK
                });
            }
            Pol::BlockDrop(gate) => {
                return Handled::block_on(self, move |_s| async move {
                    GateFut(w.clone(), gate).await;
                    drop(a);
                    w.dropped(id);
                    Handled::OK
                });
            }
            Pol::Local(gate) => self.spawn_local(move |_s| async move {
                GateFut(w.clone(), gate).await;
                w.replied(id, a.reply(value(id)));
                Handled::OK
            }),
            Pol::Off(gate) => {
                let h = self.spawn_off(async move {
                    let w2 = w.clone();
                    let r = a
                        .complete_with(move |id| async move {
                            GateFut(w2, gate).await;
                            value(id)
                        })
                        .await;
                    w.replied(id, r);
                });
                drop(h);
            }
            Pol::Forward(to) => {
                let r = w.with(|g| {
                    g.reqs[id as usize].to = to;
                    g.refs[to].clone()
                });
                r.tell(a);
            }
            Pol::Nested(to) => {
                if w.with(|g| {
                    let ok = g.budget > 0;
                    g.budget = g.budget.saturating_sub(1);
                    !ok
                }) {
                    w.replied(id, a.reply(value(id)));
                    return Handled::OK;
                }
                let rest: Vec<Pol> = w.with(|g| g.reqs[id as usize].hops[1..].to_vec());
                let (nid, f) = w.ask(true, to, rest, 0);
                self.spawn_local(move |_s| async move {
                    let r = f.unwrap().await;
                    let got = r.as_ref().map(|x| *x).map_err(|_| ());
                    w.with(|g| g.reqs[nid as usize].result = Some(got));
                    match r {
                        Ok(_) => w.replied(id, a.reply(value(id))),
                        Err(_) => {
                            drop(a);
                            w.dropped(id);
                        }
                    }
                    Handled::OK
                });
            }
            Pol::PanicBefore => {
                w.with(|g| {
                    g.dead[me] = true;
                    g.reqs[id as usize].dropped = true;
                });
                panic!("kv test panic");
            }
            Pol::PanicAfter => {
                w.replied(id, a.reply(value(id)));
                w.with(|g| g.dead[me] = true);
                panic!("kv test panic");
            }
            Pol::FailBefore => {
                w.with(|g| {
                    g.dead[me] = true;
                    g.reqs[id as usize].dropped = true;
                });
                return Err(HandlerError::recoverable(TestErr));
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn poll_all(w: &W, all_gone: bool, deadlist: bool) -> CaseResult {
    let n = w.with(|g| g.reqs.len());
    for id in 0..n {
        let Some(mut f) = w.with(|g| g.reqs[id].fut.take()) else { continue };
        let (replied, dropped, to_dead) = w.with(|g| {
            let q = &g.reqs[id];
            (q.replied, q.dropped, g.dead[q.to])
        });
        match poll_once(&mut f) {
            None => {
                check!(!replied, "reply-lost", "request {} was answered but the asker still waits", id);
                check!(!dropped, "drop-unnoticed", "request {} was dropped by the responder but the asker still waits", id);
                check!(!all_gone, "left-hanging", "request {} still waits although every responder is gone", id);
                w.with(|g| g.reqs[id].fut = Some(f));
            }
            Some(Ok(v)) => {
                check_eq!(v, value(id as u64), "wrong-reply", "request {} was answered with", id);
                check!(replied, "reply-from-nowhere", "request {} completed although nobody answered it", id);
                w.with(|g| g.reqs[id].result = Some(Ok(v)));
            }
            Some(Err(_)) => {
                check!(!replied, "reply-lost", "request {} was answered but the asker got an error", id);
                check!(dropped || all_gone || to_dead || deadlist, "spurious-error", "request {} failed although its responder is alive and has not dropped it", id);
                w.with(|g| g.reqs[id].result = Some(Err(())));
            }
        }
    }
    w.with(|g| match g.problems.first() {
        Some(p) => fail("world", p.clone()),
        None => Ok(()),
    })
}

fn gen_pol(s: &mut Src, n: usize, faults: bool) -> Pol {
    match s.weighted(&[4, 1, 2, 4, 2, 1, 3, 2, 3, 2, faults as u64, faults as u64, faults as u64, 2]) {
        0 => Pol::Now,
        1 => Pol::Complete,
        2 => Pol::Drop,
        3 => Pol::Store,
        4 => Pol::Block(s.idx(2)),
        5 => Pol::BlockDrop(s.idx(2)),
        6 => Pol::Local(s.range(0, 3)),
        7 => Pol::Off(s.range(0, 3)),
        8 => Pol::Forward(s.idx(n)),
        9 => Pol::Nested(s.idx(n)),
        10 => Pol::PanicBefore,
        11 => Pol::PanicAfter,
        12 => Pol::FailBefore,
        _ => Pol::Take,
    }
}

fn c11(s: &mut Src) -> CaseResult {
    let sim = Sim::random(s)?;
    sim.sched.0.lock().unwrap().waive_double = true;
    let n = s.range(1, 3);
    let w: W = Arc::new(World(Mutex::new(Inner {
        open: vec![false; 4],
        wakers: (0..4).map(|_| vec![]).collect(),
        dead: vec![false; n],
        budget: 10,
        ..Inner::default()
    })));
    let mut comps: Vec<Option<Arc<Component<Resp>>>> = vec![];
    for me in 0..n {
        let w2 = w.clone();
        let c = sim.sys.create(move || Resp { ctx: ComponentContext::uninitialised(), me, w: w2, stored: vec![] });
        PASSIVE.with(|p| p.borrow_mut().insert(c.id()));
        w.with(|g| g.refs.push(c.actor_ref()));
        comps.push(Some(c));
    }
    let mut strong = vec![];
    for c in comps.iter().flatten() {
        if s.chance(1, 4) {
            strong.push(c.actor_ref().hold());
        }
        if !s.chance(1, 6) {
            sim.sys.start(c);
        }
    }
    let faults = s.chance(1, 3);
    let r = c11_run(s, &sim, &w, n, &mut comps, faults);
    // everything goes away: nobody may be left waiting
    let fin = r.and_then(|_| {
        for g in 0..2 {
            w.open(g);
        }
        let open_all = s.flag();
        if open_all {
            w.open(2);
            w.open(3);
        }
        sim.run(s)?;
        poll_all(&w, false, true)?;
        for c in comps.iter().flatten() {
            sim.sys.kill(c.clone());
        }
        sim.run(s)?;
        strong.clear();
        comps.clear();
        sim.run(s)?;
        let left = w.with(|g| (std::mem::take(&mut g.taken), std::mem::take(&mut g.wakers)));
        drop(left);
        w.with(|g| g.wakers = (0..4).map(|_| vec![]).collect());
        sim.run(s)?;
        poll_all(&w, true, true)
    });
    let (n, slow) = w.with(|g| {
        let slow = g.reqs.iter().any(|q| !matches!(q.hops.first(), None | Some(Pol::Now | Pol::Complete)));
        (g.reqs.len(), slow)
    });
    s.nontrivial_if(n >= 3 && slow);
    s.label(if n < 5 { "requests<5" } else { "requests>=5" });
    let old = w.with(|g| {
        let t = std::mem::take(&mut g.taken);
        let k = std::mem::take(&mut g.wakers);
        let f: Vec<_> = g.reqs.iter_mut().map(|q| q.fut.take()).collect();
        g.wakers = (0..4).map(|_| vec![]).collect();
        (t, k, f)
    });
    drop(old);
    sim.dispose();
    fin
}

fn c11_run(s: &mut Src, sim: &Sim, w: &W, n: usize, comps: &mut [Option<Arc<Component<Resp>>>], faults: bool) -> CaseResult {
    let k = s.range(1, 30);
    let mut gone = false;
    for _ in 0..k {
        match s.weighted(&[10, 10, 3, 2, 3, 2, 1, 2, 1]) {
            0 => {
                let to = s.idx(n);
                let h = s.range(1, 3);
                let mut hops: Vec<Pol> = (0..h).map(|_| gen_pol(s, n, faults)).collect();
                // only forwarding and nesting lead to a second hop
                if let Some(k) = hops.iter().position(|p| !matches!(p, Pol::Forward(_) | Pol::Nested(_))) {
                    hops.truncate(k + 1);
                }
                let kind = s.below(4);
                s.note(|| format!("request #{} to {} (kind {}): {:?}", w.with(|g| g.reqs.len()), to, kind, hops));
                w.ask(false, to, hops, kind);
            }
            1 => sim.some(s, 5),
            2 => {
                let to = s.idx(n);
                let (k, reply) = (s.idx(8), s.chance(3, 4));
                s.note(|| format!("component {} {} stored request {}", to, if reply { "answers" } else { "drops" }, k));
                let r = w.with(|g| g.refs[to].clone());
                r.tell(Msg::Flush(k, reply));
            }
            3 => {
                // the asker loses interest
                let id = s.idx(w.with(|g| g.reqs.len()).max(1));
                let f = w.with(|g| match g.reqs.get_mut(id) {
                    Some(q) if q.fut.is_some() => {
                        q.forgotten = !q.replied;
                        q.fut.take()
                    }
                    _ => None,
                });
                if f.is_some() {
                    s.note(|| format!("asker of #{} goes away", id));
                }
                drop(f);
            }
            4 => {
                let t = w.with(|g| if g.taken.is_empty() { None } else { Some(g.taken.len()) });
                if let Some(t) = t {
                    let k = s.idx(t);
                    let (id, p) = w.with(|g| g.taken.remove(k));
                    if s.chance(3, 4) {
                        s.note(|| format!("harness answers #{}", id));
                        w.replied(id, p.fulfil(value(id)));
                    } else {
                        s.note(|| format!("harness drops #{}", id));
                        drop(p);
                        w.dropped(id);
                    }
                }
            }
            5 => {
                let g = s.idx(4);
                s.note(|| format!("gate {} opens", g));
                w.open(g);
            }
            6 => {
                let c = s.idx(n);
                if let Some(x) = &comps[c] {
                    s.note(|| format!("kill {}", c));
                    sim.sys.kill(x.clone());
                    gone = true;
                }
            }
            7 => {
                let c = s.idx(n);
                if let Some(x) = &comps[c] {
                    if s.flag() {
                        s.note(|| format!("stop {}", c));
                        sim.sys.stop(x);
                    } else {
                        s.note(|| format!("start {}", c));
                        sim.sys.start(x);
                    }
                }
            }
            _ => {
                let c = s.idx(n);
                // (a started component is kept alive by its supervisor)
                if let Some(x) = comps[c].take() {
                    s.note(|| format!("harness kills and lets go of {}", c));
                    sim.sys.kill(x);
                    gone = true;
                }
            }
        }
        poll_all(w, false, gone || faults)?;
    }
    Ok(())
}
