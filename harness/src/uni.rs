//! A universal scriptable component and the world that records what it does.
//!
//! Handlers interpret templates (`Tmpl`): a list of actions followed by the handler's outcome. A
//! template may only refer to later templates, so a history is finite. Everything handled is
//! recorded in one global log, which the properties compare with what was sent.
use crate::pbt::*;
use crate::sim::*;
use kompact::component::AbstractComponent;
use kompact::prelude::*;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use uuid::Uuid;

pub struct PA;
impl Port for PA {
    type Indication = u64;
    type Request = u64;
}
pub struct PB;
impl Port for PB {
    type Indication = u64;
    type Request = u64;
}

#[derive(Debug)]
pub struct Item(pub u64);
#[derive(Debug)]
pub struct Other(pub u64);

#[derive(Debug)]
pub enum Msg {
    Item(u64),
    Ask(Ask<u64, u64>),
}
impl From<Item> for Msg {
    fn from(i: Item) -> Msg {
        Msg::Item(i.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ref {
    Weak,
    Strong,
    Recipient,
    RecipientWith,
    Dyn,
    Ask,
    SelfCtx,
}
pub const REFS: [Ref; 7] = [Ref::Weak, Ref::Strong, Ref::Recipient, Ref::RecipientWith, Ref::Dyn, Ref::Ask, Ref::SelfCtx];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Q {
    Msg,
    /// request on the provided port of this type
    Req(u8),
    /// indication on the required port of this type
    Ind(u8),
    Timer,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Life {
    Start,
    Stop,
    Kill,
}

#[derive(Clone, Debug)]
pub enum Act {
    Send { to: usize, r: Ref, t: usize },
    TrigInd { port: u8, t: usize },
    TrigReq { port: u8, t: usize },
    Once { delay: u64, t: usize },
    Periodic { delay: u64, period: u64, t: usize },
    /// cancels the k-th timer this component ever created
    Cancel { k: usize },
    Spawn { steps: Vec<(Option<usize>, usize)>, end: End },
    Ctl { to: usize, what: Life },
    Recovery { tag: u64 },
    Suicide,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Benign,
    Recoverable,
    Unrecoverable,
    Panic,
    Shutdown,
    /// block on a gate (none: a ready future), then run a template
    Block { gate: Option<usize>, t: Option<usize>, nested: Option<usize> },
}

#[derive(Clone, Debug)]
pub struct Tmpl {
    pub acts: Vec<Act>,
    pub end: End,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Life(Life),
    Handle(Q),
    Task,
    /// continuation of a blocking handler
    After,
    /// recovery function ran (inst = its tag)
    Recovery,
    RecoveryAction,
    /// outcome of the script just run
    Out(O),
    /// blocks on a gate (none: a future that is ready)
    Blocked(Option<usize>),
    /// a gate was opened (comp = harness, inst = gate)
    Open,
    /// a mark of the harness
    Mark,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum O {
    Ok,
    Benign,
    Recoverable,
    Unrecoverable,
    Panic,
    Shutdown,
    Block,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub comp: usize,
    pub k: K,
    pub inst: u64,
    pub now: u64,
    pub exec: u64,
    pub thread: u64,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub from: usize,
    pub to: Option<usize>,
    pub q: Q,
    pub r: Option<Ref>,
    pub port_peers: Vec<usize>,
    pub t: usize,
    pub at: usize,
}

#[derive(Clone, Debug)]
pub struct TimerRec {
    pub comp: usize,
    pub inst: u64,
    pub set_at: u64,
    pub delay: u64,
    pub period: Option<u64>,
    pub cancelled: Option<(usize, u64)>,
}

#[derive(Default)]
pub struct Gate {
    pub open: bool,
    pub wakers: Vec<Waker>,
}

pub struct Node {
    pub comp: Arc<dyn AbstractComponent<Message = Msg>>,
    pub typed: Option<Arc<Component<Uni>>>,
    pub weak: ActorRef<Msg>,
    pub strong: Option<ActorRefStrong<Msg>>,
    pub recip: Recipient<Item>,
    pub recip_with: Recipient<Other>,
    pub dynr: DynActorRef,
    pub path: ActorPath,
    pub pa: ProvidedRef<PA>,
    pub ra: RequiredRef<PA>,
    pub pb: ProvidedRef<PB>,
    pub rb: RequiredRef<PB>,
}

pub struct Inner {
    pub log: Vec<Ev>,
    pub sent: Vec<Sent>,
    pub tmpl: Vec<Tmpl>,
    pub budget: i64,
    pub gates: Vec<Gate>,
    pub timers: Vec<TimerRec>,
    pub asks: Vec<(u64, KFuture<u64>)>,
    /// lifecycle commands in the order given, per component
    pub ctl: Vec<Vec<Life>>,
    /// (provider, requirer, port) channel sides: events from `.0` reach `.1`
    pub ind_conn: Vec<Vec<Vec<usize>>>,
    pub req_conn: Vec<Vec<Vec<usize>>>,
    pub problems: Vec<String>,
    pub life: Vec<[Option<usize>; 3]>,
    pub tasks_done: Vec<u64>,
    pub tasks_spawned: Vec<(usize, u64, Vec<(Option<usize>, usize)>)>,
    pub recoveries: Vec<(usize, u64)>,
    pub task_ends: Vec<(u64, End)>,
}

pub struct World {
    pub m: Mutex<Inner>,
    pub nodes: Mutex<Vec<Arc<Node>>>,
    pub timer: Mutex<Option<kompact::timer::ManualTimer>>,
    pub sys: Mutex<Option<KompactSystem>>,
    pub dyn_dst: Mutex<Option<ActorPath>>,
}
pub type W = Arc<World>;
pub const HARNESS: usize = usize::MAX;

fn thread_no() -> u64 {
    use std::sync::atomic::AtomicU64;
    static N: AtomicU64 = AtomicU64::new(1);
    thread_local!(static ME: u64 = N.fetch_add(1, Ordering::Relaxed));
    ME.with(|x| *x)
}

impl World {
    pub fn new(n: usize, tmpl: Vec<Tmpl>, gates: usize, budget: i64) -> W {
        Arc::new(World {
            m: Mutex::new(Inner {
                log: vec![],
                sent: vec![],
                tmpl,
                budget,
                gates: (0..gates).map(|_| Gate::default()).collect(),
                timers: vec![],
                asks: vec![],
                ctl: vec![vec![]; n],
                ind_conn: vec![vec![vec![]; 2]; n],
                req_conn: vec![vec![vec![]; 2]; n],
                problems: vec![],
                life: vec![[None; 3]; n],
                tasks_done: vec![],
                tasks_spawned: vec![],
                recoveries: vec![],
                task_ends: vec![],
            }),
            nodes: Mutex::new(vec![]),
            timer: Mutex::new(None),
            sys: Mutex::new(None),
            dyn_dst: Mutex::new(None),
        })
    }

    pub fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }

    pub fn node(&self, i: usize) -> Arc<Node> {
        self.nodes.lock().unwrap()[i].clone()
    }

    pub fn now(&self) -> u64 {
        self.timer.lock().unwrap().as_ref().map(|t| t.elapsed().as_millis() as u64).unwrap_or(0)
    }

    pub fn sys(&self) -> KompactSystem {
        self.sys.lock().unwrap().as_ref().unwrap().clone()
    }

    pub fn log(&self, comp: usize, k: K, inst: u64) -> usize {
        progress();
        if let K::Life(l) = k {
            let id = self.node(comp).comp.id();
            PASSIVE.with(|p| if l == Life::Stop { p.borrow_mut().insert(id) } else { p.borrow_mut().remove(&id) });
        }
        let now = self.now();
        let mut g = self.lock();
        let exec = EXEC.with(|e| e.get());
        g.log.push(Ev { comp, k, inst, now, exec, thread: thread_no() });
        g.log.len() - 1
    }

    /// Uses up some of the budget for actions.
    pub fn spend(&self) -> bool {
        let mut g = self.lock();
        g.budget -= 1;
        g.budget >= 0
    }

    /// Registers a send; `None` when the budget is used up.
    pub fn instance(&self, from: usize, to: Option<usize>, q: Q, r: Option<Ref>, t: usize, peers: Vec<usize>) -> Option<u64> {
        let mut g = self.lock();
        if g.budget <= 0 {
            return None;
        }
        g.budget -= 1;
        let at = g.log.len();
        g.sent.push(Sent { from, to, q, r, port_peers: peers, t, at });
        Some(g.sent.len() as u64 - 1)
    }

    pub fn send(&self, from: usize, to: usize, r: Ref, t: usize, own: Option<&Uni>) {
        // keep the record and the enqueueing in one order per sender: each sender is sequential
        let Some(i) = self.instance(from, Some(to), Q::Msg, Some(r), t, vec![]) else { return };
        let n = self.node(to);
        match r {
            Ref::Weak => n.weak.tell(Item(i)),
            Ref::Strong => match &n.strong {
                Some(s) => s.tell(Item(i)),
                None => n.weak.tell(Item(i)),
            },
            Ref::Recipient => n.recip.tell(Item(i)),
            Ref::RecipientWith => n.recip_with.tell(Other(i)),
            Ref::Dyn => {
                let m = NetMessage::with_box(<u64 as Deserialiser<u64>>::SER_ID, n.path.clone(), n.path.clone(), Box::new(i));
                n.dynr.tell(m);
            }
            Ref::Ask => {
                let f = n.weak.ask_with(|p| Msg::Ask(Ask::new(p, i)));
                self.lock().asks.push((i, f));
            }
            Ref::SelfCtx => match own {
                Some(u) if u.me == to => u.ctx.actor_ref().tell(Item(i)),
                _ => n.comp.actor_ref().tell(Item(i)),
            },
        }
    }

    pub fn ctl(&self, to: usize, what: Life) {
        self.lock().ctl[to].push(what);
        let n = self.node(to);
        let sys = self.sys();
        match what {
            Life::Start => sys.start(&n.comp),
            Life::Stop => sys.stop(&n.comp),
            Life::Kill => sys.kill(n.comp.clone()),
        }
    }

    pub fn ctl_notify(&self, to: usize, what: Life) -> KFuture<()> {
        self.lock().ctl[to].push(what);
        let n = self.node(to);
        let sys = self.sys();
        match what {
            Life::Start => sys.start_notify(&n.comp),
            Life::Stop => sys.stop_notify(&n.comp),
            Life::Kill => sys.kill_notify(n.comp.clone()),
        }
    }

    pub fn open(&self, gate: usize) {
        let ws = {
            let mut g = self.lock();
            g.gates[gate].open = true;
            std::mem::take(&mut g.gates[gate].wakers)
        };
        self.log(HARNESS, K::Open, gate as u64);
        for w in ws {
            w.wake();
        }
    }

    /// Wakes whoever waits at the gate without opening it.
    pub fn poke(&self, gate: usize) {
        let ws = self.lock().gates[gate].wakers.clone();
        for w in ws {
            w.wake_by_ref();
        }
    }

    pub fn problem(&self, s: String) {
        self.lock().problems.push(s);
    }

    /// Breaks reference cycles.
    pub fn clear(&self) {
        self.nodes.lock().unwrap().clear();
        *self.sys.lock().unwrap() = None;
        *self.timer.lock().unwrap() = None;
        let old = {
            let mut g = self.lock();
            let a = std::mem::take(&mut g.asks);
            let b: Vec<Waker> = g.gates.iter_mut().flat_map(|x| std::mem::take(&mut x.wakers)).collect();
            (a, b)
        };
        drop(old);
    }
}

pub struct GateFut(pub W, pub Option<usize>);
impl Future for GateFut {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let Some(i) = self.1 else { return Poll::Ready(()) };
        let mut g = self.0.lock();
        if g.gates[i].open {
            Poll::Ready(())
        } else {
            g.gates[i].wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

#[derive(ComponentDefinition)]
pub struct Uni {
    pub ctx: ComponentContext<Uni>,
    pub pa: ProvidedPort<PA>,
    pub ra: RequiredPort<PA>,
    pub pb: ProvidedPort<PB>,
    pub rb: RequiredPort<PB>,
    pub me: usize,
    pub w: W,
    pub busy: Arc<AtomicBool>,
    pub timers: Vec<(u64, ScheduledTimer)>,
    /// written by handlers, read by the harness
    pub handled: u64,
}

#[derive(Debug)]
pub struct TestErr;
impl std::fmt::Display for TestErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("test")
    }
}
impl std::error::Error for TestErr {}

struct Busy(Arc<AtomicBool>);
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.store(false, Ordering::SeqCst);
    }
}

impl Uni {
    pub fn new(me: usize, w: W) -> Uni {
        Uni {
            ctx: ComponentContext::uninitialised(),
            pa: ProvidedPort::uninitialised(),
            ra: RequiredPort::uninitialised(),
            pb: ProvidedPort::uninitialised(),
            rb: RequiredPort::uninitialised(),
            me,
            w,
            busy: Arc::new(AtomicBool::new(false)),
            timers: vec![],
            handled: 0,
        }
    }

    fn enter(&mut self) -> Busy {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.w.problem(format!("component {} entered by two threads at once", self.me));
        }
        Busy(self.busy.clone())
    }

    fn on(&mut self, k: K, inst: u64, t: Option<usize>) -> HandlerResult {
        let _b = self.enter();
        self.handled += 1;
        self.w.log(self.me, k, inst);
        let Some(t) = t else {
            self.w.log(self.me, K::Out(O::Ok), inst);
            return Handled::OK;
        };
        self.script(t, inst)
    }

    fn script(&mut self, t: usize, inst: u64) -> HandlerResult {
        let tm = self.w.lock().tmpl[t].clone();
        for a in tm.acts {
            self.act(a);
        }
        self.end(tm.end, inst)
    }

    fn end(&mut self, end: End, inst: u64) -> HandlerResult {
        let o = match &end {
            End::Ok => O::Ok,
            End::Benign => O::Benign,
            End::Recoverable => O::Recoverable,
            End::Unrecoverable => O::Unrecoverable,
            End::Panic => O::Panic,
            End::Shutdown => O::Shutdown,
            End::Block { .. } => O::Block,
        };
        self.w.log(self.me, K::Out(o), inst);
        match end {
            End::Ok => Handled::OK,
            End::Benign => Err(HandlerError::benign(TestErr)),
            End::Recoverable => Err(HandlerError::recoverable(TestErr)),
            End::Unrecoverable => Err(HandlerError::unrecoverable(TestErr)),
            End::Panic => panic!("kv test panic"),
            End::Shutdown => Handled::SHUTDOWN,
            End::Block { gate, t, nested } => {
                let w = self.w.clone();
                w.log(self.me, K::Blocked(gate), inst);
                Handled::block_on(self, move |mut s| async move {
                    GateFut(w.clone(), gate).await;
                    let mut r = s.on(K::After, inst, t);
                    if let (Some(g2), Ok(Handled::Ok)) = (nested, &r) {
                        // a blocking future whose result is to block again
                        let me: &mut Uni = &mut s;
                        w.log(me.me, K::Blocked(Some(g2)), inst);
                        r = Handled::block_on(me, move |mut s2| async move {
                            GateFut(w, Some(g2)).await;
                            s2.on(K::After, inst, None)
                        });
                    }
                    r
                })
            }
        }
    }

    fn act(&mut self, a: Act) {
        let w = self.w.clone();
        if matches!(a, Act::Spawn { .. } | Act::Ctl { .. } | Act::Recovery { .. }) && !w.spend() {
            return;
        }
        match a {
            Act::Send { to, r, t } => w.send(self.me, to, r, t, Some(self)),
            Act::TrigInd { port, t } => {
                let peers = w.lock().ind_conn[self.me][port as usize].clone();
                if let Some(i) = w.instance(self.me, None, Q::Ind(port), None, t, peers) {
                    if port == 0 {
                        self.pa.trigger(i)
                    } else {
                        self.pb.trigger(i)
                    }
                }
            }
            Act::TrigReq { port, t } => {
                let peers = w.lock().req_conn[self.me][port as usize].clone();
                if let Some(i) = w.instance(self.me, None, Q::Req(port), None, t, peers) {
                    if port == 0 {
                        self.ra.trigger(i)
                    } else {
                        self.rb.trigger(i)
                    }
                }
            }
            Act::Once { delay, t } => {
                if let Some(i) = w.instance(self.me, Some(self.me), Q::Timer, None, t, vec![]) {
                    let set_at = w.now();
                    w.lock().timers.push(TimerRec { comp: self.me, inst: i, set_at, delay, period: None, cancelled: None });
                    let h = self.schedule_once(Duration::from_millis(delay), move |s, _| s.on(K::Handle(Q::Timer), i, Some(t)));
                    self.timers.push((i, h));
                }
            }
            Act::Periodic { delay, period, t } => {
                if let Some(i) = w.instance(self.me, Some(self.me), Q::Timer, None, t, vec![]) {
                    let set_at = w.now();
                    w.lock().timers.push(TimerRec { comp: self.me, inst: i, set_at, delay, period: Some(period), cancelled: None });
                    let h = self.schedule_periodic(Duration::from_millis(delay), Duration::from_millis(period), move |s, _| {
                        s.on(K::Handle(Q::Timer), i, Some(t))
                    });
                    self.timers.push((i, h));
                }
            }
            Act::Cancel { k } => {
                if !self.timers.is_empty() {
                    let (i, h) = self.timers[k % self.timers.len()].clone();
                    let now = w.now();
                    {
                        let mut g = w.lock();
                        let at = g.log.len();
                        let me = self.me;
                        if let Some(r) = g.timers.iter_mut().find(|r| r.inst == i && r.comp == me) {
                            r.cancelled.get_or_insert((at, now));
                        }
                    }
                    self.cancel_timer(h);
                }
            }
            Act::Spawn { steps, end } => {
                let id = {
                    let mut g = w.lock();
                    let id = 1_000_000 + g.tasks_spawned.len() as u64;
                    g.tasks_spawned.push((self.me, id, steps.clone()));
                    g.task_ends.push((id, end.clone()));
                    id
                };
                self.spawn_local(move |mut s| async move {
                    for (gate, t) in steps {
                        GateFut(w.clone(), gate).await;
                        // a task step's template must not decide the task's outcome
                        let _ = s.on(K::Task, id, None);
                        let tm = w.lock().tmpl[t].clone();
                        for a in tm.acts {
                            s.act(a);
                        }
                    }
                    w.lock().tasks_done.push(id);
                    s.end(end, id)
                });
            }
            Act::Ctl { to, what } => {
                w.lock().ctl[to].push(what);
                let n = w.node(to);
                let sys = self.ctx.system();
                match what {
                    Life::Start => sys.start(&n.comp),
                    Life::Stop => sys.stop(&n.comp),
                    Life::Kill => sys.kill(n.comp.clone()),
                }
            }
            Act::Recovery { tag } => {
                let me = self.me;
                let w2 = w.clone();
                w.lock().recoveries.push((me, tag));
                self.ctx.set_recovery_function(move |fc| {
                    w2.log(me, K::Recovery, tag);
                    fc.recover_with(move |fc, _sys, _log| {
                        let ok = w2.node(me).comp.id() == fc.component_id;
                        if !ok {
                            w2.problem(format!("recovery of component {} names another component", me));
                        }
                        w2.log(me, K::RecoveryAction, tag);
                    })
                });
            }
            Act::Suicide => {
                w.lock().ctl[self.me].push(Life::Kill);
                self.ctx.suicide();
            }
        }
    }

    fn life(&mut self, l: Life) -> HandlerResult {
        let t = self.w.lock().life[self.me][l as usize];
        self.on(K::Life(l), 0, t)
    }
}

impl ComponentLifecycle for Uni {
    fn on_start(&mut self) -> HandlerResult {
        self.life(Life::Start)
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.life(Life::Stop)
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.life(Life::Kill)
    }
}

impl Uni {
    fn tmpl_of(&self, i: u64) -> Option<usize> {
        let g = self.w.lock();
        g.sent.get(i as usize).map(|s| s.t)
    }
    fn item(&mut self, q: Q, i: u64) -> HandlerResult {
        let t = self.tmpl_of(i);
        if t.is_none() {
            self.w.problem(format!("component {} received an unknown item {}", self.me, i));
        }
        self.on(K::Handle(q), i, t)
    }
}

impl Actor for Uni {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        match m {
            Msg::Item(i) => self.item(Q::Msg, i),
            Msg::Ask(a) => {
                let i = *a.request();
                let _ = a.reply(i.wrapping_mul(7) + 1);
                self.item(Q::Msg, i)
            }
        }
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        match m.try_deserialise::<u64, u64>() {
            Ok(i) => self.item(Q::Msg, i),
            Err(e) => {
                self.w.problem(format!("network message could not be read: {:?}", e));
                Handled::OK
            }
        }
    }
}

impl Provide<PA> for Uni {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.item(Q::Req(0), e)
    }
}
impl Require<PA> for Uni {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.item(Q::Ind(0), e)
    }
}
impl Provide<PB> for Uni {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.item(Q::Req(1), e)
    }
}
impl Require<PB> for Uni {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.item(Q::Ind(1), e)
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy, Default)]
pub struct Feat {
    pub sends: u64,
    pub ports: u64,
    pub timers: u64,
    pub cancels: u64,
    pub tasks: u64,
    pub ctl: u64,
    pub kill: bool,
    pub recovery: u64,
    pub faults: u64,
    pub blocks: u64,
    pub nested: bool,
    pub gates: usize,
    pub all_refs: bool,
}

fn gen_act(s: &mut Src, f: &Feat, nodes: usize, i: usize, n: usize) -> Option<Act> {
    // refers to templates > i only
    if i + 1 >= n {
        return None;
    }
    let t = s.range(i + 1, n - 1);
    Some(match s.weighted(&[f.sends, f.ports, f.timers, f.cancels, f.tasks, f.ctl, f.recovery]) {
        0 => Act::Send {
            to: s.idx(nodes),
            r: if f.all_refs { *s.pick(&REFS) } else { Ref::Weak },
            t,
        },
        1 => {
            let port = s.idx(2) as u8;
            if s.flag() { Act::TrigInd { port, t } } else { Act::TrigReq { port, t } }
        }
        2 => {
            let delay = *s.pick(&[1u64, 0, 2, 5, 10, 300]);
            if s.chance(1, 3) {
                let period = *s.pick(&[3u64, 1, 7, 50]);
                Act::Periodic { delay, period, t }
            } else {
                Act::Once { delay, t }
            }
        }
        3 => Act::Cancel { k: s.idx(8) },
        4 => {
            let k = s.range(0, 3);
            let steps = (0..k)
                .map(|_| {
                    let g = if f.gates > 0 && s.chance(2, 3) { Some(s.idx(f.gates)) } else { None };
                    (g, s.range(i + 1, n - 1))
                })
                .collect();
            Act::Spawn { steps, end: gen_end(s, f, i, n, true) }
        }
        5 => {
            let what = if f.kill && s.chance(1, 4) { Life::Kill } else { *s.pick(&[Life::Start, Life::Stop]) };
            Act::Ctl { to: s.idx(nodes), what }
        }
        _ => Act::Recovery { tag: s.below(1000) },
    })
}

fn gen_end(s: &mut Src, f: &Feat, i: usize, n: usize, task: bool) -> End {
    match s.weighted(&[12, f.faults, f.blocks]) {
        0 => End::Ok,
        1 => match s.weighted(&[3, 2, 2, 2, if task { 0 } else { 1 }]) {
            0 => End::Benign,
            1 => End::Recoverable,
            2 => End::Unrecoverable,
            3 => End::Panic,
            _ => End::Shutdown,
        },
        _ => {
            let gate = if f.gates > 0 && s.chance(4, 5) { Some(s.idx(f.gates)) } else { None };
            let t = if i + 1 < n && s.chance(1, 2) { Some(s.range(i + 1, n - 1)) } else { None };
            let nested = if f.nested && f.gates > 0 && s.chance(1, 5) { Some(s.idx(f.gates)) } else { None };
            End::Block { gate, t, nested }
        }
    }
}

pub fn templates(s: &mut Src, f: &Feat, nodes: usize, n: usize) -> Vec<Tmpl> {
    (0..n)
        .map(|i| {
            // the last template does nothing
            if i + 1 == n {
                return Tmpl { acts: vec![], end: End::Ok };
            }
            let k = s.range(0, 3);
            let acts = (0..k).filter_map(|_| gen_act(s, f, nodes, i, n)).collect();
            let mut end = gen_end(s, f, i, n, false);
            // a template run as the continuation of a blocking handler must not block again
            if let End::Block { t: Some(_), .. } = end {
                if let End::Block { t, .. } = &mut end {
                    *t = Some(n - 1);
                }
            }
            Tmpl { acts, end }
        })
        .collect()
}

// ---------------------------------------------------------------- setting up

pub struct Setup {
    pub sim: Sim,
    pub w: W,
    pub n: usize,
    /// components that are connected but never started, and go away at some point
    pub ghosts: std::cell::RefCell<Vec<Arc<Component<Uni>>>>,
    pub had_ghosts: std::cell::Cell<bool>,
    /// what is left of connecting
    pub channels: std::cell::RefCell<Vec<Chan>>,
}

pub struct Chan {
    pub provider: usize,
    pub requirer: usize,
    pub port: usize,
    /// the directions it stands for
    pub ind: bool,
    pub req: bool,
    pub ch: Box<dyn Channel + Send + 'static>,
}

impl Setup {
    pub fn new(s: &mut Src, n: usize, tmpl: Vec<Tmpl>, gates: usize, budget: i64) -> Result<Setup, Failure> {
        let sim = Sim::random(s)?;
        Setup::with(s, sim, n, tmpl, gates, budget)
    }

    pub fn with(s: &mut Src, sim: Sim, n: usize, tmpl: Vec<Tmpl>, gates: usize, budget: i64) -> Result<Setup, Failure> {
        let w = World::new(n, tmpl, gates, budget);
        *w.timer.lock().unwrap() = Some(sim.timer.clone());
        *w.sys.lock().unwrap() = Some(sim.sys.clone());
        for i in 0..n {
            add_node(&w, &sim.sys, i, s.chance(1, 4));
        }
        Ok(Setup { sim, w, n, ghosts: Default::default(), had_ghosts: Default::default(), channels: Default::default() })
    }

    pub fn connect_random(&self, s: &mut Src, max: usize) {
        let k = s.range(0, max);
        let star = max > 20 && s.flag();
        for _ in 0..k {
            let (mut a, mut b) = (s.idx(self.n), s.idx(self.n));
            let mut port = s.idx(2);
            if max > 20 && s.chance(2, 3) {
                // most at one port
                port = 0;
                if star { a = 0 } else { b = 0 }
            }
            if s.chance(1, 6) {
                self.connect_ghost(s, a, port);
            }
            self.connect(s, a, b, port);
        }
    }

    /// Connects a component that is never started to one of the ports of `a`.
    fn connect_ghost(&self, s: &mut Src, a: usize, port: usize) {
        let w2 = self.w.clone();
        let c = self.sim.sys.create(move || Uni::new(usize::MAX - 1, w2));
        PASSIVE.with(|p| p.borrow_mut().insert(c.id()));
        let x = self.w.node(a);
        let prov = s.flag();
        c.on_definition(|g| {
            with_def(&x, |u| match (prov, port) {
                (true, 0) => u.pa.connect(g.ra.share()),
                (true, _) => u.pb.connect(g.rb.share()),
                (false, 0) => u.ra.connect(g.pa.share()),
                (false, _) => u.rb.connect(g.pb.share()),
            });
        });
        s.note(|| format!("{} port {} of {} is connected to a component that is never started", if prov { "provided" } else { "required" }, port, a));
        self.ghosts.borrow_mut().push(c);
        self.had_ghosts.set(true);
    }

    /// Two-way connection between the provided port of `a` and the required port of `b`.
    pub fn connect(&self, s: &mut Src, a: usize, b: usize, port: usize) {
        let have = {
            let g = self.w.lock();
            g.ind_conn[a][port].contains(&b) || g.req_conn[b][port].contains(&a)
        };
        if have {
            return;
        }
        let (x, y) = (self.w.node(a), self.w.node(b));
        // the definition of a component that panicked can not be accessed any more
        if uni_of(&x).is_faulty() || uni_of(&y).is_faulty() {
            return;
        }
        // channels of an earlier connection are of no use any more
        self.channels.borrow_mut().retain(|c| (c.provider, c.requirer, c.port) != (a, b, port));
        let mut chans: Vec<(bool, bool, Box<dyn Channel + Send + 'static>)> = vec![];
        match (s.below(6), &x.typed, &y.typed) {
            (how @ (0 | 1), Some(cx), Some(cy)) if a != b => {
                let r = match port {
                    0 => biconnect_components::<PA, _, _>(cx, cy).map(|c| c.boxed()),
                    _ => biconnect_components::<PB, _, _>(cx, cy).map(|c| c.boxed()),
                };
                match r {
                    Ok(c) => chans.push((true, true, if how == 0 { c } else { c.boxed() })),
                    Err(e) => self.w.problem(format!("{} and {} cannot be connected: {:?}", a, b, e)),
                }
            }
            (2, Some(cx), Some(cy)) => match port {
                0 => {
                    chans.push((true, false, LockingProvideRef::<PA, _>::connect_to_required(cx, LockingRequireRef::<PA, _>::required_ref(cy)).boxed()));
                    chans.push((false, true, LockingRequireRef::<PA, _>::connect_to_provided(cy, LockingProvideRef::<PA, _>::provided_ref(cx)).boxed()));
                }
                _ => {
                    chans.push((true, false, LockingProvideRef::<PB, _>::connect_to_required(cx, LockingRequireRef::<PB, _>::required_ref(cy)).boxed()));
                    chans.push((false, true, LockingRequireRef::<PB, _>::connect_to_provided(cy, LockingProvideRef::<PB, _>::provided_ref(cx)).boxed()));
                }
            },
            (3, Some(cx), Some(cy)) => {
                let r = on_dual_definition(cx, cy, |u, v| match port {
                    0 => biconnect_ports(&mut u.pa, &mut v.ra),
                    _ => biconnect_ports(&mut u.pb, &mut v.rb),
                });
                match (r, a == b) {
                    (Ok(()), false) => (),
                    // one component cannot be locked twice
                    (Err(TryDualLockError::RightWouldBlock), true) => {
                        with_def(&x, |u| if port == 0 { biconnect_ports(&mut u.pa, &mut u.ra) } else { biconnect_ports(&mut u.pb, &mut u.rb) });
                    }
                    (r, _) => self.w.problem(format!("{} and {} cannot both be accessed: {:?}", a, b, r)),
                }
            }
            _ => {
                with_def(&x, |u| if port == 0 { u.pa.connect(y.ra.clone()) } else { u.pb.connect(y.rb.clone()) });
                with_def(&y, |u| if port == 0 { u.ra.connect(x.pa.clone()) } else { u.rb.connect(x.pb.clone()) });
            }
        }
        for (ind, req, ch) in chans {
            self.channels.borrow_mut().push(Chan { provider: a, requirer: b, port, ind, req, ch });
        }
        let mut g = self.w.lock();
        g.ind_conn[a][port].push(b);
        g.req_conn[b][port].push(a);
    }

    /// Takes one of the channels apart.
    pub fn disconnect_channel(&self, s: &mut Src) {
        let n = self.channels.borrow().len();
        if n == 0 {
            return;
        }
        let k = s.idx(n);
        let Chan { provider, requirer, port, ind, req, ch } = self.channels.borrow_mut().swap_remove(k);
        let (x, y) = (self.w.node(provider), self.w.node(requirer));
        if uni_of(&x).is_faulty() || uni_of(&y).is_faulty() {
            return;
        }
        let r = if s.flag() { ch.disconnect_by_ref().map_err(|e| e.to_string()) } else { ch.disconnect().map_err(|e| e.to_string()) };
        s.note(|| format!("channel {}.provided[{}] - {}.required disconnected (indications: {}, requests: {}): {:?}", provider, port, requirer, ind, req, r));
        if let Err(e) = r {
            self.w.problem(format!("the channel between {} and {} cannot be disconnected: {}", provider, requirer, e));
        }
        let mut g = self.w.lock();
        if ind {
            g.ind_conn[provider][port].retain(|z| *z != requirer);
        }
        if req {
            g.req_conn[requirer][port].retain(|z| *z != provider);
        }
    }

    pub fn start_all(&self) {
        for i in 0..self.n {
            self.w.ctl(i, Life::Start);
        }
    }

    pub fn problem(&self) -> CaseResult {
        if let Some(p) = self.w.lock().problems.first() {
            return fail("world", p.clone());
        }
        Ok(())
    }
}

impl Drop for Setup {
    fn drop(&mut self) {
        self.ghosts.borrow_mut().clear();
        self.w.clear();
        self.sim.dispose();
    }
}

/// Runs `f` on the definition behind a node (typed or erased).
pub fn with_def<T>(n: &Node, f: impl FnOnce(&mut Uni) -> T) -> Option<T> {
    n.comp.as_any().downcast_ref::<Component<Uni>>().map(|c| c.on_definition(f))
}

pub fn uni_of(n: &Node) -> &Component<Uni> {
    n.comp.as_any().downcast_ref::<Component<Uni>>().unwrap()
}

pub fn add_node(w: &W, sys: &KompactSystem, i: usize, erased: bool) {
    let w2 = w.clone();
    let (comp, typed): (Arc<dyn AbstractComponent<Message = Msg>>, Option<Arc<Component<Uni>>>) = if erased {
        (sys.create_erased::<Msg>(Box::new(Uni::new(i, w2))), None)
    } else {
        let c = sys.create(move || Uni::new(i, w2));
        (c.clone(), Some(c))
    };
    push_node(w, sys, comp, typed);
}

pub fn push_node(w: &W, sys: &KompactSystem, comp: Arc<dyn AbstractComponent<Message = Msg>>, typed: Option<Arc<Component<Uni>>>) {
    let weak = comp.actor_ref();
    let path = ActorPath::Unique(UniquePath::with_system(SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0), comp.id()));
    let _ = sys;
    let (pa, ra, pb, rb) = comp
        .as_any()
        .downcast_ref::<Component<Uni>>()
        .unwrap()
        .on_definition(|u| (u.pa.share(), u.ra.share(), u.pb.share(), u.rb.share()));
    PASSIVE.with(|p| p.borrow_mut().insert(comp.id()));
    let n = Node {
        pa,
        ra,
        pb,
        rb,
        strong: weak.hold(),
        recip: weak.recipient::<Item>(),
        recip_with: weak.recipient_with::<Other>(|o| Msg::Item(o.0)),
        dynr: weak.dyn_ref(),
        weak,
        path,
        comp,
        typed,
    };
    w.nodes.lock().unwrap().push(Arc::new(n));
}

pub type Ids = HashMap<Uuid, usize>;
