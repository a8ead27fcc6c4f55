//! Generated token programs on real thread pools and dedicated threads: every token walks through
//! a generated list of hops (messages, port events, timers, local tasks, blocking futures, asks,
//! futures on the pool) while components are started, stopped, killed and fail around it.
//!
//! Nothing may be lost or doubled, senders keep their order, handlers of one component never
//! overlap, a blocked or stopped component handles nothing, and dedicated components stay on their
//! own thread.
use crate::pbt::*;
use crate::sim::quiet_logger;
use kompact::prelude::*;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock, mpsc};
use std::task::{Context, Poll};
use std::thread::ThreadId;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Overlap,
    Lost,
    Order,
    Port,
    Passive,
    Block,
    Task,
    Timer,
    Ask,
    Shut,
    Thread,
    Off,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ref {
    Weak,
    Strong,
    Recipient,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
    Pool,
    Waker,
    Node(usize),
}
#[derive(Clone, Copy, Debug)]
enum Hop {
    Tell(usize, Ref),
    /// an indication (or else a request) over channel `k`
    Port(usize, bool),
    Timer(u64),
    Periodic(u32),
    Task(Via),
    Block(Via),
    Off(usize),
    /// awaits the result of a pool future
    OffAwait,
    Ask(usize, bool, bool),
    Spray(usize, Ref),
    SprayPort,
    AskVictim(usize),
}

#[derive(Clone, Debug)]
struct Token {
    id: usize,
    pos: usize,
    hops: Arc<Vec<Hop>>,
}
#[derive(Debug)]
struct Tell {
    tok: Option<Token>,
    from: usize,
    seq: u64,
}
#[derive(Debug)]
enum Msg {
    Tell(Tell),
    Ask(Ask<(usize, usize, bool), u64>),
    Complete(futures::channel::oneshot::Sender<()>),
    Die(u8),
}
impl From<Tell> for Msg {
    fn from(t: Tell) -> Msg {
        Msg::Tell(t)
    }
}
#[derive(Clone, Debug)]
struct Ev {
    tok: Option<Token>,
    from: usize,
    to: usize,
    seq: u64,
}
struct P;
impl Port for P {
    type Indication = Ev;
    type Request = Ev;
}
const NONE: usize = usize::MAX;

struct Refs {
    weak: ActorRef<Msg>,
    strong: Option<ActorRefStrong<Msg>>,
    recip: Recipient<Tell>,
}

#[derive(Default)]
struct Stat {
    starts: AtomicU32,
    kills: AtomicU32,
    active: AtomicBool,
    /// it handled a message, so its supervisor knows that it started
    known: AtomicBool,
    /// this was so when the shutdown began
    counted: AtomicBool,
}

struct World {
    problems: Mutex<Vec<(Class, String)>>,
    arrived: Vec<Vec<AtomicU32>>,
    at: Vec<AtomicUsize>,
    /// where the token is, for reports
    on: Vec<AtomicUsize>,
    done: AtomicUsize,
    over: AtomicBool,
    refs: RwLock<Vec<Refs>>,
    stats: Vec<Stat>,
    threads: Mutex<HashMap<ThreadId, Option<usize>>>,
    chans: Vec<(usize, usize)>,
    waker: Mutex<mpsc::Sender<futures::channel::oneshot::Sender<()>>>,
    handlers: AtomicUsize,
}
type W = Arc<World>;

impl World {
    fn problem(&self, c: Class, m: String) {
        self.problems.lock().unwrap().push((c, m));
    }
}

/// Gives way once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(ComponentDefinition)]
struct Node {
    ctx: ComponentContext<Node>,
    prov: ProvidedPort<P>,
    req: RequiredPort<P>,
    me: usize,
    dedicated: bool,
    supervised: bool,
    w: W,
    thread: Option<ThreadId>,
    busy: Arc<AtomicBool>,
    blocked: bool,
    active: bool,
    dead: bool,
    sent: HashMap<(u8, usize), u64>,
    expect: HashMap<(u8, usize), u64>,
    periodic: HashMap<usize, (ScheduledTimer, u32)>,
}

thread_local!(static SEEN: std::cell::Cell<*const World> = const { std::cell::Cell::new(std::ptr::null()) });

impl Node {
    fn enter(&mut self, what: &str, passive_ok: bool) {
        let w = self.w.clone();
        w.handlers.fetch_add(1, SeqCst);
        if self.busy.swap(true, SeqCst) {
            w.problem(Class::Overlap, format!("{} of component {} runs while another handler of it runs", what, self.me));
        }
        if self.supervised && w.over.load(SeqCst) && w.stats[self.me].counted.load(SeqCst) {
            w.problem(Class::Shut, format!("{} of component {} runs after the shutdown of its system completed", what, self.me));
        }
        if self.blocked {
            w.problem(Class::Block, format!("{} of component {} runs while it is blocked", what, self.me));
        }
        if self.dead {
            w.problem(Class::Passive, format!("{} of component {} runs after its kill handler", what, self.me));
        } else if !self.active && !passive_ok {
            w.problem(Class::Passive, format!("{} of component {} runs while it is stopped", what, self.me));
        }
        let t = std::thread::current().id();
        match self.thread {
            Some(x) if self.dedicated => {
                if x != t {
                    w.problem(Class::Thread, format!("{} of the dedicated component {} runs on {:?}, not on its own thread {:?}", what, self.me, t, x));
                }
            }
            _ => {
                self.thread = Some(t);
                let p: *const World = &*w;
                if self.dedicated || SEEN.with(|s| s.replace(p)) != p {
                    let mine = if self.dedicated { Some(self.me) } else { None };
                    let was = *w.threads.lock().unwrap().entry(t).or_insert(mine);
                    if was != mine {
                        w.problem(
                            Class::Thread,
                            format!("{} of component {} (dedicated: {}) runs on a thread that also runs {}", what, self.me, self.dedicated, match was {
                                Some(n) => format!("the dedicated component {}", n),
                                None => "pooled components".into(),
                            }),
                        );
                    }
                }
            }
        }
    }
    fn exit(&mut self, what: &str) {
        if !self.busy.swap(false, SeqCst) {
            self.w.problem(Class::Overlap, format!("{} of component {} overlapped with another handler", what, self.me));
        }
    }

    fn stamp(&mut self, kind: u8, to: usize) -> u64 {
        let c = self.sent.entry((kind, to)).or_insert(0);
        *c += 1;
        *c - 1
    }

    fn expected(&mut self, class: Class, kind: u8, from: usize, seq: u64) {
        if from == NONE {
            return;
        }
        let e = self.expect.entry((kind, from)).or_insert(0);
        if *e != seq {
            let e = *e;
            self.w.problem(
                class,
                format!("component {} got {} number {} of sender {}, expected number {}", self.me, if kind == 0 { "message" } else { "port event" }, seq, from, e),
            );
        }
        *self.expect.get_mut(&(kind, from)).unwrap() = seq + 1;
    }

    /// The token is on this component now.
    fn arrive(&mut self, class: Class, tok: Token) -> HandlerResult {
        let w = self.w.clone();
        if w.arrived[tok.id][tok.pos].fetch_add(1, SeqCst) != 0 {
            w.problem(class, format!("token {} arrives twice at step {}", tok.id, tok.pos));
            return Handled::OK;
        }
        w.at[tok.id].store(tok.pos, SeqCst);
        w.on[tok.id].store(self.me, SeqCst);
        self.go(tok)
    }

    fn resume(&mut self, class: Class, what: &str, passive_ok: bool, tok: Token) -> HandlerResult {
        self.enter(what, passive_ok);
        let r = self.arrive(class, tok);
        self.exit(what);
        r
    }

    fn wake(&mut self, via: Via) -> futures::channel::oneshot::Receiver<()> {
        let (tx, rx) = futures::channel::oneshot::channel();
        match via {
            Via::Pool => {
                drop(self.spawn_off(async move {
                    Yield(false).await;
                    let _ = tx.send(());
                }));
            }
            Via::Waker => {
                let _ = self.w.waker.lock().unwrap().send(tx);
            }
            Via::Node(n) => self.w.refs.read().unwrap()[n].weak.tell(Msg::Complete(tx)),
        }
        rx
    }

    fn tell(&mut self, to: usize, r: Ref, tok: Option<Token>) {
        let w = self.w.clone();
        let seq = self.stamp(0, to);
        let m = Tell { tok, from: self.me, seq };
        let g = w.refs.read().unwrap();
        let Some(x) = g.get(to) else { return };
        match (r, &x.strong) {
            (Ref::Strong, Some(s)) => s.tell(Msg::Tell(m)),
            (Ref::Recipient, _) => x.recip.tell(m),
            _ => x.weak.tell(Msg::Tell(m)),
        }
    }

    fn go(&mut self, mut tok: Token) -> HandlerResult {
        let w = self.w.clone();
        loop {
            let Some(hop) = tok.hops.get(tok.pos).copied() else {
                w.done.fetch_add(1, SeqCst);
                return Handled::OK;
            };
            tok.pos += 1;
            match hop {
                Hop::Tell(to, r) => {
                    self.tell(to, r, Some(tok));
                    return Handled::OK;
                }
                Hop::Port(k, ind) => {
                    // the token is on the right end of the channel: the hop before saw to that
                    let (p, r) = w.chans[k];
                    let (kind, to) = if ind { (1, r) } else { (2, p) };
                    let seq = self.stamp(kind, 0);
                    let e = Ev { tok: Some(tok), from: self.me, to, seq };
                    if ind { self.prov.trigger(e) } else { self.req.trigger(e) }
                    return Handled::OK;
                }
                Hop::Timer(us) => {
                    self.schedule_once(Duration::from_micros(us), move |s, _| s.resume(Class::Timer, "timeout", false, tok));
                    return Handled::OK;
                }
                Hop::Periodic(n) => {
                    let id = tok.id;
                    let h = self.schedule_periodic(Duration::from_millis(1), Duration::from_millis(1), move |s, _| s.tick(n, tok.clone()));
                    self.periodic.insert(id, (h, 0));
                    return Handled::OK;
                }
                Hop::Task(via) => {
                    let rx = self.wake(via);
                    self.spawn_local(move |mut s| async move {
                        let _ = rx.await;
                        s.resume(Class::Task, "local task", true, tok)
                    });
                    return Handled::OK;
                }
                Hop::Block(via) => {
                    let rx = self.wake(via);
                    self.blocked = true;
                    return Handled::block_on(self, move |mut s| async move {
                        let _ = rx.await;
                        s.blocked = false;
                        s.resume(Class::Block, "blocking future", true, tok)
                    });
                }
                Hop::Off(to) => {
                    let to = w.refs.read().unwrap().get(to).map(|r| r.weak.clone());
                    drop(self.spawn_off(async move {
                        Yield(false).await;
                        if let Some(to) = to {
                            to.tell(Msg::Tell(Tell { tok: Some(tok), from: NONE, seq: 0 }));
                        }
                    }));
                    return Handled::OK;
                }
                Hop::OffAwait => {
                    let v = (tok.id * 1000 + tok.pos) as u64;
                    let h = self.spawn_off(async move {
                        Yield(false).await;
                        v
                    });
                    self.spawn_local(move |mut s| async move {
                        match h.await {
                            Ok(x) if x == v => (),
                            o => s.w.problem(Class::Off, format!("the handle of a pool future gave {:?} instead of {}", o, v)),
                        }
                        s.resume(Class::Off, "local task", true, tok)
                    });
                    return Handled::OK;
                }
                Hop::Ask(to, late, block) => {
                    let to = w.refs.read().unwrap().get(to).map(|r| r.weak.clone());
                    let Some(to) = to else { return Handled::OK };
                    let f = to.ask_with(|p| Msg::Ask(Ask::new(p, (tok.id, tok.pos, late))));
                    let v = (tok.id * 1000 + tok.pos) as u64;
                    if block {
                        self.blocked = true;
                        return Handled::block_on(self, move |mut s| async move {
                            let r = f.await;
                            s.blocked = false;
                            if r.as_ref().ok() != Some(&v) {
                                s.w.problem(Class::Ask, format!("a request was answered with {:?} instead of {}", r, v));
                            }
                            s.resume(Class::Ask, "blocking future", true, tok)
                        });
                    }
                    self.spawn_local(move |mut s| async move {
                        let r = f.await;
                        if r.as_ref().ok() != Some(&v) {
                            s.w.problem(Class::Ask, format!("a request was answered with {:?} instead of {}", r, v));
                        }
                        s.resume(Class::Ask, "local task", true, tok)
                    });
                    return Handled::OK;
                }
                Hop::AskVictim(to) => {
                    let to = w.refs.read().unwrap().get(to).map(|r| r.weak.clone());
                    let Some(to) = to else { return Handled::OK };
                    let f = to.ask_with(|p| Msg::Ask(Ask::new(p, (tok.id, tok.pos, false))));
                    drop(to);
                    let v = (tok.id * 1000 + tok.pos) as u64;
                    self.spawn_local(move |mut s| async move {
                        let r = f.await;
                        if let Ok(x) = r
                            && x != v
                        {
                            s.w.problem(Class::Ask, format!("a request was answered with {} instead of {}", x, v));
                        }
                        s.resume(Class::Ask, "local task", true, tok)
                    });
                    return Handled::OK;
                }
                Hop::Spray(v, r) => self.tell(v, r, None),
                Hop::SprayPort => {
                    let seq = self.stamp(1, 0);
                    self.prov.trigger(Ev { tok: None, from: self.me, to: NONE, seq });
                    let seq = self.stamp(2, 0);
                    self.req.trigger(Ev { tok: None, from: self.me, to: NONE, seq });
                }
            }
            w.arrived[tok.id][tok.pos].fetch_add(1, SeqCst);
            w.at[tok.id].store(tok.pos, SeqCst);
        }
    }

    fn tick(&mut self, n: u32, tok: Token) -> HandlerResult {
        self.enter("periodic timeout", false);
        let mut r = Handled::OK;
        match self.periodic.get_mut(&tok.id) {
            None => self.w.problem(Class::Timer, format!("a cancelled periodic timeout of component {} fired again", self.me)),
            Some((_, k)) => {
                *k += 1;
                if *k == n {
                    let (h, _) = self.periodic.remove(&tok.id).unwrap();
                    self.cancel_timer(h);
                    r = self.arrive(Class::Timer, tok);
                }
            }
        }
        self.exit("periodic timeout");
        r
    }
}

impl ComponentLifecycle for Node {
    fn on_start(&mut self) -> HandlerResult {
        self.enter("start handler", true);
        self.active = true;
        self.w.stats[self.me].starts.fetch_add(1, SeqCst);
        self.w.stats[self.me].active.store(true, SeqCst);
        self.exit("start handler");
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.enter("stop handler", true);
        self.active = false;
        self.w.stats[self.me].active.store(false, SeqCst);
        self.exit("stop handler");
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.enter("kill handler", true);
        self.w.stats[self.me].kills.fetch_add(1, SeqCst);
        self.exit("kill handler");
        self.dead = true;
        Handled::OK
    }
}
impl Actor for Node {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        self.enter("message handler", false);
        self.w.stats[self.me].known.store(true, SeqCst);
        let r = match m {
            Msg::Tell(t) => {
                self.expected(Class::Order, 0, t.from, t.seq);
                match t.tok {
                    Some(tok) => self.arrive(Class::Lost, tok),
                    None => Handled::OK,
                }
            }
            Msg::Ask(a) => {
                let (id, pos, late) = *a.request();
                let v = (id * 1000 + pos) as u64;
                if late {
                    let rx = self.wake(Via::Pool);
                    self.spawn_local(move |_s| async move {
                        let _ = rx.await;
                        let _ = a.reply(v);
                        Handled::OK
                    });
                } else {
                    let _ = a.reply(v);
                }
                Handled::OK
            }
            Msg::Complete(tx) => {
                let _ = tx.send(());
                Handled::OK
            }
            Msg::Die(how) => {
                self.exit("message handler");
                self.dead = true;
                match how {
                    0 => panic!("kv test panic"),
                    1 => return Err(HandlerError::unrecoverable(crate::uni::TestErr)),
                    2 => return Err(HandlerError::recoverable(crate::uni::TestErr)),
                    _ => {
                        self.dead = false;
                        return Handled::SHUTDOWN;
                    }
                }
            }
        };
        self.exit("message handler");
        r
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<P> for Node {
    fn handle(&mut self, e: Ev) -> HandlerResult {
        self.port(2, e)
    }
}
impl Require<P> for Node {
    fn handle(&mut self, e: Ev) -> HandlerResult {
        self.port(1, e)
    }
}
impl Node {
    fn port(&mut self, kind: u8, e: Ev) -> HandlerResult {
        self.enter("port handler", false);
        self.expected(Class::Port, kind, e.from, e.seq);
        let r = match e.tok {
            Some(tok) if e.to == self.me => self.arrive(Class::Port, tok),
            _ => Handled::OK,
        };
        self.exit("port handler");
        r
    }
}

type Comp = Arc<Component<Node>>;

pub static PROPS: [&Prop; 1] = [&Prop::new(
    "C13",
    "a token program of at least five steps ran on a system with a dedicated component",
    3_000,
    200_000,
    |s| stress(s, Class::Thread),
)
.segment(2_500)];

/// One in 200 cases of `f` is a token program instead.
pub fn or_stress(s: &mut Src, focus: Class, f: fn(&mut Src) -> CaseResult) -> CaseResult {
    if s.chance(1, if std::env::var_os("KV_STRESS").is_some() { 2 } else { 200 }) { if s.flag() { stress(s, focus) } else { crate::race::race(s, focus) } } else { f(s) }
}

/// Runs one generated program; only failures of class `focus` are reported.
pub fn stress(s: &mut Src, focus: Class) -> CaseResult {
    s.label("stress");
    let pools = s.range(1, 4);
    let throughput = *s.pick(&[50usize, 1, 2, 5]);
    let prio = *s.pick(&[0.5f32, 0.1, 0.9]);
    let chan_pool = s.chance(1, 4);
    let n = s.range(2, 6);
    let nv = if s.flag() { s.range(1, 3) } else { 0 };
    let early = s.chance(1, if focus == Class::Shut { 2 } else { 12 });
    let ded: Vec<bool> = (0..n + nv).map(|_| s.chance(if focus == Class::Thread { 2 } else { 1 }, 4)).collect();
    let sup: Vec<bool> = (0..n + nv).map(|v| v >= n || !s.chance(1, 6)).collect();
    // channels (provider, requirer) among the nodes
    let mut chans = vec![];
    for _ in 0..s.range(0, 5) {
        let c = (s.idx(n), s.idx(n));
        if c.0 != c.1 && !chans.contains(&c) {
            chans.push(c);
        }
    }
    let vchans: Vec<(usize, usize)> = (0..nv).map(|v| if s.flag() { (n + v, s.idx(n)) } else { (s.idx(n), n + v) }).collect();
    s.note(|| format!("threads {} throughput {} priority {} other pool {} nodes {} victims {} dedicated {:?} supervised {:?} channels {:?} {:?} early shutdown {}", pools, throughput, prio, chan_pool, n, nv, ded, sup, chans, vchans, early));
    // programs
    let most = if s.chance(1, 4) { 60 } else { 12 };
    let ntok = 1 + s.size(most);
    let mut progs: Vec<(usize, Arc<Vec<Hop>>)> = vec![];
    let mut total_hops = 0;
    for t in 0..ntok {
        let start = s.idx(n);
        let mut at = start;
        let k = s.size(20);
        let mut hops: Vec<Hop> = vec![];
        let f = |c: Class| if c == focus { 6u32 } else { 1 };
        for _ in 0..k {
            let wt = [
                if matches!(focus, Class::Lost | Class::Order | Class::Overlap) || focus == Class::Thread { 10 } else { 4 },
                if chans.is_empty() { 0 } else { 2 + 2 * f(Class::Port) },
                f(Class::Timer),
                if focus == Class::Timer { 1 } else { 0 },
                f(Class::Task),
                f(Class::Block),
                f(Class::Off),
                f(Class::Off),
                f(Class::Ask),
                if nv > 0 { 2 } else { 0 },
                if nv > 0 { 2 } else { 0 },
                if nv > 0 { f(Class::Ask) } else { 0 },
            ];
            let wt: Vec<u64> = wt.iter().map(|x| *x as u64).collect();
            let via = |s: &mut Src| match s.weighted(&[3, 3, if early { 0 } else { 2 }]) {
                0 => Via::Pool,
                1 => Via::Waker,
                _ => Via::Node(0),
            };
            match s.weighted(&wt) {
                0 => {
                    let to = s.idx(n);
                    hops.push(Hop::Tell(to, *s.pick(&[Ref::Weak, Ref::Strong, Ref::Recipient])));
                    at = to;
                }
                1 => {
                    let c = s.idx(chans.len());
                    let ind = s.flag();
                    let (from, to) = if ind { chans[c] } else { (chans[c].1, chans[c].0) };
                    if at != from {
                        hops.push(Hop::Tell(from, Ref::Weak));
                    }
                    hops.push(Hop::Port(c, ind));
                    at = to;
                }
                2 => hops.push(Hop::Timer(s.size(3000) as u64)),
                3 => hops.push(Hop::Periodic(s.range(1, 3) as u32)),
                4 => {
                    let mut v = via(s);
                    if let Via::Node(_) = v {
                        v = Via::Node(s.idx(n));
                    }
                    hops.push(Hop::Task(v))
                }
                5 => {
                    // a component that blocks on another one must not wait for one that waits for
                    // it, so only lower ones are waited for
                    let mut v = via(s);
                    if let Via::Node(_) = v {
                        v = if at > 0 { Via::Node(s.idx(at)) } else { Via::Waker };
                    }
                    hops.push(Hop::Block(v))
                }
                6 => {
                    let to = s.idx(n);
                    hops.push(Hop::Off(to));
                    at = to;
                }
                7 => hops.push(Hop::OffAwait),
                8 => {
                    let block = !early && at > 0 && s.flag();
                    let to = if block { s.idx(at) } else { s.idx(n) };
                    hops.push(Hop::Ask(to, s.flag(), block))
                }
                9 => hops.push(Hop::Spray(n + s.idx(nv), *s.pick(&[Ref::Weak, Ref::Recipient]))),
                10 => hops.push(Hop::SprayPort),
                _ => hops.push(Hop::AskVictim(n + s.idx(nv))),
            }
        }
        total_hops += hops.len();
        s.note(|| format!("token {} from {}: {:?}", t, start, hops));
        progs.push((start, Arc::new(hops)));
    }
    s.nontrivial_if(total_hops >= 5 && (focus != Class::Thread || ded.contains(&true)));
    // what the controlling thread does meanwhile: (delay, what, which)
    let mut chaos: Vec<(u64, u8, usize)> = vec![];
    for _ in 0..s.size(12) {
        let d = *s.pick(&[0u64, 0, 20, 100, 500]);
        let what = s.weighted(&[4, 4, 1, 1]) as u8;
        let which = if what < 2 { s.idx(n + nv) } else if nv > 0 { n + s.idx(nv) } else { continue };
        chaos.push((d, what, which));
    }
    let late_start: Vec<bool> = (0..n + nv).map(|_| s.chance(1, 5)).collect();
    let die: Vec<u8> = (0..nv).map(|_| s.range(0, 4) as u8).collect();
    let senders = s.range(1, 3);
    s.note(|| format!("meanwhile {:?}, late start {:?}, deaths {:?}, {} sending threads", chaos, late_start, die, senders));

    let mut cfg = KompactConfig::default();
    cfg.logger(quiet_logger());
    cfg.load_config_str(format!("[kompact.runtime]\nthreads = {}\nlabel = \"kv\"\n", pools));
    cfg.set_config_value(&kompact::config_keys::system::THROUGHPUT, throughput);
    cfg.set_config_value(&kompact::config_keys::system::MESSAGE_PRIORITY, prio);
    if chan_pool {
        cfg.executor(kompact::executors::crossbeam_channel_pool::ThreadPool::new);
    }
    let sys = match futures::executor::block_on(cfg.build()) {
        Ok(s) => s,
        Err(e) => return undecided(format!("system did not build: {:?}", e)),
    };
    let (tx, rx) = mpsc::channel::<futures::channel::oneshot::Sender<()>>();
    let waker = std::thread::spawn(move || {
        while let Ok(t) = rx.recv() {
            let _ = t.send(());
        }
    });
    let w: W = Arc::new(World {
        problems: Mutex::new(vec![]),
        arrived: progs.iter().map(|p| (0..p.1.len() + 1).map(|_| AtomicU32::new(0)).collect()).collect(),
        at: progs.iter().map(|_| AtomicUsize::new(0)).collect(),
        on: progs.iter().map(|p| AtomicUsize::new(p.0)).collect(),
        done: AtomicUsize::new(0),
        over: AtomicBool::new(false),
        refs: RwLock::new(vec![]),
        stats: (0..n + nv).map(|_| Stat::default()).collect(),
        threads: Mutex::new(HashMap::new()),
        chans: chans.clone(),
        waker: Mutex::new(tx),
        handlers: AtomicUsize::new(0),
    });
    let mut comps: Vec<Option<Comp>> = vec![];
    for me in 0..n + nv {
        let w2 = w.clone();
        let (d, sv) = (ded[me], sup[me]);
        let make = move || Node {
            ctx: ComponentContext::uninitialised(),
            prov: ProvidedPort::uninitialised(),
            req: RequiredPort::uninitialised(),
            me,
            dedicated: d,
            supervised: sv,
            w: w2,
            thread: None,
            busy: Arc::new(AtomicBool::new(false)),
            blocked: false,
            active: false,
            dead: false,
            sent: HashMap::new(),
            expect: HashMap::new(),
            periodic: HashMap::new(),
        };
        let c = match (d, sup[me]) {
            (false, true) => sys.create(make),
            (false, false) => sys.create_unsupervised(make),
            (true, true) => sys.create_dedicated(make),
            (true, false) => sys.create_dedicated_unsupervised(make),
        };
        let weak = c.actor_ref();
        w.refs.write().unwrap().push(Refs {
            strong: if me < n { weak.hold() } else { None },
            recip: weak.recipient(),
            weak,
        });
        comps.push(Some(c));
    }
    for (a, b) in chans.iter().chain(&vchans) {
        // this does not wait for a component that is executing
        let t0 = Instant::now();
        while biconnect_components::<P, _, _>(comps[*a].as_ref().unwrap(), comps[*b].as_ref().unwrap()).is_err() {
            if t0.elapsed() > Duration::from_secs(20) {
                return undecided("components cannot be connected");
            }
            std::thread::yield_now();
        }
    }
    for me in 0..n + nv {
        if !late_start[me] || (early && ded[me]) {
            sys.start(comps[me].as_ref().unwrap());
        }
    }
    // tokens are injected by some threads
    let mut injectors = vec![];
    for k in 0..senders {
        let w = w.clone();
        let mine: Vec<(usize, usize, Arc<Vec<Hop>>)> =
            progs.iter().enumerate().filter(|(t, _)| t % senders == k).map(|(t, p)| (t, p.0, p.1.clone())).collect();
        let run = move || {
            let mut seqs: HashMap<usize, u64> = HashMap::new();
            for (t, at, hops) in mine {
                let q = seqs.entry(at).or_insert(0);
                let seq = *q;
                *q += 1;
                let to = w.refs.read().unwrap()[at].weak.clone();
                to.tell(Msg::Tell(Tell { tok: Some(Token { id: t, pos: 0, hops }), from: n + nv + k, seq }));
            }
        };
        if k + 1 == senders {
            run();
        } else {
            injectors.push(std::thread::spawn(run));
        }
    }
    // the controlling thread
    for (d, what, c) in &chaos {
        if *d > 0 {
            std::thread::sleep(Duration::from_micros(*d));
        }
        match what {
            0 => {
                if let Some(x) = &comps[*c] {
                    sys.stop(x)
                }
            }
            1 => {
                if let Some(x) = &comps[*c] {
                    sys.start(x)
                }
            }
            2 => {
                if let Some(x) = comps[*c].take() {
                    sys.kill(x)
                }
            }
            _ => {
                // it has to be active for this to have an effect, so it is killed as well later
                let to = w.refs.read().unwrap()[*c].weak.clone();
                to.tell(Msg::Die(die[*c - n]));
            }
        }
    }
    for i in injectors {
        let _ = i.join();
    }
    let mut verdict: Option<(Class, String)> = None;
    if !early {
        for c in comps.iter().take(n).flatten() {
            sys.start(c);
        }
        for c in comps.iter_mut().skip(n) {
            if let Some(x) = c.take() {
                sys.kill(x);
            }
        }
        let t0 = Instant::now();
        let mut k = 0u32;
        while w.done.load(SeqCst) < ntok && w.problems.lock().unwrap().is_empty() {
            k += 1;
            if k < 200 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(200));
            }
            if t0.elapsed() > Duration::from_secs(30) {
                break;
            }
        }
        if w.done.load(SeqCst) < ntok && w.problems.lock().unwrap().is_empty() {
            // the first token that is stuck
            if std::env::var("KV_DBG").is_ok() {
                for (i, c) in comps.iter().enumerate() {
                    if let Some(c) = c {
                        eprintln!("node {} active {} faulty {} destroyed {} dbg", i, c.is_active(), c.is_faulty(), c.is_destroyed());
                    }
                }
                for i in 0..n {
                    let b = w.done.load(SeqCst);
                    let at: Vec<usize> = w.at.iter().map(|a| a.load(SeqCst)).collect();
                    w.refs.read().unwrap()[i].weak.tell(Msg::Tell(Tell { tok: None, from: NONE, seq: 0 }));
                    std::thread::sleep(Duration::from_millis(100));
                    eprintln!("poked {}: done {} -> {} at {:?} -> {:?}", i, b, w.done.load(SeqCst), at, w.at.iter().map(|a| a.load(SeqCst)).collect::<Vec<_>>());
                }
            }
            for (t, p) in progs.iter().enumerate() {
                let at = w.at[t].load(SeqCst);
                let arrived = w.arrived[t][0].load(SeqCst) > 0;
                if arrived && at == p.1.len() {
                    continue;
                }
                let on = w.on[t].load(SeqCst);
                let (class, hop) = if !arrived {
                    (Class::Lost, "its injection".to_string())
                } else {
                    let h = p.1[at];
                    let c = match h {
                        Hop::Tell(..) | Hop::Spray(..) => Class::Lost,
                        Hop::Port(..) | Hop::SprayPort => Class::Port,
                        Hop::Timer(_) | Hop::Periodic(_) => Class::Timer,
                        Hop::Task(_) => Class::Task,
                        Hop::Block(_) => Class::Block,
                        Hop::Off(_) | Hop::OffAwait => Class::Off,
                        Hop::Ask(..) | Hop::AskVictim(_) => Class::Ask,
                    };
                    (c, format!("{:?}", h))
                };
                // whatever is stuck on or on its way to a dedicated component is that one's fault
                let dd = ded[on] || matches!(p.1.get(at), Some(Hop::Tell(x, _)) if ded[*x]);
                let class = if focus == Class::Thread && dd { Class::Thread } else { class };
                let m = format!("token {} does not get past step {} ({}) on component {} (dedicated: {})", t, at, hop, on, ded[on]);
                if verdict.is_none() || class == focus {
                    verdict = Some((class, m));
                }
                if class == focus {
                    break;
                }
            }
        }
    }
    // a component that answers has started, and its supervisor knows of it
    let mut answered = vec![false; n];
    if !early && verdict.is_none() && w.problems.lock().unwrap().is_empty() {
        let (tx, rx) = mpsc::channel();
        let g = w.refs.read().unwrap();
        for c in 0..n {
            let (otx, orx) = futures::channel::oneshot::channel();
            g[c].weak.tell(Msg::Complete(otx));
            let tx = tx.clone();
            drop(sys.spawn(async move {
                let _ = orx.await;
                let _ = tx.send(c);
            }));
        }
        drop(g);
        for _ in 0..n {
            match rx.recv_timeout(Duration::from_secs(30)) {
                Ok(c) => answered[c] = true,
                Err(_) => {
                    let c = answered.iter().position(|a| !a).unwrap();
                    verdict = Some((if ded[c] && focus == Class::Thread { Class::Thread } else { Class::Lost }, format!("component {} (dedicated: {}) does not handle a message although it was started", c, ded[c])));
                    break;
                }
            }
        }
    }
    let t0 = Instant::now();
    while early && t0.elapsed() < Duration::from_secs(5) && (0..n + nv).any(|c| ded[c] && w.stats[c].starts.load(SeqCst) == 0 && comps[c].as_ref().is_some_and(|x| !x.is_faulty() && !x.is_destroyed())) {
        std::thread::yield_now();
    }
    // unsupervised components are not part of the shutdown, and their dedicated threads would go on
    for c in 0..n {
        if !sup[c]
            && let Some(x) = &comps[c]
        {
            sys.kill(x.clone());
        }
    }
    for x in &w.stats {
        x.counted.store(x.known.load(SeqCst), SeqCst);
    }
    // shutdown
    let (dtx, drx) = mpsc::channel();
    let sys2 = sys.clone();
    let sd = std::thread::spawn(move || {
        let r = futures::executor::block_on(sys2.shutdown());
        let _ = dtx.send(r.map_err(|e| format!("{:?}", e)));
    });
    let r = drx.recv_timeout(Duration::from_secs(if verdict.is_some() { 2 } else { 30 }));
    match r {
        Ok(Ok(())) => {
            w.over.store(true, SeqCst);
            let _ = sd.join();
            for c in 0..n {
                if !sup[c] {
                    continue;
                }
                let (k, st) = (w.stats[c].kills.load(SeqCst), w.stats[c].starts.load(SeqCst));
                // a start that is still being handled when the shutdown begins may go unnoticed
                let certain = w.stats[c].counted.load(SeqCst);
                if k > 1 || (certain && k != 1) || k > st {
                    verdict = verdict.or(Some((Class::Shut, format!("the kill handler of component {} ran {} times during the shutdown", c, k))));
                }
            }
        }
        Ok(Err(e)) => verdict = verdict.or(Some((Class::Shut, format!("the shutdown failed: {}", e)))),
        Err(_) => {
            verdict = verdict.or(Some((Class::Shut, "the shutdown did not complete within 30 s".to_string())));
        }
    }
    if focus == Class::Shut && s.chance(1, 8) {
        std::thread::sleep(Duration::from_millis(3));
    }
    let refs = std::mem::take(&mut *w.refs.write().unwrap());
    drop(refs);
    comps.clear();
    // ends the waker thread
    let (dead, _) = mpsc::channel();
    *w.waker.lock().unwrap() = dead;
    let _ = waker;
    let p = w.problems.lock().unwrap();
    let mine = p.iter().find(|x| x.0 == focus).cloned().or(verdict.filter(|v| v.0 == focus));
    if let Some((c, m)) = mine {
        return fail(format!("mt-{:?}", c), m);
    }
    Ok(())
}
