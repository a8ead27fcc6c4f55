//! Tight races on real threads: every driving thread waits until its last item was handled, which
//! is just before the execution that handled it ends, and sends the next one within nanoseconds,
//! or sends bursts as fast as it can.
use crate::pbt::*;
use crate::sim::quiet_logger;
use crate::stress::Class;
use futures::channel::oneshot;
use kompact::prelude::*;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Weak,
    Strong,
    Recipient,
    Ind,
    Req,
    Task,
    Block,
    Ask,
    Pool,
    Cycle,
}
impl Kind {
    fn class(self) -> Class {
        match self {
            Kind::Weak | Kind::Strong | Kind::Recipient => Class::Lost,
            Kind::Ind | Kind::Req => Class::Port,
            Kind::Task => Class::Task,
            Kind::Block => Class::Block,
            Kind::Ask => Class::Ask,
            Kind::Pool => Class::Off,
            Kind::Cycle => Class::Passive,
        }
    }
}

#[derive(Clone, Debug)]
struct Item(usize, u32);
#[derive(Debug)]
enum Msg {
    Item(Item),
    Ask(Ask<Item, u32>),
    Block(usize, u32),
    Task(usize, u32),
}
impl From<Item> for Msg {
    fn from(i: Item) -> Msg {
        Msg::Item(i)
    }
}
struct P;
impl Port for P {
    type Indication = Item;
    type Request = Item;
}

struct World {
    handled: Vec<AtomicU32>,
    /// where a waiting future is to be woken from
    slot: Vec<Mutex<Option<oneshot::Sender<()>>>>,
    problems: Mutex<Vec<(Class, String)>>,
    dead: AtomicBool,
}
impl World {
    fn problem(&self, c: Class, m: String) {
        self.problems.lock().unwrap().push((c, m));
    }
    fn wait(&self, d: usize) -> oneshot::Receiver<()> {
        let (tx, rx) = oneshot::channel();
        *self.slot[d].lock().unwrap() = Some(tx);
        rx
    }
    fn done(&self, class: Class, d: usize, i: u32) {
        let was = self.handled[d].load(SeqCst);
        if was != i {
            let c = if class == Class::Lost { Class::Order } else { class };
            self.problem(c, format!("item {} of driver {} was handled when item {} was expected", i, d, was));
            if i < was {
                self.problem(class, format!("item {} of driver {} was handled again", i, d));
            }
        }
        self.handled[d].store(i + 1, SeqCst);
    }
}

#[derive(ComponentDefinition)]
struct Target {
    ctx: ComponentContext<Target>,
    prov: ProvidedPort<P>,
    req: RequiredPort<P>,
    w: Arc<World>,
    busy: Arc<AtomicBool>,
    active: bool,
    blocked: bool,
}
impl Target {
    fn inside(&mut self, what: &str, f: impl FnOnce(&mut Self) -> HandlerResult) -> HandlerResult {
        let b = self.busy.clone();
        if b.swap(true, SeqCst) {
            self.w.problem(Class::Overlap, format!("a {} runs while another handler does", what));
        }
        if self.blocked {
            self.w.problem(Class::Block, format!("a {} runs while the component is blocked", what));
        }
        if !self.active {
            self.w.problem(Class::Passive, format!("a {} runs while the component is stopped", what));
        }
        let r = f(self);
        if !b.swap(false, SeqCst) {
            self.w.problem(Class::Overlap, format!("a {} overlapped with another handler", what));
        }
        r
    }
}
impl ComponentLifecycle for Target {
    fn on_start(&mut self) -> HandlerResult {
        self.active = true;
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.active = false;
        Handled::OK
    }
}
impl Actor for Target {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        self.inside("message handler", |s| match m {
            Msg::Item(Item(d, i)) => {
                s.w.done(Class::Lost, d, i);
                Handled::OK
            }
            Msg::Ask(a) => {
                let _ = a.complete(|Item(d, i)| {
                    let w = &s.w;
                    w.done(Class::Ask, d, i);
                    i
                });
                Handled::OK
            }
            Msg::Block(d, i) => {
                s.blocked = true;
                let rx = s.w.wait(d);
                Handled::block_on(s, move |mut s| async move {
                    let _ = rx.await;
                    s.blocked = false;
                    s.w.done(Class::Block, d, i);
                    Handled::OK
                })
            }
            Msg::Task(d, n) => {
                s.spawn_local(move |s| async move {
                    for i in 0..n {
                        let rx = s.w.wait(d);
                        let _ = rx.await;
                        s.w.done(Class::Task, d, i);
                    }
                    Handled::OK
                });
                Handled::OK
            }
        })
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<P> for Target {
    fn handle(&mut self, Item(d, i): Item) -> HandlerResult {
        self.inside("request handler", |s| {
            s.w.done(Class::Port, d, i);
            Handled::OK
        })
    }
}
impl Require<P> for Target {
    fn handle(&mut self, Item(d, i): Item) -> HandlerResult {
        self.inside("indication handler", |s| {
            s.w.done(Class::Port, d, i);
            Handled::OK
        })
    }
}

/// Waits for `ok`; false if it takes too long.
fn until(w: &World, ok: impl Fn() -> bool) -> bool {
    let mut k = 0u32;
    let mut t0 = None;
    while !ok() {
        k += 1;
        if k < 300 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::yield_now();
        if k.is_multiple_of(64) && t0.get_or_insert_with(Instant::now).elapsed() > Duration::from_secs(20) {
            return false;
        }
        if w.dead.load(SeqCst) {
            return true;
        }
    }
    true
}

#[derive(Clone, Debug)]
struct Driver {
    kind: Kind,
    rounds: u32,
    /// items in a row
    burst: u32,
    /// most turns of an idle loop before the next item
    jitter: u32,
}

fn drive(sys: &KompactSystem, c: &Arc<Component<Target>>, w: &World, d: usize, p: &Driver) {
    let weak = c.actor_ref();
    let strong = weak.hold();
    let recipient = weak.recipient::<Item>();
    let (ind, req) = c.on_definition(|t| (t.req.share(), t.prov.share()));
    let mut x = 88172645463325252u64 ^ (d as u64) << 40;
    let class = p.kind.class();
    let hang = |i: u32, what: &str| {
        if !w.dead.swap(true, SeqCst) {
            w.problem(class, format!("driver {} ({:?}): {} {} was not handled, {} items were", d, p.kind, what, i, w.handled[d].load(SeqCst)));
        }
    };
    let mut i = 0;
    if p.kind == Kind::Task {
        weak.tell(Msg::Task(d, p.rounds));
    }
    for _ in 0..p.rounds {
        if w.dead.load(SeqCst) {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        if p.jitter > 0 {
            for _ in 0..x % (p.jitter as u64) {
                std::hint::spin_loop();
            }
        }
        match p.kind {
            Kind::Cycle => {
                let f = sys.stop_notify(c);
                if f.wait_timeout(Duration::from_secs(20)).is_err() {
                    return hang(i, "stop");
                }
                let f = sys.start_notify(c);
                if f.wait_timeout(Duration::from_secs(20)).is_err() {
                    return hang(i, "start");
                }
                continue;
            }
            Kind::Task | Kind::Block => {
                if p.kind == Kind::Block {
                    weak.tell(Msg::Block(d, i));
                }
                if !until(w, || w.slot[d].lock().unwrap().is_some()) {
                    return hang(i, "the wait of item");
                }
                if let Some(tx) = w.slot[d].lock().unwrap().take() {
                    let _ = tx.send(());
                }
                i += 1;
            }
            Kind::Ask => {
                let f = weak.ask_with(|pr| Msg::Ask(Ask::new(pr, Item(d, i))));
                match f.wait_timeout(Duration::from_secs(20)) {
                    Ok(v) if v == i => (),
                    Ok(o) => return w.problem(Class::Ask, format!("request {} was answered with {:?}", i, o)),
                    Err(_) => return hang(i, "request"),
                }
                i += 1;
            }
            Kind::Pool => {
                let (tx, rx) = oneshot::channel::<()>();
                let (gtx, grx) = oneshot::channel::<()>();
                let h = sys.spawn(async move {
                    let _ = gtx.send(());
                    let _ = rx.await;
                    7u32
                });
                // it waits now, or is just about to
                if p.burst % 2 == 0 && block_until(Duration::from_secs(20), grx).is_err() {
                    return hang(i, "the begin of pool future");
                }
                let _ = tx.send(());
                match block_until(Duration::from_secs(20), h) {
                    Ok(Ok(7)) => (),
                    Ok(o) => return w.problem(Class::Off, format!("a pool future gave {:?}", o)),
                    Err(_) => return hang(i, "pool future"),
                }
                w.handled[d].store(i + 1, SeqCst);
                i += 1;
            }
            _ => {
                for _ in 0..p.burst {
                    let it = Item(d, i);
                    match p.kind {
                        Kind::Weak => weak.tell(Msg::Item(it)),
                        Kind::Strong => match &strong {
                            Some(s) => s.tell(Msg::Item(it)),
                            None => weak.tell(Msg::Item(it)),
                        },
                        Kind::Recipient => recipient.tell(it),
                        Kind::Ind => sys.trigger_i(it, &ind),
                        _ => sys.trigger_r(it, &req),
                    }
                    i += 1;
                }
            }
        }
        if !until(w, || w.handled[d].load(SeqCst) >= i) {
            return hang(i - 1, "item");
        }
    }
}

pub fn race(s: &mut Src, focus: Class) -> CaseResult {
    s.label("race");
    let threads = s.range(1, 3);
    let throughput = *s.pick(&[1usize, 1, 2, 50]);
    let prio = *s.pick(&[0.5f32, 0.1, 0.9]);
    let chan_pool = s.chance(1, 4);
    let dedicated = s.chance(if focus == Class::Thread { 3 } else { 1 }, 4);
    let n = s.range(1, 3);
    let rounds = *s.pick(&[100u32, 400, 1000]);
    let mut drivers = vec![];
    for d in 0..n {
        let kind = if d == 0 {
            match focus {
                Class::Port => *s.pick(&[Kind::Ind, Kind::Req]),
                Class::Task => Kind::Task,
                Class::Block => Kind::Block,
                Class::Ask => Kind::Ask,
                Class::Off => Kind::Pool,
                Class::Passive => Kind::Cycle,
                _ => *s.pick(&[Kind::Weak, Kind::Strong, Kind::Recipient]),
            }
        } else {
            *s.pick(&[Kind::Weak, Kind::Strong, Kind::Recipient, Kind::Ind, Kind::Req, Kind::Task, Kind::Block, Kind::Ask, Kind::Pool, Kind::Cycle])
        };
        // only one driver starts and stops
        let kind = if kind == Kind::Cycle && drivers.iter().any(|p: &Driver| p.kind == Kind::Cycle) { Kind::Weak } else { kind };
        let burst = *s.pick(&[1u32, 1, 2, 20]);
        let slow = matches!(kind, Kind::Pool | Kind::Cycle | Kind::Ask);
        let rounds = if slow { rounds / 4 } else { (rounds / burst.min(4)).max(20) };
        drivers.push(Driver { kind, rounds, burst, jitter: *s.pick(&[0u32, 0, 20, 200, 2000]) });
    }
    s.nontrivial_if(drivers.iter().any(|d| d.kind.class() == focus) || !matches!(focus, Class::Thread));
    s.note(|| format!("threads {} throughput {} priority {} other pool {} dedicated {} drivers {:?}", threads, throughput, prio, chan_pool, dedicated, drivers));
    let mut cfg = KompactConfig::default();
    cfg.logger(quiet_logger());
    cfg.load_config_str(format!("[kompact.runtime]\nthreads = {}\nlabel = \"kv\"\n", threads));
    cfg.set_config_value(&kompact::config_keys::system::THROUGHPUT, throughput);
    cfg.set_config_value(&kompact::config_keys::system::MESSAGE_PRIORITY, prio);
    if chan_pool {
        cfg.executor(kompact::executors::crossbeam_channel_pool::ThreadPool::new);
    }
    let sys = match futures::executor::block_on(cfg.build()) {
        Ok(s) => s,
        Err(e) => return undecided(format!("system did not build: {:?}", e)),
    };
    let w = Arc::new(World {
        handled: (0..n).map(|_| AtomicU32::new(0)).collect(),
        slot: (0..n).map(|_| Mutex::new(None)).collect(),
        problems: Mutex::new(vec![]),
        dead: AtomicBool::new(false),
    });
    let w2 = w.clone();
    let make = move || Target {
        ctx: ComponentContext::uninitialised(),
        prov: ProvidedPort::uninitialised(),
        req: RequiredPort::uninitialised(),
        w: w2,
        busy: Arc::new(AtomicBool::new(false)),
        active: false,
        blocked: false,
    };
    let c = if dedicated { sys.create_dedicated(make) } else { sys.create(make) };
    if sys.start_notify(&c).wait_timeout(Duration::from_secs(20)).is_err() {
        return undecided("the component did not start");
    }
    let mut hs = vec![];
    for (d, p) in drivers.iter().cloned().enumerate() {
        let (sys, c, w) = (sys.clone(), c.clone(), w.clone());
        hs.push(std::thread::spawn(move || drive(&sys, &c, &w, d, &p)));
    }
    let mut died = false;
    for h in hs {
        died |= h.join().is_err();
    }
    let p = std::mem::take(&mut *w.problems.lock().unwrap());
    let hung = w.dead.load(SeqCst);
    let (dtx, drx) = std::sync::mpsc::channel();
    let sys2 = sys.clone();
    std::thread::spawn(move || {
        let _ = dtx.send(futures::executor::block_on(sys2.shutdown()).is_ok());
    });
    let down = drx.recv_timeout(Duration::from_secs(if hung { 1 } else { 30 }));
    for (class, m) in &p {
        if *class == focus || (focus == Class::Order && *class == Class::Lost) {
            return fail(format!("race-{:?}", class), m);
        }
    }
    if died && p.is_empty() {
        return fail("race-panic", "a call on the system panicked");
    }
    if focus == Class::Shut && p.is_empty() && down != Ok(true) {
        return fail("race-Shut", format!("the shutdown of an idle system: {:?}", down));
    }
    Ok(())
}
