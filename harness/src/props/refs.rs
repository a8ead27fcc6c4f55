//! E01: all kinds of references to an actor, in all states of that actor.
use crate::pbt::*;
use crate::sim::*;
use crate::uni::TestErr;
use crate::{check, check_eq};
use kompact::component::AbstractComponent;
use kompact::prelude::*;
use std::sync::{Arc, Mutex};

pub static PROPS: [&Prop; 1] =
    [&Prop::new("E01", "messages went through at least three kinds of references, some to a component that was not active", 200_000, 10_000_000, e01).segment(100_000)];

#[derive(Debug)]
struct Narrow(u64, Arc<()>);
#[derive(Debug)]
struct Conv(u64, Arc<()>);

#[derive(Debug)]
enum Msg {
    Plain(u64, Arc<()>),
    Net(u64),
    Ask(Ask<u64, u64>),
    Req(WithSender<u64, Msg>),
    ReqStrong(WithSenderStrong<u64, Msg>),
    ReqRecip(WithRecipient<u64, Answer>),
    Answer(u64),
    Boom,
    Fail,
    /// sends these on
    Relay(Vec<(usize, Kind)>),
}
#[derive(Debug)]
struct Answer(u64);
/// no message can be made of these
const BAD: u64 = u64::MAX;
impl From<Narrow> for Msg {
    fn from(n: Narrow) -> Msg {
        if n.0 == BAD {
            panic!("kv test panic");
        }
        Msg::Plain(n.0, n.1)
    }
}
impl From<Answer> for Msg {
    fn from(a: Answer) -> Msg {
        Msg::Answer(a.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Weak,
    Strong,
    HoldNow,
    Recipient,
    RecipientNow,
    RecipientWith,
    /// `Receiver` of a recipient
    Rereceived,
    Dyn,
    DynNow,
    Ask,
    Sender,
    SenderStrong,
    SenderRecipient,
    Component,
    Enqueue,
}
const KINDS: [Kind; 15] = [
    Kind::Weak,
    Kind::Strong,
    Kind::HoldNow,
    Kind::Recipient,
    Kind::RecipientNow,
    Kind::RecipientWith,
    Kind::Rereceived,
    Kind::Dyn,
    Kind::DynNow,
    Kind::Ask,
    Kind::Sender,
    Kind::SenderStrong,
    Kind::SenderRecipient,
    Kind::Component,
    Kind::Enqueue,
];

struct Refs {
    comp: Option<Arc<dyn AbstractComponent<Message = Msg>>>,
    weak: ActorRef<Msg>,
    strong: Option<ActorRefStrong<Msg>>,
    recip: Recipient<Narrow>,
    with: Recipient<Conv>,
    dynr: DynActorRef,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Passive,
    Active,
    Dead,
    Faulty,
}

#[derive(Default)]
struct Inner {
    /// (from, to, kind, state of the target was active or passive)
    sent: Vec<(usize, usize, Kind)>,
    log: Vec<Vec<u64>>,
    answers: Vec<(usize, u64)>,
    /// who should get an answer
    asker: Vec<Option<usize>>,
    state: Vec<St>,
    problems: Vec<String>,
    asks: Vec<(u64, KFuture<u64>)>,
    kinds: u32,
    off: bool,
}
struct World {
    m: Mutex<Inner>,
    refs: Mutex<Vec<Refs>>,
    token: Arc<()>,
}
type W = Arc<World>;
const HARNESS: usize = usize::MAX;

impl World {
    fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T {
        progress();
        let mut g = match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        f(&mut g)
    }

    fn send(&self, from: usize, to: usize, kind: Kind) {
        let i = self.with(|g| {
            g.sent.push((from, to, kind));
            // replies go to the next component
            let n = g.state.len();
            g.asker.push(if matches!(kind, Kind::Sender | Kind::SenderStrong | Kind::SenderRecipient) { Some((to + 1) % n) } else { None });
            g.kinds |= 1 << KINDS.iter().position(|k| *k == kind).unwrap();
            if g.state[to] != St::Active {
                g.off = true;
            }
            g.sent.len() as u64 - 1
        });
        let t = self.token.clone();
        let g = self.refs.lock().unwrap();
        let r = &g[to];
        let back = &g[(to + 1) % g.len()];
        match kind {
            Kind::Weak => r.weak.tell(Msg::Plain(i, t)),
            Kind::Strong => match &r.strong {
                Some(s) => s.tell(Narrow(i, t)),
                None => r.weak.clone().tell(Narrow(i, t)),
            },
            Kind::HoldNow => match r.weak.hold() {
                Some(s) => s.clone().tell(Msg::Plain(i, t)),
                None => r.weak.tell(Msg::Plain(i, t)),
            },
            Kind::Recipient => r.recip.tell(Narrow(i, t)),
            Kind::RecipientNow => match &r.strong {
                Some(s) if i % 2 == 1 => s.actor_ref().recipient::<Narrow>().tell(Narrow(i, t)),
                Some(s) if i % 4 == 2 => Receiver::<Narrow>::recipient(&s.weak_ref()).tell(Narrow(i, t)),
                _ => r.weak.recipient::<Narrow>().tell(Narrow(i, t)),
            },
            Kind::RecipientWith => r.with.clone().tell(Conv(i, t)),
            Kind::Rereceived => Receiver::<Narrow>::recipient(&r.recip).tell(Narrow(i, t)),
            Kind::Dyn | Kind::DynNow => {
                let p = ActorPath::Unique(UniquePath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0, Default::default()));
                let m = NetMessage::with_box(<u64 as Deserialiser<u64>>::SER_ID, p.clone(), p, Box::new(i));
                match (&r.strong, kind) {
                    (_, Kind::Dyn) => r.dynr.tell(m),
                    (Some(s), _) if i % 2 == 1 => s.dyn_ref().tell(m),
                    _ => r.weak.dyn_ref().tell(m),
                }
            }
            Kind::Ask => {
                let f = match &r.strong {
                    Some(s) if i % 2 == 1 => s.ask_with(|p| Msg::Ask(Ask::of(i)(p))),
                    _ => r.weak.ask_with(|p| Msg::Ask(Ask::new(p, i))),
                };
                drop(g);
                self.with(|g| g.asks.push((i, f)));
            }
            Kind::Sender => r.weak.tell(Msg::Req(WithSender::new(i, back.weak.clone()))),
            Kind::SenderStrong => match back.weak.hold() {
                Some(s) => r.weak.tell(Msg::ReqStrong(WithSenderStrong::new(i, s))),
                None => r.weak.tell(Msg::Req(WithSender::new(i, back.weak.clone()))),
            },
            Kind::SenderRecipient => r.weak.tell(Msg::ReqRecip(match i % 3 {
                0 => WithRecipient::from(i, &back.weak),
                1 => WithRecipient::from_convert(i, &back.weak, |a: Answer| Msg::Answer(a.0)),
                _ => WithRecipient::new(i, back.weak.recipient()),
            })),
            Kind::Component => match &r.comp {
                Some(c) => c.actor_ref().tell(Msg::Plain(i, t)),
                None => r.weak.tell(Msg::Plain(i, t)),
            },
            Kind::Enqueue => r.weak.enqueue(MsgEnvelope::Typed(Msg::Plain(i, t))),
        }
    }
}

#[derive(ComponentDefinition)]
struct Tgt {
    ctx: ComponentContext<Tgt>,
    me: usize,
    w: W,
}
impl Tgt {
    fn state(&self, s: St) {
        let id = *self.ctx.id();
        PASSIVE.with(|p| if s == St::Passive { p.borrow_mut().insert(id) } else { p.borrow_mut().remove(&id) });
        let me = self.me;
        self.w.with(|g| {
            if matches!(g.state[me], St::Dead | St::Faulty) {
                g.problems.push(format!("component {} runs a callback although it is {:?}", me, g.state[me]));
            }
            g.state[me] = s
        });
    }
    fn got(&self, i: u64) {
        let me = self.me;
        self.w.with(|g| {
            if g.state[me] != St::Active {
                g.problems.push(format!("component {} handles a message although it is {:?}", me, g.state[me]));
            }
            g.log[me].push(i)
        })
    }
}
impl ComponentLifecycle for Tgt {
    fn on_start(&mut self) -> HandlerResult {
        self.state(St::Active);
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.state(St::Passive);
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.state(St::Dead);
        Handled::OK
    }
}
fn answer(i: u64) -> u64 {
    i * 3 + 11
}
impl Actor for Tgt {
    type Message = Msg;
    fn receive_local(&mut self, m: Msg) -> HandlerResult {
        match m {
            Msg::Plain(i, t) => {
                drop(t);
                self.got(i)
            }
            Msg::Net(i) => self.got(i),
            Msg::Ask(a) => {
                let i = *a.request();
                self.got(i);
                let _ = a.reply(answer(i));
            }
            Msg::Req(r) => {
                let i = *r.content();
                self.got(i);
                r.reply(Msg::Answer(answer(i)));
            }
            Msg::ReqStrong(r) => {
                let i = **&r;
                self.got(i);
                r.reply(Msg::Answer(answer(i)));
            }
            Msg::ReqRecip(r) => {
                let i = *r.content();
                self.got(i);
                r.reply(Answer(answer(i)));
            }
            Msg::Answer(a) => {
                let me = self.me;
                self.w.with(|g| g.answers.push((me, a)));
            }
            Msg::Relay(v) => {
                for (to, k) in v {
                    self.w.send(self.me, to, k);
                }
            }
            Msg::Boom => {
                let me = self.me;
                self.w.with(|g| g.state[me] = St::Faulty);
                panic!("kv test panic");
            }
            Msg::Fail => {
                let me = self.me;
                self.w.with(|g| g.state[me] = St::Dead);
                return Err(HandlerError::unrecoverable(TestErr));
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        match m.try_deserialise::<u64, u64>() {
            Ok(i) => self.receive_local(Msg::Net(i)),
            Err(e) => {
                self.w.with(|g| g.problems.push(format!("network message could not be read: {:?}", e)));
                Handled::OK
            }
        }
    }
}

fn e01(s: &mut Src) -> CaseResult {
    let sim = Sim::random(s)?;
    let n = s.range(1, 4);
    let w: W = Arc::new(World {
        m: Mutex::new(Inner { log: vec![vec![]; n], state: vec![St::Passive; n], ..Inner::default() }),
        refs: Mutex::new(vec![]),
        token: Arc::new(()),
    });
    let mut ids = vec![];
    for me in 0..n {
        let w2 = w.clone();
        let t = move || Tgt { ctx: ComponentContext::uninitialised(), me, w: w2 };
        let comp: Arc<dyn AbstractComponent<Message = Msg>> = if s.chance(1, 3) { sim.sys.create_erased::<Msg>(Box::new(t())) } else { sim.sys.create(t) };
        PASSIVE.with(|p| p.borrow_mut().insert(comp.id()));
        ids.push(comp.id());
        if !s.chance(1, 4) {
            sim.sys.start(&comp);
        }
        let weak = comp.actor_ref();
        w.refs.lock().unwrap().push(Refs {
            strong: if s.flag() { weak.hold() } else { None },
            recip: weak.recipient(),
            with: weak.recipient_with(|c: Conv| Msg::from(Narrow(c.0, c.1))),
            dynr: weak.dyn_ref(),
            weak,
            comp: Some(comp),
        });
    }
    let r = e01_run(s, &sim, &w, n);
    let (kinds, off) = w.with(|g| (g.kinds.count_ones(), g.off));
    s.nontrivial_if(kinds >= 3 && off);
    let old = w.with(|g| std::mem::take(&mut g.asks));
    drop(old);
    let refs = std::mem::take(&mut *w.refs.lock().unwrap());
    drop(refs);
    sim.dispose();
    r
}

fn e01_run(s: &mut Src, sim: &Sim, w: &W, n: usize) -> CaseResult {
    let k = s.range(1, 30);
    for _ in 0..k {
        match s.weighted(&[10, 8, 3, 3, 1, 1, 1, 1, 2]) {
            8 => {
                // the conversion into a message panics in the hands of the sender: nothing is sent
                let to = s.idx(n);
                let (weak, strong, recip, with) = {
                    let g = w.refs.lock().unwrap();
                    let r = &g[to];
                    (r.weak.clone(), r.strong.clone(), Receiver::<Narrow>::recipient(&r.recip), r.with.clone())
                };
                let t = w.token.clone();
                let how = s.idx(5);
                s.note(|| format!("a message to {} cannot be converted (way {})", to, how));
                let r = no_panic(move || match how {
                    0 => recip.tell(Narrow(BAD, t)),
                    1 => with.tell(Conv(BAD, t)),
                    2 => weak.tell(Narrow(BAD, t)),
                    3 => match strong {
                        Some(s) => s.tell(Narrow(BAD, t)),
                        None => weak.recipient::<Narrow>().tell(Narrow(BAD, t)),
                    },
                    _ => drop(weak.ask_with(|_p: KPromise<u64>| Msg::from(Narrow(BAD, t)))),
                });
                check!(r.is_err(), "harness", "the conversion did not panic");
            }
            0 => {
                let k = 1 + s.size(6);
                let to = s.idx(n);
                for _ in 0..k {
                    let kind = *s.pick(&KINDS);
                    s.note(|| format!("harness sends #{} to {} via {:?}", w.with(|g| g.sent.len()), to, kind));
                    w.send(HARNESS, to, kind);
                }
            }
            1 => sim.some(s, 5),
            2 => {
                let by = s.idx(n);
                let k = s.range(1, 4);
                let v: Vec<_> = (0..k).map(|_| (s.idx(n), *s.pick(&KINDS))).collect();
                s.note(|| format!("component {} is told to send {:?}", by, v));
                let r = w.refs.lock().unwrap()[by].weak.clone();
                r.tell(Msg::Relay(v));
            }
            3 => {
                let c = s.idx(n);
                let start = s.flag();
                if let Some(x) = w.refs.lock().unwrap()[c].comp.clone() {
                    s.note(|| format!("{} {}", if start { "start" } else { "stop" }, c));
                    if start { sim.sys.start(&x) } else { sim.sys.stop(&x) }
                }
            }
            4 => {
                let c = s.idx(n);
                let x = w.refs.lock().unwrap()[c].comp.clone();
                if let Some(x) = x {
                    s.note(|| format!("kill {}", c));
                    sim.sys.kill(x);
                }
            }
            5 => {
                let c = s.idx(n);
                let r = w.refs.lock().unwrap()[c].weak.clone();
                let boom = s.flag();
                s.note(|| format!("component {} is told to {}", c, if boom { "panic" } else { "fail" }));
                r.tell(if boom { Msg::Boom } else { Msg::Fail });
            }
            6 => {
                let c = s.idx(n);
                s.note(|| format!("strong reference to {} dropped", c));
                let x = w.refs.lock().unwrap()[c].strong.take();
                drop(x);
            }
            _ => {
                let c = s.idx(n);
                let x = w.refs.lock().unwrap()[c].comp.take();
                if let Some(x) = x {
                    s.note(|| format!("harness kills and lets go of {}", c));
                    sim.sys.kill(x);
                }
            }
        }
        e01_check(w, n, false)?;
    }
    sim.run(s)?;
    // start whoever can still be started
    let startable: Vec<usize> = (0..n).filter(|c| w.refs.lock().unwrap()[*c].comp.is_some()).collect();
    for c in &startable {
        let x = w.refs.lock().unwrap()[*c].comp.clone().unwrap();
        sim.sys.start(&x);
    }
    sim.run(s)?;
    e01_check(w, n, true)?;
    // equality and upgrading
    {
        let g = w.refs.lock().unwrap();
        for i in 0..n {
            let here = g[i].comp.is_some() || g[i].strong.is_some();
            if here {
                check!(g[i].weak.hold().is_some() && g[i].dynr.can_upgrade_component(), "not-upgradable", "component {} is there, but its references do not upgrade", i);
                for j in 0..n {
                    if g[j].comp.is_some() || g[j].strong.is_some() {
                        check_eq!(g[i].weak == g[j].weak, i == j, "ref-equality", "references to {} and {} compare", i, j);
                        check_eq!(g[i].weak.dyn_ref() == g[j].dynr, i == j, "ref-equality", "dynamic references to {} and {} compare", i, j);
                        check_eq!(g[i].recip == g[j].recip, i == j, "ref-equality", "recipients of {} and {} compare", i, j);
                        if let (Some(a), Some(b)) = (&g[i].strong, &g[j].strong) {
                            check_eq!(a == b, i == j, "ref-equality", "strong references to {} and {} compare", i, j);
                        }
                    }
                }
            }
        }
    }
    // everything goes away, the weak references remain
    let comps: Vec<_> = (0..n).filter_map(|c| w.refs.lock().unwrap()[c].comp.take()).collect();
    for c in &comps {
        sim.sys.kill(c.clone());
    }
    sim.run(s)?;
    drop(comps);
    let strong: Vec<_> = (0..n).filter_map(|c| w.refs.lock().unwrap()[c].strong.take()).collect();
    drop(strong);
    sim.run(s)?;
    let before: Vec<usize> = w.with(|g| g.log.iter().map(|l| l.len()).collect());
    // an unhandled message that carries a strong reference keeps its target's successor allocated
    let tied = w.with(|g| g.sent.iter().enumerate().any(|(i, (_, to, k))| *k == Kind::SenderStrong && !g.log[*to].contains(&(i as u64))));
    let mut kinds: Vec<Kind> = KINDS.to_vec();
    kinds.retain(|k| *k != Kind::SenderStrong);
    kinds.truncate(s.range(1, KINDS.len()));
    for c in 0..n {
        let up = {
            let g = w.refs.lock().unwrap();
            (g[c].weak.hold().is_some(), g[c].dynr.can_upgrade_component())
        };
        check!(tied || up == (false, false), "not-deallocated", "component {} is destroyed and all strong references are gone, but it is still allocated", c);
        for k in &kinds {
            let r = no_panic(|| w.send(HARNESS, c, *k));
            if let Err((m, _)) = r {
                return fail("send-to-dead", format!("sending via {:?} to a deallocated component panicked: {}", k, m));
            }
        }
    }
    sim.run(s)?;
    let after: Vec<usize> = w.with(|g| g.log.iter().map(|l| l.len()).collect());
    check_eq!(after, before, "handled-after-death", "messages handled");
    let k = Arc::strong_count(&w.token);
    check!(tied || k == 1, "message-leaked", "{} messages are still held although every component is gone", k - 1);
    // asks to the dead fail
    let asks = w.with(|g| std::mem::take(&mut g.asks));
    for (i, mut f) in asks {
        let done = w.with(|g| g.log.iter().any(|l| l.contains(&i)));
        match poll_once(&mut f) {
            Some(Ok(v)) => {
                check!(done, "answer-from-nowhere", "request {} was answered but not handled", i);
                check_eq!(v, answer(i), "wrong-answer", "answer to {}", i);
            }
            Some(Err(_)) => check!(!done, "answer-lost", "request {} was handled but not answered", i),
            None => check!(tied, "left-hanging", "request {} is neither answered nor dropped", i),
        }
    }
    e01_check(w, n, false)
}

fn e01_check(w: &W, n: usize, quiet: bool) -> CaseResult {
    w.with(|g| {
        if let Some(p) = g.problems.first() {
            return fail("world", p.clone());
        }
        for c in 0..n {
            let mut last: std::collections::HashMap<usize, u64> = Default::default();
            for i in &g.log[c] {
                let Some((from, to, kind)) = g.sent.get(*i as usize) else {
                    return fail("unknown", format!("component {} handled unknown message {}", c, i));
                };
                check!(*to == c, "wrong-receiver", "message {} for {} handled by {}", i, to, c);
                if let Some(l) = last.get(from) {
                    check!(l < i, "reordered", "component {} handled message {} (via {:?}) after message {} of the same sender (via {:?})", c, i, kind, l, g.sent[*l as usize].2);
                }
                last.insert(*from, *i);
            }
            if quiet && g.state[c] == St::Active {
                for (i, (_, to, kind)) in g.sent.iter().enumerate() {
                    if *to == c {
                        check!(g.log[c].contains(&(i as u64)), "lost", "message {} via {:?} was not handled by {}, which is active", i, kind, c);
                    }
                }
            }
        }
        for (at, a) in &g.answers {
            let ok = *a >= 11 && (*a - 11) % 3 == 0 && {
                let i = (*a - 11) / 3;
                g.asker.get(i as usize) == Some(&Some(*at)) && g.log.iter().any(|l| l.contains(&i))
            };
            check!(ok, "wrong-answer", "component {} got answer {}", at, a);
        }
        for (k, a) in g.answers.iter().enumerate() {
            check!(!g.answers[..k].contains(a), "answered-twice", "answer {} arrived twice", a.1);
        }
        if quiet {
            for c in 0..n {
                for i in &g.log[c] {
                    if let Some(Some(at)) = g.asker.get(*i as usize)
                        && g.state[*at] == St::Active
                    {
                        check!(g.answers.contains(&(*at, answer(*i))), "answer-lost", "the reply to message {} never reached {}", i, at);
                    }
                }
            }
        }
        Ok(())
    })
}
