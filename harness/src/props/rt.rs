//! Component runtime: histories of many components under a generated schedule, compared with what
//! was sent, commanded and set up. Every scheduling decision is one of the generator's choices.
use crate::pbt::*;
use crate::sim::*;
use crate::stress::{Class, or_stress};
use crate::uni::*;
use crate::uni::Inner;
use crate::{check, check_eq};
use kompact::prelude::*;
use std::collections::{HashMap, HashSet};
use std::time::Duration;

pub static PROPS: [&Prop; 12] = [
    &Prop::new("C01", "at least two items were sent by a component to itself while it was executing, and more than 20 things happened", 200_000, 10_000_000, |s| or_stress(s, Class::Overlap, c01)).segment(100_000),
    &Prop::new("C02", "something was sent to a component that was not started, and more than ten things happened", 200_000, 10_000_000, |s| or_stress(s, Class::Lost, c02)).segment(100_000),
    &Prop::new("C03", "at least six messages were sent, one of them to a component that was not started", 200_000, 10_000_000, |s| or_stress(s, Class::Order, c03)).segment(100_000),
    &Prop::new("C04", "an event had at least two receivers", 200_000, 10_000_000, |s| or_stress(s, Class::Port, c04)).segment(100_000),
    &Prop::new("C05", "something was sent to a component that was not started, and some component was given at least four commands", 200_000, 10_000_000, |s| or_stress(s, Class::Passive, c05)).segment(100_000),
    &Prop::new("C06", "at least three notification futures were requested", 200_000, 10_000_000, c06).segment(100_000),
    &Prop::new("C07", "a component failed, and at least four items were sent", 200_000, 10_000_000, c07).segment(100_000),
    &Prop::new("C08", "a handler blocked, and at least five items were sent", 200_000, 10_000_000, |s| or_stress(s, Class::Block, c08)).segment(100_000),
    &Prop::new("C09", "a task of at least two steps was spawned", 200_000, 10_000_000, |s| or_stress(s, Class::Task, c09)).segment(100_000),
    &Prop::new("C10", "at least three timers fired and one was cancelled", 200_000, 10_000_000, |s| or_stress(s, Class::Timer, c10)).segment(100_000),
    &Prop::new("C12", "a component had been started when the system was shut down, and another was stopped, blocked, failed or had work left", 200_000, 10_000_000, |s| or_stress(s, Class::Shut, c12)).segment(100_000),
    &Prop::new("C14", "messages and events were pending, each at least the throughput, or two ports were busy at once", 200_000, 10_000_000, c14).segment(100_000),
];

// ------------------------------------------------------------------ driving a history

#[derive(Clone, Copy)]
struct Plan {
    f: Feat,
    nodes: (usize, usize),
    tmpl: usize,
    budget: i64,
    steps: usize,
    channels: usize,
    life_tmpl: u64, // out of 10, probability of a scripted start/stop handler
    kill_tmpl: bool,
    // weights of what the harness does: send, port event, run some, timer, command, gate, connect
    ext: [u64; 7],
    max_advance: u64,
}

const PLAIN: Feat = Feat { sends: 6, ports: 0, timers: 0, cancels: 0, tasks: 0, ctl: 0, kill: false, recovery: 0, faults: 0, blocks: 0, nested: false, gates: 0, all_refs: true };
const BASE: Plan = Plan { f: PLAIN, nodes: (1, 4), tmpl: 8, budget: 120, steps: 30, channels: 0, life_tmpl: 1, kill_tmpl: false, ext: [6, 0, 8, 0, 0, 0, 0], max_advance: 20 };

impl Plan {
    fn setup(&self, s: &mut Src) -> Result<Setup, Failure> {
        let n = s.range(self.nodes.0, self.nodes.1);
        let nt = s.range(2, self.tmpl);
        let t = templates(s, &self.f, n, nt);
        for (i, x) in t.iter().enumerate() {
            s.note(|| format!("template {}: {:?}", i, x));
        }
        let st = Setup::new(s, n, t, self.f.gates, self.budget)?;
        if self.f.blocks > 0 {
            st.sim.sched.0.lock().unwrap().waive_double = true;
        }
        for i in 0..n {
            for k in 0..3 {
                if (k < 2 || self.kill_tmpl) && s.chance(self.life_tmpl, 10) {
                    let t = s.idx(nt);
                    st.w.lock().life[i][k] = Some(t);
                    s.note(|| format!("component {}: handler {} runs template {}", i, ["start", "stop", "kill"][k], t));
                }
            }
        }
        if self.channels > 0 {
            st.connect_random(s, self.channels);
            for i in 0..n {
                s.note(|| {
                    let g = st.w.lock();
                    format!("component {}: indications to {:?}, requests to {:?}", i, g.ind_conn[i], g.req_conn[i])
                });
            }
        }
        Ok(st)
    }

    fn step(&self, s: &mut Src, st: &Setup) {
        let w = &st.w;
        let nt = w.lock().tmpl.len();
        match s.weighted(&self.ext) {
            0 => {
                let k = 1 + s.size(5);
                let (to, t) = (s.idx(st.n), s.idx(nt));
                for _ in 0..k {
                    let r = if self.f.all_refs { *s.pick(&REFS) } else { Ref::Weak };
                    s.note(|| format!("harness sends #{} to {} via {:?}: template {}", w.lock().sent.len(), to, r, t));
                    w.send(HARNESS, to, r, t, None);
                }
            }
            1 => {
                // an event from outside, straight into a component's port
                let (to, t, p) = (s.idx(st.n), s.idx(nt), s.idx(2));
                let ind = s.flag();
                s.note(|| format!("harness triggers #{} into port {} ({}) of {}: template {}", w.lock().sent.len(), p, if ind { "required" } else { "provided" }, to, t));
                trigger_into(w, to, p as u8, ind, t);
            }
            2 => st.sim.some(s, 6),
            3 => {
                let d = if s.chance(1, 4) { 0 } else { s.range(1, self.max_advance as usize) as u64 };
                advance(s, st, d);
            }
            4 => {
                let to = s.idx(st.n);
                let what = if self.f.kill && s.chance(1, 5) { Life::Kill } else { *s.pick(&[Life::Start, Life::Stop, Life::Start]) };
                s.note(|| format!("harness: {:?} {}", what, to));
                w.ctl(to, what);
            }
            5 => {
                if self.f.gates > 0 {
                    let g = s.idx(self.f.gates);
                    if s.chance(1, 3) {
                        s.note(|| format!("harness: spurious wake-up at gate {}", g));
                        w.poke(g);
                    } else {
                        s.note(|| format!("harness: opens gate {}", g));
                        w.open(g);
                    }
                }
            }
            _ => {
                let g = st.ghosts.borrow().len();
                if g > 0 && s.flag() {
                    let k = s.idx(g);
                    s.note(|| format!("never-started component {} is deallocated", k));
                    let c = st.ghosts.borrow_mut().remove(k);
                    drop(c);
                    return;
                }
                let (a, b, p) = (s.idx(st.n), s.idx(st.n), s.idx(2));
                rewire(s, st, a, b, p);
            }
        }
    }

    fn drive(&self, s: &mut Src) -> Result<Setup, Failure> {
        let st = self.setup(s)?;
        let start = s.weighted(&[3, 1]) == 0;
        if start {
            st.start_all();
        }
        let k = s.range(1, self.steps);
        for _ in 0..k {
            self.step(s, &st);
        }
        Ok(st)
    }
}

fn trigger_into(w: &W, to: usize, p: u8, ind: bool, t: usize) {
    let q = if ind { Q::Ind(p) } else { Q::Req(p) };
    let Some(i) = w.instance(HARNESS, None, q, None, t, vec![to]) else { return };
    let n = w.node(to);
    let sys = w.sys();
    match (ind, p) {
        (true, 0) => sys.trigger_i(i, &n.ra),
        (true, _) => sys.trigger_i(i, &n.rb),
        (false, 0) => sys.trigger_r(i, &n.pa),
        (false, _) => sys.trigger_r(i, &n.pb),
    };
}

fn advance(s: &mut Src, st: &Setup, ms: u64) {
    if ms == 0 {
        st.sim.timer.advance_to_next();
    } else {
        st.sim.timer.advance_by(Duration::from_millis(ms));
    }
    s.note(|| format!("time advances to {}ms", st.w.now()));
}

/// Adds or removes (one direction of) a channel between the provided port of `a` and the required
/// port of `b`.
fn rewire(s: &mut Src, st: &Setup, a: usize, b: usize, p: usize) {
    let w = &st.w;
    let (x, y) = (w.node(a), w.node(b));
    if uni_of(&x).is_faulty() || uni_of(&y).is_faulty() {
        return;
    }
    let (hi, hr) = {
        let g = w.lock();
        (g.ind_conn[a][p].contains(&b), g.req_conn[b][p].contains(&a))
    };
    match s.below(5) {
        4 => st.disconnect_channel(s),
        0 | 1 => {
            st.connect(s, a, b, p);
            s.note(|| format!("connect {}.provided[{}] with {}.required", a, p, b));
        }
        2 => {
            // the provider forgets the requirer
            let by_port = s.flag();
            let r = if by_port {
                with_def(&x, |u| if p == 0 { u.pa.disconnect_port(y.ra.clone()) } else { u.pb.disconnect_port(y.rb.clone()) }).unwrap()
            } else {
                let c = y.comp.as_any().downcast_ref::<Component<Uni>>().unwrap();
                with_def_pair(&x, |u| if p == 0 { u.pa.disconnect_component(c) } else { u.pb.disconnect_component(c) })
            };
            s.note(|| format!("disconnect {}.provided[{}] from {} -> {}", a, p, b, r));
            // whether channels to deallocated components count is not specified
            if r != hi && !st.had_ghosts.get() {
                w.problem(format!("disconnecting {} from {} reported {}, connected: {}", a, b, r, hi));
            }
            w.lock().ind_conn[a][p].retain(|z| *z != b);
        }
        _ => {
            let by_port = s.flag();
            let r = if by_port {
                with_def(&y, |u| if p == 0 { u.ra.disconnect_port(x.pa.clone()) } else { u.rb.disconnect_port(x.pb.clone()) }).unwrap()
            } else {
                let c = x.comp.as_any().downcast_ref::<Component<Uni>>().unwrap();
                with_def_pair(&y, |u| if p == 0 { u.ra.disconnect_component(c) } else { u.rb.disconnect_component(c) })
            };
            s.note(|| format!("disconnect {}.required[{}] from {} -> {}", b, p, a, r));
            if r != hr && !st.had_ghosts.get() {
                w.problem(format!("disconnecting {} from {} reported {}, connected: {}", b, a, r, hr));
            }
            w.lock().req_conn[b][p].retain(|z| *z != a);
        }
    }
}
fn with_def_pair<T>(n: &Node, f: impl FnOnce(&mut Uni) -> T) -> T {
    with_def(n, f).unwrap()
}

/// Lets everything come to rest with every component started and every gate open.
fn settle(s: &mut Src, st: &Setup) -> CaseResult {
    let gates = st.w.lock().gates.len();
    for g in 0..gates {
        st.w.open(g);
    }
    st.sim.run(s)?;
    for _ in 0..6 {
        st.start_all();
        st.sim.run(s)?;
        if (0..st.n).all(|c| phase(&st.w.lock(), c) != Phase::Passive) {
            break;
        }
    }
    let n = st.w.lock().log.iter().filter(|e| matches!(e.k, K::Handle(_) | K::Life(_) | K::Task)).count();
    s.label(match n {
        0..=9 => "callbacks<10",
        10..=29 => "callbacks 10-29",
        30..=99 => "callbacks 30-99",
        _ => "callbacks>=100",
    });
    st.problem()
}

// ------------------------------------------------------------------ oracles

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase {
    Passive,
    Active,
    Dead,
    Faulty,
}

fn phase(g: &Inner, c: usize) -> Phase {
    let mut p = Phase::Passive;
    for e in g.log.iter().filter(|e| e.comp == c) {
        p = match e.k {
            K::Life(Life::Start) => Phase::Active,
            K::Life(Life::Stop) => Phase::Passive,
            K::Life(Life::Kill) => Phase::Dead,
            K::Out(O::Unrecoverable) => Phase::Dead,
            K::Out(O::Recoverable | O::Panic) if p != Phase::Dead => Phase::Faulty,
            _ => continue,
        };
    }
    p
}

/// Every handled item was sent to the component that handled it, and is handled at most once;
/// exactly once if the component is active at the end.
fn o_once(g: &Inner, n: usize, quiet: bool) -> CaseResult {
    let mut seen: HashMap<(usize, u64), u32> = HashMap::new();
    for e in &g.log {
        if let K::Handle(q) = e.k {
            let Some(x) = g.sent.get(e.inst as usize) else { continue };
            if q == Q::Timer {
                check!(x.to == Some(e.comp), "wrong-receiver", "timer {} of component {:?} fired at {}", e.inst, x.to, e.comp);
                continue;
            }
            check_eq!(x.q, q, "wrong-queue", "item {} was sent as", e.inst);
            let ok = if q == Q::Msg { x.to == Some(e.comp) } else { x.port_peers.contains(&e.comp) };
            check!(ok, "wrong-receiver", "{:?} item {} (from {}, to {:?} / {:?}) handled by {}", q, e.inst, x.from, x.to, x.port_peers, e.comp);
            let c = seen.entry((e.comp, e.inst)).or_insert(0);
            *c += 1;
            let copies = if q == Q::Msg { 1 } else { x.port_peers.iter().filter(|p| **p == e.comp).count() as u32 };
            check!(*c <= copies, "handled-twice", "{:?} item {} was handled {} times by {}", q, e.inst, c, e.comp);
        }
    }
    if quiet {
        for c in 0..n {
            if phase(g, c) != Phase::Active {
                continue;
            }
            for (i, x) in g.sent.iter().enumerate() {
                let mine = match x.q {
                    Q::Timer => false,
                    Q::Msg => x.to == Some(c),
                    _ => x.port_peers.contains(&c),
                };
                if mine {
                    check!(seen.contains_key(&(c, i as u64)), "lost", "{:?} item {} from {} was never handled by {}, which is active and idle", x.q, i, x.from, c);
                }
            }
        }
    }
    Ok(())
}

/// Items of one sender to one queue of one receiver are handled in sending order.
fn o_fifo(g: &Inner) -> CaseResult {
    let mut last: HashMap<(usize, usize, Q), u64> = HashMap::new();
    for e in &g.log {
        if let K::Handle(q) = e.k {
            if q == Q::Timer {
                continue;
            }
            let Some(x) = g.sent.get(e.inst as usize) else { continue };
            let l = last.entry((x.from, e.comp, q)).or_insert(0);
            check!(e.inst >= *l, "reordered", "{} handled {:?} item {} of sender {} after item {} that was sent later", e.comp, q, e.inst, x.from, *l);
            *l = e.inst;
        }
    }
    Ok(())
}

/// Nothing is handled while passive or after the end; commands and callbacks agree.
fn o_life(g: &Inner, n: usize, quiet: bool) -> CaseResult {
    o_phases(g, n)?;
    for c in 0..n {
        let (calls, own_shutdown, p) = callbacks(g, c);
        let mut cmds = g.ctl[c].clone();
        if let Some(k) = cmds.iter().position(|l| *l == Life::Kill) {
            cmds.truncate(k + 1);
        }
        let got = if own_shutdown { &calls[..calls.len() - 1] } else { &calls[..] };
        let pre = got.len() <= cmds.len() && got == &cmds[..got.len()];
        check!(pre, "callback-order", "component {} got commands {:?} but ran callbacks {:?}", c, cmds, got);
        if quiet && p != Phase::Faulty && !own_shutdown {
            check!(got.len() == cmds.len(), "command-lost", "component {} got commands {:?} but only ran {:?}", c, cmds, got);
        }
    }
    Ok(())
}

/// The lifecycle callbacks of a component, whether the last one is due to its own shutdown, and
/// the phase it ends in (failed unrecoverably counts as faulty).
fn callbacks(g: &Inner, c: usize) -> (Vec<Life>, bool, Phase) {
    let mut p = Phase::Passive;
    let mut calls = vec![];
    let mut own_shutdown = false;
    let mut last_out = None;
    for e in g.log.iter().filter(|e| e.comp == c) {
        match e.k {
            K::Life(l) => {
                if l == Life::Kill && last_out == Some(O::Shutdown) {
                    own_shutdown = true;
                }
                calls.push(l);
                p = match l {
                    Life::Start => Phase::Active,
                    Life::Stop => Phase::Passive,
                    Life::Kill => Phase::Dead,
                };
            }
            K::Out(O::Recoverable | O::Panic | O::Unrecoverable) if p != Phase::Dead => p = Phase::Faulty,
            _ => {}
        }
        last_out = match e.k {
            K::Out(o) => Some(o),
            _ => None,
        };
    }
    (calls, own_shutdown, p)
}

/// Nothing runs in a phase in which it must not.
fn o_phases(g: &Inner, n: usize) -> CaseResult {
    for c in 0..n {
        let mut p = Phase::Passive;
        for e in g.log.iter().filter(|e| e.comp == c) {
            match e.k {
                K::Life(l) => {
                    check!(p != Phase::Dead, "runs-after-kill", "{:?} callback of {} after it was killed", l, c);
                    check!(p != Phase::Faulty, "runs-after-fault", "{:?} callback of {} after it failed", l, c);
                    p = match l {
                        Life::Start => Phase::Active,
                        Life::Stop => Phase::Passive,
                        Life::Kill => Phase::Dead,
                    };
                }
                K::Handle(q) => {
                    check!(p != Phase::Dead, "runs-after-kill", "{} handled {:?} item {} after it was killed", c, q, e.inst);
                    check!(p != Phase::Faulty, "runs-after-fault", "{} handled {:?} item {} after it failed", c, q, e.inst);
                    check!(p == Phase::Active, "handled-while-passive", "{} handled {:?} item {} while it was not started", c, q, e.inst);
                }
                K::Task => {
                    check!(p != Phase::Dead, "runs-after-kill", "task {} of {} ran after it was killed", e.inst, c);
                    check!(p != Phase::Faulty, "runs-after-fault", "task {} of {} ran after it failed", e.inst, c);
                }
                K::After => {
                    check!(p != Phase::Faulty, "runs-after-fault", "continuation {} of {} ran after it failed", e.inst, c);
                }
                K::Out(O::Recoverable | O::Panic) if p != Phase::Dead => p = Phase::Faulty,
                K::Out(O::Unrecoverable) if p != Phase::Dead => p = Phase::Faulty,
                _ => {}
            }
        }
    }
    Ok(())
}

/// While blocked, nothing else happens; the continuation comes once the gate is open.
fn o_block(g: &Inner, n: usize, quiet: bool) -> CaseResult {
    let mut open: HashSet<u64> = HashSet::new();
    struct B {
        inst: u64,
        gate: Option<usize>,
    }
    let mut blocked: Vec<Option<B>> = (0..n).map(|_| None).collect();
    for e in &g.log {
        if e.k == K::Open {
            open.insert(e.inst);
            continue;
        }
        if e.comp >= n {
            continue;
        }
        let c = e.comp;
        match e.k {
            K::Recovery | K::RecoveryAction | K::Mark | K::Out(_) => (),
            K::After => {
                let Some(b) = blocked[c].take() else {
                    return fail("continuation", format!("component {} ran a continuation although it is not blocked", c));
                };
                check_eq!(e.inst, b.inst, "continuation", "continuation of component {}", c);
                if let Some(gate) = b.gate {
                    check!(open.contains(&(gate as u64)), "resumed-early", "component {} resumed although its future is not ready", c);
                }
            }
            K::Blocked(gate) => {
                check!(blocked[c].is_none(), "blocked-twice", "component {} blocked twice", c);
                blocked[c] = Some(B { inst: e.inst, gate });
            }
            k => {
                if let Some(b) = &blocked[c] {
                    return fail("ran-while-blocked", format!("component {} ran {:?} (item {}) while blocked by item {}", c, k, e.inst, b.inst));
                }
            }
        }
    }
    if quiet {
        for c in 0..n {
            if let Some(b) = &blocked[c] {
                check!(false, "never-resumed", "component {} is still blocked by item {} although all futures are ready", c, b.inst);
            }
        }
    }
    Ok(())
}

fn o_throughput(g: &Inner, n: usize, sys: &KompactSystem) -> CaseResult {
    let mut per: HashMap<(usize, u64), usize> = HashMap::new();
    for e in g.log.iter().filter(|e| e.comp < n) {
        if matches!(e.k, K::Handle(_)) {
            let x = per.entry((e.comp, e.exec)).or_insert(0);
            *x += 1;
            check!(*x <= sys.throughput(), "throughput", "component {} handled more than {} events in one execution", e.comp, sys.throughput());
        }
    }
    Ok(())
}

/// What was due has fired, nothing fired early, late after a cancel or out of order.
fn o_timers(g: &Inner, n: usize, quiet: bool, now: u64) -> CaseResult {
    for c in 0..n {
        let mut last_deadline = 0;
        let mut fired: HashMap<u64, Vec<(usize, u64)>> = HashMap::new();
        for (at, e) in g.log.iter().enumerate() {
            if e.comp != c || e.k != K::Handle(Q::Timer) {
                continue;
            }
            let Some(t) = g.timers.iter().find(|t| t.inst == e.inst) else {
                return fail("unknown-timer", format!("component {} ran timer {} that nobody set", c, e.inst));
            };
            let f = fired.entry(e.inst).or_default();
            let k = f.len() as u64;
            f.push((at, e.now));
            let deadline = match t.period {
                None => {
                    check!(k == 0, "timer-twice", "one-shot timer {} of {} fired {} times", e.inst, c, k + 1);
                    t.set_at + t.delay
                }
                Some(p) => t.set_at + t.delay + k * p,
            };
            check!(e.now >= deadline, "timer-early", "timer {} of {} (set at {}, delay {}, period {:?}) fired for the {}th time at {}", e.inst, c, t.set_at, t.delay, t.period, k + 1, e.now);
            check!(deadline >= last_deadline, "timer-order", "timer {} of {} with deadline {} ran after one with deadline {}", e.inst, c, deadline, last_deadline);
            last_deadline = deadline;
            if let Some((cat, cnow)) = t.cancelled {
                check!(cat > at, "fired-after-cancel", "timer {} of {} was cancelled at {} and fired at {}", e.inst, c, cnow, e.now);
            }
        }
        if !quiet || phase(g, c) != Phase::Active {
            continue;
        }
        for t in g.timers.iter().filter(|t| t.comp == c && t.cancelled.is_none()) {
            let k = fired.get(&t.inst).map(|f| f.len() as u64).unwrap_or(0);
            let first = t.set_at + t.delay;
            // a delay of zero expires with the next tick at the latest
            let due = match t.period {
                None => (now >= first) as u64,
                Some(p) => if now >= first { (now - first) / p + 1 } else { 0 },
            };
            let slack = (t.delay == 0 && now == t.set_at) as u64;
            check!(k + slack >= due, "timer-lost", "timer {} of {} (set at {}, delay {}, period {:?}) fired {} times until {}", t.inst, c, t.set_at, t.delay, t.period, k, now);
        }
    }
    Ok(())
}

/// Tasks take their steps in order, are finished exactly once, and are not stuck.
fn o_tasks(g: &Inner, n: usize, quiet: bool) -> CaseResult {
    for (c, id, steps) in &g.tasks_spawned {
        if *c >= n {
            continue;
        }
        let ran: Vec<&Ev> = g.log.iter().filter(|e| e.k == K::Task && e.inst == *id).collect();
        check!(ran.iter().all(|e| e.comp == *c), "wrong-receiver", "task {} of {} ran elsewhere", id, c);
        check!(ran.len() <= steps.len(), "task-twice", "task {} of {} ran {} of {} steps", id, c, ran.len(), steps.len());
        let done = g.tasks_done.iter().filter(|x| *x == id).count();
        check!(done <= 1, "task-twice", "task {} of {} finished {} times", id, c, done);
        if done == 1 {
            check!(ran.len() == steps.len(), "task-steps", "task {} of {} finished after {} of {} steps", id, c, ran.len(), steps.len());
        }
        if quiet && phase(g, *c) == Phase::Active {
            check!(done == 1, "task-lost", "task {} of {} is stuck after {} of {} steps", id, c, ran.len(), steps.len());
        }
    }
    Ok(())
}

fn passive_arrivals(g: &Inner, n: usize) -> bool {
    // some item was sent at a time its receiver was passive
    (0..n).any(|c| {
        g.sent.iter().any(|x| {
            (x.to == Some(c) || x.port_peers.contains(&c)) && {
                let mut p = false;
                for e in &g.log[..x.at.min(g.log.len())] {
                    if e.comp == c {
                        match e.k {
                            K::Life(Life::Start) => p = true,
                            K::Life(_) => p = false,
                            _ => {}
                        }
                    }
                }
                !p
            }
        })
    })
}

// ------------------------------------------------------------------ the properties

fn c01(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 4, timers: 2, cancels: 1, tasks: 2, ctl: 2, gates: 2, ..PLAIN },
        channels: 4,
        life_tmpl: 2,
        ext: [6, 3, 8, 2, 3, 1, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let g = st.w.lock();
    let mut hits = 0;
    for x in &g.sent {
        if x.from != HARNESS && (x.to == Some(x.from) || x.port_peers.contains(&x.from)) {
            hits += 1;
        }
    }
    s.nontrivial_if(hits >= 2 && g.log.len() > 20);
    o_once(&g, st.n, true)?;
    drop(g);
    st.sim.ok()
}

fn c02(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 4, timers: 3, cancels: 2, tasks: 1, ctl: 2, gates: 1, blocks: s.below(2), ..PLAIN },
        channels: 4,
        life_tmpl: 2,
        ext: [6, 3, 6, 3, 3, 1, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let now = st.w.now();
    let g = st.w.lock();
    s.nontrivial_if(passive_arrivals(&g, st.n) && g.log.len() > 10);
    o_once(&g, st.n, true)?;
    o_timers(&g, st.n, true, now)?;
    o_tasks(&g, st.n, true)
}

fn c03(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ctl: 1, blocks: s.below(2), gates: 1, ..PLAIN },
        life_tmpl: 1,
        ext: [8, 0, 6, 0, 2, 1, 0],
        budget: 200,
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let g = st.w.lock();
    s.nontrivial_if(g.sent.len() >= 6 && passive_arrivals(&g, st.n));
    o_once(&g, st.n, true)?;
    o_fifo(&g)
}

fn c04(s: &mut Src) -> CaseResult {
    // now and then many components, most of them connected to the same ports
    let wide = s.chance(1, 25);
    let p = Plan {
        f: Feat { sends: 1, ports: 10, ctl: 1, ..PLAIN },
        channels: if wide { 60 } else { 8 },
        nodes: if wide { (6, 20) } else { (1, 5) },
        life_tmpl: 1,
        ext: [5, 4, 6, 0, 1, 0, 3],
        budget: if wide { 500 } else { 200 },
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let g = st.w.lock();
    s.nontrivial_if(g.sent.iter().any(|x| x.port_peers.len() >= 2));
    o_once(&g, st.n, true)?;
    o_fifo(&g)
}

fn c05(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 2, timers: 2, cancels: 1, tasks: 1, ctl: 4, kill: s.flag(), blocks: s.below(2), gates: 1, ..PLAIN },
        channels: 3,
        life_tmpl: 3,
        kill_tmpl: true,
        ext: [6, 2, 5, 2, 6, 1, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let now = st.w.now();
    let g = st.w.lock();
    s.nontrivial_if(passive_arrivals(&g, st.n) && g.ctl.iter().any(|c| c.len() >= 4));
    o_life(&g, st.n, true)?;
    o_once(&g, st.n, true)?;
    o_fifo(&g)?;
    o_timers(&g, st.n, true, now)
}

fn c06(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ctl: 2, kill: true, blocks: s.below(3), gates: 2, faults: s.below(2), ..PLAIN },
        life_tmpl: 3,
        kill_tmpl: s.flag(),
        ext: [3, 0, 5, 0, 2, 2, 0],
        steps: 15,
        ..BASE
    };
    let st = p.setup(s)?;
    // (component, kind, log position, future)
    let mut futs: Vec<(usize, Life, usize, Option<KFuture<()>>)> = vec![];
    let k = s.range(2, 25);
    for _ in 0..k {
        if s.flag() {
            let to = s.idx(st.n);
            let what = match s.below(5) {
                0 => Life::Kill,
                1 | 2 => Life::Stop,
                _ => Life::Start,
            };
            s.note(|| format!("harness: {:?} {} with notification", what, to));
            let at = st.w.lock().log.len();
            futs.push((to, what, at, Some(st.w.ctl_notify(to, what))));
        } else {
            p.step(s, &st);
        }
        c06_check(&st, &mut futs, false)?;
    }
    st.sim.run(s)?;
    c06_check(&st, &mut futs, true)?;
    for g in 0..p.f.gates {
        st.w.open(g);
        st.sim.run(s)?;
        c06_check(&st, &mut futs, true)?;
    }
    let n = futs.len();
    c06_check(&st, &mut futs, true)?;
    s.nontrivial_if(n >= 3);
    st.problem()
}

fn c06_check(st: &Setup, futs: &mut [(usize, Life, usize, Option<KFuture<()>>)], quiet: bool) -> CaseResult {
    let g = st.w.lock();
    for (c, what, at, f) in futs.iter_mut() {
        // has a matching callback finished since the request?
        let mut running: Option<Life> = None;
        let mut finished = false;
        let mut failed = false;
        let mut killed_self = false;
        let ev: Vec<&Ev> = g.log.iter().enumerate().filter(|(_, e)| e.comp == *c).map(|(_, e)| e).collect();
        let pos: Vec<usize> = g.log.iter().enumerate().filter(|(_, e)| e.comp == *c).map(|(i, _)| i).collect();
        for (k, (e, i)) in ev.iter().zip(&pos).enumerate() {
            match e.k {
                K::Life(l) => {
                    running = Some(l);
                    if l == Life::Kill {
                        killed_self = true;
                    }
                }
                K::Out(o) => {
                    if matches!(ev.get(k + 1).map(|e| e.k), Some(K::Blocked(_))) {
                        continue; // not done yet
                    }
                    let mine = running == Some(*what) && *i >= *at;
                    match o {
                        O::Ok | O::Benign => finished |= mine,
                        O::Shutdown => finished |= mine && *what == Life::Kill,
                        O::Block => (),
                        O::Recoverable | O::Panic => failed = true,
                        O::Unrecoverable => {
                            failed = true;
                            killed_self = true;
                        }
                    }
                    running = None;
                }
                K::Handle(_) | K::Task => running = None,
                _ => {}
            }
        }
        if let Some(fut) = f {
            match poll_once(fut) {
                Some(Ok(())) => {
                    check!(finished || (killed_self && *what == Life::Kill) , "notified-early", "the {:?} notification of {} completed although no such callback has finished since it was requested", what, c);
                    *f = None;
                }
                Some(Err(_)) => {
                    // a notification may only be dropped when it can never be fulfilled
                    check!(failed || killed_self, "notification-dropped", "the {:?} notification of {} was dropped although the component is neither failed nor destroyed", what, c);
                    check!(!finished, "notification-dropped", "the {:?} notification of {} was dropped although the callback has finished", what, c);
                    *f = None;
                }
                None => {
                    if quiet && finished && !failed {
                        return fail("notification-lost", format!("the {:?} notification of {} never completed although the callback has finished", what, c));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c07(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 2, timers: 1, tasks: 1, ctl: 1, recovery: 2, faults: 2, blocks: s.below(2), gates: 1, ..PLAIN },
        channels: 3,
        life_tmpl: 2,
        nodes: (2, 4),
        ext: [6, 2, 5, 1, 1, 1, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    check!(!st.sim.sched.poisoned(), "system-poisoned", "a component's fault poisoned the system");
    let g = st.w.lock();
    let mut any = false;
    for c in 0..st.n {
        let mut current: Option<u64> = None;
        let mut fault: Option<O> = None;
        let mut recov: Vec<(K, u64)> = vec![];
        for e in g.log.iter().filter(|e| e.comp == c) {
            match e.k {
                K::Out(o @ (O::Recoverable | O::Unrecoverable | O::Panic)) if fault.is_none() => {
                    fault = Some(o);
                    any = true;
                    // the recovery function registered last, before the fault
                    current = g.recoveries.iter().filter(|r| r.0 == c).next_back().map(|r| r.1);
                }
                K::Recovery | K::RecoveryAction => recov.push((e.k, e.inst)),
                _ => {}
            }
        }
        let u = st.w.node(c);
        let u = uni_of(&u);
        match fault {
            None => {
                check!(recov.is_empty(), "recovery-without-fault", "component {} was recovered without a fault: {:?}", c, recov);
                check!(!u.is_faulty(), "faulty-without-fault", "component {} is marked faulty without a fault", c);
            }
            Some(O::Unrecoverable) => {
                check!(recov.is_empty(), "recovery-of-unrecoverable", "component {} failed unrecoverably but recovery ran: {:?}", c, recov);
                check!(u.is_destroyed(), "not-destroyed", "component {} failed unrecoverably but is not destroyed", c);
            }
            Some(_) => {
                let want: Vec<(K, u64)> = match current {
                    Some(t) => vec![(K::Recovery, t), (K::RecoveryAction, t)],
                    None => vec![],
                };
                check_eq!(recov, want, "recovery", "recovery of component {}", c);
                check!(u.is_faulty(), "not-faulty", "component {} failed but is not marked faulty", c);
            }
        }
    }
    s.nontrivial_if(any && g.sent.len() >= 4);
    o_life(&g, st.n, true)?;
    o_once(&g, st.n, true)
}

fn c08(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 2, timers: 1, tasks: 1, ctl: 1, blocks: 6, nested: true, gates: 3, ..PLAIN },
        channels: 3,
        life_tmpl: 2,
        ext: [6, 2, 6, 1, 1, 3, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let g = st.w.lock();
    s.nontrivial_if(g.log.iter().filter(|e| e.k == K::Out(O::Block)).count() >= 1 && g.sent.len() >= 5);
    o_block(&g, st.n, true)?;
    o_once(&g, st.n, true)?;
    o_fifo(&g)
}

fn c09(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { ports: 1, timers: 1, tasks: 6, ctl: 1, blocks: s.below(2), gates: 3, ..PLAIN },
        channels: 2,
        life_tmpl: 2,
        ext: [6, 1, 6, 1, 1, 4, 0],
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let g = st.w.lock();
    s.nontrivial_if(g.tasks_spawned.iter().any(|t| t.2.len() >= 2));
    o_tasks(&g, st.n, true)?;
    o_once(&g, st.n, true)?;
    drop(g);
    st.problem()
}

fn c10(s: &mut Src) -> CaseResult {
    let p = Plan {
        f: Feat { sends: 2, timers: 10, cancels: 4, ctl: 1, ..PLAIN },
        nodes: (1, 3),
        life_tmpl: 2,
        ext: [4, 0, 5, 6, 1, 0, 0],
        max_advance: *s.pick(&[5u64, 20, 300]),
        ..BASE
    };
    let st = p.drive(s)?;
    settle(s, &st)?;
    let now = st.w.now();
    let g = st.w.lock();
    let fired = g.log.iter().filter(|e| e.k == K::Handle(Q::Timer)).count();
    s.nontrivial_if(fired >= 3 && g.timers.iter().any(|t| t.cancelled.is_some()));
    o_timers(&g, st.n, true, now)?;
    o_once(&g, st.n, true)?;
    o_throughput(&g, st.n, &st.sim.sys)
}

/// Has the component not finished starting at this point of the log?
fn fresh(g: &Inner, c: usize, at: usize) -> bool {
    let mut starting = false;
    for (i, e) in g.log[..at].iter().enumerate().filter(|(_, e)| e.comp == c) {
        match e.k {
            K::Life(l) => starting = l == Life::Start,
            K::Out(O::Ok) if starting && i < at => {
                let next = g.log[i + 1..].iter().find(|e| e.comp == c);
                if !matches!(next.map(|e| e.k), Some(K::Blocked(_))) {
                    return false;
                }
            }
            _ => (),
        }
    }
    true
}

fn c12(s: &mut Src) -> CaseResult {
    let blocks = s.below(3);
    let p = Plan {
        f: Feat { ports: 2, timers: 2, tasks: 2, ctl: 2, kill: s.flag(), recovery: 1, faults: s.below(2), blocks, nested: false, gates: 2, ..PLAIN },
        channels: 3,
        life_tmpl: 2,
        nodes: (1, 5),
        ext: [6, 2, 5, 1, 3, 1, 0],
        budget: 80,
        steps: 20,
        ..BASE
    };
    let st = p.drive(s)?;
    if s.chance(1, 4) {
        settle(s, &st)?;
    }
    let w = st.w.clone();
    let quiet_before = st.sim.sched.ready() == 0;
    let phases: Vec<Phase> = {
        let g = w.lock();
        (0..st.n).map(|c| phase(&g, c)).collect()
    };
    s.nontrivial_if(phases.contains(&Phase::Active) && (!quiet_before || phases.iter().any(|p| *p != Phase::Active)));
    s.note(|| "harness: shutdown".to_string());
    let at = w.lock().log.len();
    let sys = st.sim.sys.clone();
    let mut f = Box::pin(sys.shutdown());
    let mut done = false;
    // the rest of the history goes on while the system shuts down
    let k = s.range(0, 8);
    for _ in 0..k {
        if let Some(r) = poll_once(&mut f) {
            check!(r.is_ok(), "shutdown-error", "shutdown failed: {:?}", r.err().map(|e| e.to_string()));
            done = true;
            break;
        }
        match s.weighted(&[2, 6, 1]) {
            0 => {
                let (to, t) = (s.idx(st.n), s.idx(w.lock().tmpl.len()));
                w.send(HARNESS, to, Ref::Weak, t, None);
            }
            1 => st.sim.some(s, 6),
            _ => {
                let g = s.idx(p.f.gates);
                w.open(g);
            }
        }
    }
    for g in 0..p.f.gates {
        w.open(g);
    }
    for _ in 0..20 {
        if done {
            break;
        }
        if let Some(r) = poll_once(&mut f) {
            check!(r.is_ok(), "shutdown-error", "shutdown failed: {:?}", r.err().map(|e| e.to_string()));
            done = true;
            break;
        }
        if !st.sim.sched.drain(s, LIMIT) {
            return fail("shutdown-no-quiescence", "system still busy during shutdown");
        }
    }
    check!(done, "shutdown-hang", "shutdown did not complete although nothing is left to run and every gate is open");
    drop(f);
    let len = {
        let g = w.lock();
        o_phases(&g, st.n)?;
        // the last time a component the shutdown has to wait for finished its kill handler: whatever
        // was started before that was started before the shutdown could complete
        let mut limit = at;
        for c in 0..st.n {
            if phases[c] != Phase::Active || fresh(&g, c, at) {
                continue;
            }
            let mut killing = false;
            for (i, e) in g.log.iter().enumerate().skip(at).filter(|(_, e)| e.comp == c) {
                match e.k {
                    K::Life(l) => killing = l == Life::Kill,
                    K::Out(O::Ok) if killing && i > limit => limit = i,
                    _ => (),
                }
            }
        }
        for c in 0..st.n {
            // had a start callback of this component completed by then?
            let ev: Vec<&Ev> = g.log.iter().filter(|e| e.comp == c).collect();
            let before = g.log[..limit].iter().filter(|e| e.comp == c).count();
            let mut started = false;
            let mut ended = false;
            let mut kills = 0;
            let mut in_start = false;
            for (i, e) in ev.iter().enumerate() {
                match e.k {
                    K::Life(Life::Start) => in_start = true,
                    K::Life(Life::Kill) => {
                        kills += 1;
                        ended = true;
                    }
                    K::Out(o) => {
                        let more = matches!(ev.get(i + 1).map(|e| e.k), Some(K::Blocked(_)));
                        match o {
                            O::Recoverable | O::Unrecoverable | O::Panic => ended = true,
                            O::Ok | O::Benign if in_start && !more && i < before => {
                                started = true;
                                in_start = false;
                            }
                            _ => (),
                        }
                    }
                    _ => (),
                }
            }
            check!(kills <= 1, "killed-twice", "component {} ran its kill handler {} times", c, kills);
            check!(!started || ended, "not-killed", "component {} was started and is neither failed nor destroyed, but its kill handler did not run before the shutdown completed", c);
        }
        g.log.len()
    };
    // terminated
    let mut t = Box::pin(st.sim.sys.terminated());
    check!(poll_once(&mut t).is_some(), "not-terminated", "the system was shut down but waiting for its termination does not return");
    // whatever happens now, nothing may run any more
    let n = w.nodes.lock().unwrap().len();
    let last = w.lock().tmpl.len() - 1;
    let r = no_panic(|| {
        for c in 0..n {
            if phases[c] != Phase::Faulty {
                for r in [Ref::Weak, Ref::Strong, Ref::Recipient, Ref::RecipientWith] {
                    w.send(HARNESS, c, r, last, None);
                }
            }
        }
        st.sim.timer.advance_by(Duration::from_millis(1000));
    });
    if let Err((m, _)) = r {
        return fail("send-after-shutdown", format!("sending to a component of a system that was shut down panicked: {}", m));
    }
    for c in 0..n {
        let x = w.node(c).comp.clone();
        let dead = phase(&w.lock(), c) == Phase::Dead;
        // components that were killed or failed do not run even if some executor were to try
        if dead {
            x.execute();
        }
    }
    check_eq!(w.lock().log.len(), len, "ran-after-shutdown", "callbacks run before and after the end of the shutdown");
    st.problem()
}

fn c14(s: &mut Src) -> CaseResult {
    let t = *s.pick(&[1usize, 2, 3, 4, 5, 7, 10, 20, 50]);
    let prio = *s.pick(&[0.5f32, 0.01, 0.1, 0.25, 0.33, 0.66, 0.75, 0.9, 0.99]);
    s.note(|| format!("throughput={} priority={}", t, prio));
    let sim = Sim::new(t, prio)?;
    let end1 = match s.weighted(&[4, 1, 1]) {
        0 => End::Ok,
        1 => End::Benign,
        _ => End::Block { gate: None, t: None, nested: None },
    };
    let benign = end1 == End::Benign;
    let blocks = !benign && end1 != End::Ok;
    s.note(|| format!("template 1 ends with {:?}", end1));
    if blocks {
        sim.sched.0.lock().unwrap().waive_double = true;
    }
    let resend = s.chance(1, 4);
    // template 0: plain, 1: benign error, 2: sends to itself
    let mut tmpl = vec![];
    tmpl.push(Tmpl { acts: if resend { vec![Act::Send { to: 0, r: Ref::Weak, t: 2 }] } else { vec![] }, end: End::Ok });
    tmpl.push(Tmpl { acts: vec![], end: end1 });
    tmpl.push(Tmpl { acts: vec![], end: End::Ok });
    let st = Setup::with(s, sim, 1, tmpl, 0, 600)?;
    let w = st.w.clone();
    let waves = s.range(1, 4);
    let start_at = s.idx(waves);
    for wave in 0..waves {
        for q in 0..5 {
            let k = match s.below(4) {
                0 => 0,
                1 => s.range(1, 3),
                2 => s.range(t, 2 * t).min(60),
                _ => s.range(10, 60),
            };
            let tm = s.idx(3);
            if k > 0 {
                s.note(|| format!("{} {} (template {})", k, ["messages", "requests on port 0", "requests on port 1", "indications on port 0", "indications on port 1"][q], tm));
            }
            for _ in 0..k {
                match q {
                    0 => w.send(HARNESS, 0, Ref::Weak, tm, None),
                    1 => trigger_into(&w, 0, 0, false, tm),
                    2 => trigger_into(&w, 0, 1, false, tm),
                    3 => trigger_into(&w, 0, 0, true, tm),
                    _ => trigger_into(&w, 0, 1, true, tm),
                }
            }
        }
        if wave == start_at {
            st.start_all();
        }
        if wave >= start_at {
            let k = s.range(0, 10);
            for _ in 0..k {
                if st.sim.sched.ready() > 0 {
                    let n = st.sim.sched.ready();
                    let i = if n == 1 { 0 } else { s.idx(n) };
                    st.sim.sched.step(i);
                }
            }
        }
    }
    st.sim.run(s)?;
    let g = w.lock();
    o_once(&g, 1, true)?;
    o_fifo(&g)?;
    // walk through the executions
    const QS: [Q; 5] = [Q::Msg, Q::Req(0), Q::Req(1), Q::Ind(0), Q::Ind(1)];
    let qi = |q: Q| QS.iter().position(|x| *x == q).unwrap();
    let mut pending = [0usize; 5];
    let mut next = 0;
    let mut i = 0;
    let log: Vec<&Ev> = g.log.iter().collect();
    let mut waiting = [[0usize; 5]; 5];
    let mut busy2 = false;
    while i < log.len() {
        let exec = log[i].exec;
        let mut j = i;
        while j < log.len() && log[j].exec == exec {
            j += 1;
        }
        // (log entries of the harness carry the number of the execution before)
        let life = log[i..j].iter().any(|e| matches!(e.k, K::Life(_)));
        while next < g.sent.len() && g.sent[next].at <= i {
            pending[qi(g.sent[next].q)] += 1;
            next += 1;
        }
        let before = pending;
        let ports_before: usize = before[1..].iter().sum();
        let (mut m, mut p) = (0, 0);
        for k in i..j {
            while next < g.sent.len() && g.sent[next].at <= k {
                pending[qi(g.sent[next].q)] += 1;
                next += 1;
            }
            let K::Handle(q) = log[k].k else { continue };
            let x = qi(q);
            if x == 0 { m += 1 } else { p += 1 }
            pending[x] = pending[x].saturating_sub(1);
            if x > 0 {
                for o in 1..5 {
                    if o == x || pending[o] == 0 {
                        waiting[o] = if o == x { [0; 5] } else { waiting[o] };
                        if pending[o] == 0 {
                            waiting[o] = [0; 5];
                        }
                        continue;
                    }
                    busy2 = true;
                    waiting[o][x] += 1;
                    check!(waiting[o][x] <= 4 + 2 * t, "port-starved", "{:?} was served {} times while events were waiting at {:?} (throughput {}, priority {})", QS[x], waiting[o][x], QS[o], t, prio);
                }
            }
        }
        check!(m + p <= t, "throughput", "{} messages and {} events handled in one execution with throughput {}", m, p, t);
        if before[0] >= t && ports_before >= t && !life && !blocks {
            s.nontrivial();
            if t >= 2 {
                check!(m >= 1, "messages-starved", "no message was handled although {} were pending (throughput {}, priority {}, {} events handled)", before[0], t, prio, p);
                check!(p >= 1, "events-starved", "no event was handled although {} were pending (throughput {}, priority {}, {} messages handled)", ports_before, t, prio, m);
                if !benign {
                    let want = t as f64 * prio as f64;
                    let d = (m as f64 - want).abs();
                    check!(d < 1.0 + 1e-6 || (want < 1.0 && m == 1) || (want > t as f64 - 1.0 && m == t - 1), "split", "{} messages and {} events were handled in one execution with throughput {} and priority {}", m, p, t, prio);
                    check!(m + p == t, "split", "only {} messages and {} events were handled in one execution with throughput {} although more were pending", m, p, t);
                }
            } else {
                check!(m + p == 1, "no-progress", "nothing was handled in an execution although work was pending");
            }
        }
        i = j;
    }
    s.nontrivial_if(busy2);
    Ok(())
}
