//! D04–D07: the actor store, routing groups, registration, and clean-up of the registration table.
use crate::pbt::*;
use crate::sim::*;
use crate::{check, check_eq};
use arc_swap::ArcSwap;
use kompact::default_components::LocalDispatcher;
use kompact::KompactLogger;
use kompact::lookup::gc::{ActorRefReaper, FeedbackAlgorithm, UpdateStrategy};
use kompact::lookup::{ActorLookup, ActorStore, InsertResult, LookupResult};
use kompact::messaging::{PathResolvable, RegistrationError, RegistrationResult};
use kompact::prelude::*;
use kompact::routing::groups::{BroadcastRouting, FieldHashBucketRouting, RoundRobinRouting, RoutingPolicy, SenderDefaultHashBucketRouting, StorePolicy};
use kompact_net::NetworkConfig;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use uuid::Uuid;

pub static PROPS: [&Prop; 4] = [
    &Prop::new("D04", "entries existed under a path and below it, and an entry was removed or replaced", 200_000, 20_000_000, d04),
    &Prop::new("D05", "messages were routed to a group of at least two members, and its membership changed or it was empty", 200_000, 10_000_000, d05).segment(30_000),
    &Prop::new("D06", "a registration was refused or replaced an earlier one, and messages were sent to the path", 200_000, 10_000_000, d06).segment(30_000),
    &Prop::new("D07", "dead and live actors were registered, one of them more than once", 200_000, 20_000_000, d07),
];

fn segs(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

/// A path over a small alphabet, so that paths collide and nest.
fn path(s: &mut Src, max: usize) -> Vec<String> {
    let n = s.range(1, max);
    (0..n).map(|_| s.pick(&["a", "b", "c", "ab"]).to_string()).collect()
}

/// A path that must not be registered.
fn bad_path(s: &mut Src) -> Vec<String> {
    let mut p = path(s, 3);
    let i = s.idx(p.len());
    p[i] = s.pick(&["*", "?", "", "a*", "?b", "a#b", "#"]).to_string();
    p
}

fn valid_insert(p: &[String]) -> bool {
    p.iter().all(|x| !x.is_empty() && !x.contains(['*', '?', '#', '/']))
}

// ------------------------------------------------------------------ D04: the store

/// A policy that records the members it was asked to route to.
struct Spy {
    id: u64,
    broadcast: bool,
    select: bool,
    seen: Arc<Mutex<Vec<(u64, Vec<DynActorRef>)>>>,
}
impl std::fmt::Debug for Spy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<spy{}>", self.id)
    }
}
impl RoutingPolicy<DynActorRef, NetMessage> for Spy {
    fn route(&self, members: &[&DynActorRef], _msg: NetMessage, _logger: &KompactLogger) {
        self.seen.lock().unwrap().push((self.id, members.iter().map(|m| (*m).clone()).collect()));
    }
    fn boxed_clone(&self) -> Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync> {
        Box::new(Spy { id: self.id, broadcast: self.broadcast, select: self.select, seen: self.seen.clone() })
    }
    fn broadcast(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        if self.broadcast { Some(self) } else { None }
    }
    fn select(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        if self.select { Some(self) } else { None }
    }
}

#[derive(ComponentDefinition)]
struct Dummy {
    ctx: ComponentContext<Dummy>,
}
ignore_lifecycle!(Dummy);
impl Actor for Dummy {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

thread_local!(static DUMMIES: &'static Sim = Box::leak(Box::new(Sim::new(50, 0.5).unwrap_or_else(|_| panic!("no system")))));

struct Act {
    comp: Option<Arc<Component<Dummy>>>,
    r: DynActorRef,
    id: Uuid,
}

fn actors(n: usize) -> Vec<Act> {
    let sim = DUMMIES.with(|d| *d);
    (0..n)
        .map(|_| {
            let c = sim.sys.create(|| Dummy { ctx: ComponentContext::uninitialised() });
            Act { r: c.actor_ref().dyn_ref(), id: c.id(), comp: Some(c) }
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum E {
    Ref(usize),
    Pol(u64, bool, bool),
}

#[derive(Clone, Default)]
struct Model {
    names: BTreeMap<Vec<String>, E>,
    ids: HashMap<Uuid, usize>,
    dead: Option<usize>,
}
impl Model {
    /// members registered at or below the path
    fn below(&self, p: &[String]) -> Vec<usize> {
        let mut v: Vec<usize> = self
            .names
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .filter_map(|(_, e)| if let E::Ref(k) = e { Some(*k) } else { None })
            .collect();
        v.sort();
        v
    }
    fn remove(&mut self, f: impl Fn(usize) -> bool) -> usize {
        let before = self.names.len() + self.ids.len();
        self.names.retain(|_, e| !matches!(e, E::Ref(k) if f(*k)));
        self.ids.retain(|_, k| !f(*k));
        before - self.names.len() - self.ids.len()
    }
}

#[derive(Debug, PartialEq)]
enum Res {
    Ref(usize),
    Group(u64, Vec<usize>),
    None,
    Err,
}

struct Store<'a> {
    acts: &'a [Act],
    seen: Arc<Mutex<Vec<(u64, Vec<DynActorRef>)>>>,
    sys: SystemPath,
}

impl Store<'_> {
    /// which actor is this? (dead ones can not be told apart)
    fn who(&self, r: &DynActorRef) -> Option<usize> {
        self.acts.iter().position(|a| a.comp.is_some() && a.r == *r)
    }
    fn same(&self, r: &DynActorRef, k: usize) -> bool {
        match self.who(r) {
            Some(x) => self.acts[x].id == self.acts[k].id,
            None => self.acts[k].comp.is_none() && !r.can_upgrade_component(),
        }
    }
    fn expect(&self, m: &Model, p: &[String]) -> Res {
        let Some(last) = p.last() else {
            return m.dead.map(Res::Ref).unwrap_or(Res::None);
        };
        let marker = last == "*" || last == "?";
        let base = if marker { &p[..p.len() - 1] } else { p };
        match m.names.get(base) {
            None => Res::None,
            Some(E::Ref(_)) if marker => Res::Err,
            Some(E::Ref(k)) => Res::Ref(*k),
            Some(E::Pol(id, b, s)) => {
                if (last == "*" && !b) || (last == "?" && !s) {
                    Res::Err
                } else {
                    Res::Group(*id, m.below(base))
                }
            }
        }
    }
    fn compare(&self, got: LookupResult<'_>, exp: &Res, what: &str) -> CaseResult {
        match (got, exp) {
            (LookupResult::Ref(r), Res::Ref(k)) if self.same(r, *k) => Ok(()),
            (LookupResult::None, Res::None) | (LookupResult::Err(_), Res::Err) => Ok(()),
            (LookupResult::Group(g), Res::Group(id, ms)) => {
                self.seen.lock().unwrap().clear();
                let p = ActorPath::Named(NamedPath::with_system(self.sys.clone(), vec![]));
                g.route(NetMessage::with_box(<u64 as Deserialiser<u64>>::SER_ID, p.clone(), p, Box::new(1u64)), &quiet_logger());
                let seen = std::mem::take(&mut *self.seen.lock().unwrap());
                check_eq!(seen.len(), 1, "group-routing", "{}: policies asked to route one message", what);
                let (gid, got) = &seen[0];
                check_eq!(gid, id, "wrong-policy", "{}: policy of the group", what);
                let mut live: Vec<usize> = got.iter().filter_map(|r| self.who(r)).collect();
                live.sort();
                let explive: Vec<usize> = ms.iter().copied().filter(|k| self.acts[*k].comp.is_some()).collect();
                check_eq!(live, explive, "wrong-members", "{}: live members of the group", what);
                check_eq!(got.len(), ms.len(), "wrong-members", "{}: number of members of the group", what);
                Ok(())
            }
            (LookupResult::Ref(r), e) => fail("wrong-lookup", format!("{}: found actor {:?}, expected {:?}", what, self.who(r), e)),
            (g, e) => fail("wrong-lookup", format!("{}: got {:?}, expected {:?}", what, g, e)),
        }
    }
    fn inserted(&self, got: InsertResult, exp: Option<E>, what: &str) -> CaseResult {
        let empty = got.is_empty();
        let ok = match (&got, exp) {
            (InsertResult::None, None) => true,
            (InsertResult::Ref(r), Some(E::Ref(k))) => self.same(r, k),
            (InsertResult::Policy(p), Some(E::Pol(id, ..))) => format!("{:?}", p).contains(&format!("<spy{}>", id)),
            _ => false,
        };
        check!(ok, "wrong-previous", "{} returned {:?} as the previous entry, expected {:?}", what, got, exp);
        check_eq!(empty, exp.is_none(), "wrong-previous", "{}: is_empty of the previous entry", what);
        Ok(())
    }
    fn audit(&self, st: &ActorStore, m: &Model, probes: &[Vec<String>], ids: &[Uuid], what: &str) -> CaseResult {
        for p in probes {
            let e = self.expect(m, p);
            self.compare(st.get_by_named_path(p), &e, &format!("{}: get_by_named_path({:?})", what, p))?;
            let ap = ActorPath::Named(NamedPath::with_system(self.sys.clone(), p.clone()));
            self.compare(st.get_by_actor_path(&ap), &e, &format!("{}: get_by_actor_path({})", what, ap))?;
            if !p.is_empty() {
                let c = m.names.contains_key(p);
                check_eq!(st.contains(&PathResolvable::Path(ap)), c, "contains", "{}: contains path {:?}", what, p);
                check_eq!(st.contains(&PathResolvable::Segments(p.clone())), c, "contains", "{}: contains segments {:?}", what, p);
                check_eq!(st.contains(&PathResolvable::Alias(p.join("/"))), c, "contains", "{}: contains alias {:?}", what, p);
            }
        }
        for u in ids {
            let e = m.ids.get(u);
            match (st.get_by_uuid(u), e) {
                (None, None) => {}
                (Some(r), Some(k)) if self.same(r, *k) => {}
                (g, e) => return fail("wrong-lookup", format!("{}: get_by_uuid({}): {:?}, expected {:?}", what, u, g.map(|r| self.who(r)), e)),
            }
            let ap = ActorPath::Unique(UniquePath::with_system(self.sys.clone(), *u));
            let exp = e.map(|k| Res::Ref(*k)).unwrap_or(Res::None);
            self.compare(st.get_by_actor_path(&ap), &exp, &format!("{}: get_by_actor_path({})", what, ap))?;
            check_eq!(st.contains(&PathResolvable::ActorId(*u)), e.is_some(), "contains", "{}: contains id", what);
            check_eq!(st.contains(&PathResolvable::Path(ap)), e.is_some(), "contains", "{}: contains unique path", what);
        }
        check_eq!(st.contains(&PathResolvable::System), m.dead.is_some(), "contains", "{}: contains system", what);
        Ok(())
    }
}

fn d04(s: &mut Src) -> CaseResult {
    let n = s.range(1, 5);
    let mut acts = actors(n);
    let sys = SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0);
    let seen: Arc<Mutex<Vec<(u64, Vec<DynActorRef>)>>> = Default::default();
    let mut ids: Vec<Uuid> = acts.iter().map(|a| a.id).collect();
    ids.push(Uuid::from_u128(7));
    let mut st = ActorStore::new();
    let mut m = Model::default();
    let mut shots: Vec<(ActorStore, Model)> = vec![];
    let mut pols = 0;
    let steps = s.range(1, 20);
    let (mut nested, mut gone) = (false, false);
    for step in 0..steps {
        let op = s.weighted(&[8, 3, 3, 2, 2, 2, 2, 2, 1, 1]);
        let what;
        match op {
            0 => {
                let k = s.idx(n);
                let bad = s.chance(1, 8);
                let p = if bad { bad_path(s) } else { path(s, 4) };
                // a named path can only be made of something that may be looked up
                let last = p.len() - 1;
                let may = valid_insert(&p[..last]) && (valid_insert(&p[last..]) || p[last] == "*" || p[last] == "?");
                let (pr, text) = match s.below(if may { 3 } else { 2 }) {
                    0 => (PathResolvable::Segments(p.clone()), "segments"),
                    1 => (PathResolvable::Alias(p.join("/")), "alias"),
                    _ => (PathResolvable::Path(ActorPath::Named(NamedPath::with_system(sys.clone(), p.clone()))), "path"),
                };
                what = format!("step {}: insert({} {:?}, actor {})", step, text, p, k);
                s.note(|| what.clone());
                let x = Store { acts: &acts, seen: seen.clone(), sys: sys.clone() };
                match st.insert(pr, acts[k].r.clone()) {
                    Ok(prev) => {
                        check!(valid_insert(&p), "invalid-accepted", "{} was accepted", what);
                        let old = m.names.insert(p, E::Ref(k));
                        gone |= old.is_some();
                        x.inserted(prev, old, &what)?;
                    }
                    Err(e) => check!(!valid_insert(&p), "valid-refused", "{} was refused: {}", what, e),
                }
            }
            1 => {
                let k = s.idx(n);
                let u = *s.pick(&ids);
                let pr = if s.flag() { PathResolvable::ActorId(u) } else { PathResolvable::Path(ActorPath::Unique(UniquePath::with_system(sys.clone(), u))) };
                what = format!("step {}: insert(id {}, actor {})", step, u, k);
                s.note(|| what.clone());
                let prev = st.insert(pr, acts[k].r.clone()).map_err(|e| Failure::new("valid-refused", format!("{}: {}", what, e)))?;
                let x = Store { acts: &acts, seen: seen.clone(), sys: sys.clone() };
                x.inserted(prev, m.ids.insert(u, k).map(E::Ref), &what)?;
            }
            2 => {
                let bad = s.chance(1, 8);
                let p = if bad { bad_path(s) } else { path(s, 3) };
                pols += 1;
                let spy = Spy { id: pols, broadcast: s.flag(), select: s.flag(), seen: seen.clone() };
                let e = E::Pol(pols, spy.broadcast, spy.select);
                what = format!("step {}: set_routing_policy({:?}, {:?})", step, p, e);
                s.note(|| what.clone());
                let x = Store { acts: &acts, seen: seen.clone(), sys: sys.clone() };
                match st.set_routing_policy(&p, StorePolicy::new(Box::new(spy))) {
                    Ok(prev) => {
                        check!(valid_insert(&p), "invalid-accepted", "{} was accepted", what);
                        let old = m.names.insert(p, e);
                        gone |= old.is_some();
                        x.inserted(prev, old, &what)?;
                    }
                    Err(e) => check!(!valid_insert(&p), "valid-refused", "{} was refused: {}", what, e),
                }
            }
            3 => {
                // any path or one that is there
                let have: Vec<Vec<String>> = m.names.keys().cloned().collect();
                let p = if have.is_empty() || s.chance(1, 3) { path(s, 4) } else { s.pick(&have).clone() };
                what = format!("step {}: remove_by_named_path({:?})", step, p);
                s.note(|| what.clone());
                let exp = m.names.remove(&p).is_some();
                gone |= exp;
                check_eq!(st.remove_by_named_path(&p), exp, "remove-result", "{}", what);
            }
            4 => {
                let u = *s.pick(&ids);
                what = format!("step {}: remove_by_uuid({})", step, u);
                s.note(|| what.clone());
                check_eq!(st.remove_by_uuid(&u), m.ids.remove(&u).is_some(), "remove-result", "{}", what);
            }
            5 => {
                let k = s.idx(n);
                what = format!("step {}: remove(actor {})", step, k);
                s.note(|| what.clone());
                if acts[k].comp.is_some() {
                    let exp = m.remove(|x| x == k);
                    gone |= exp > 0;
                    check_eq!(st.remove(acts[k].r.clone()), exp, "remove-count", "{}", what);
                }
            }
            6 => {
                what = format!("step {}: cleanup", step);
                s.note(|| what.clone());
                let exp = m.remove(|x| acts[x].comp.is_none());
                gone |= exp > 0;
                check_eq!(st.cleanup(), exp, "cleanup-count", "{}", what);
            }
            7 => {
                let k = s.idx(n);
                what = format!("step {}: actor {} is deallocated", step, k);
                s.note(|| what.clone());
                acts[k].comp = None;
            }
            8 => {
                let k = s.idx(n);
                what = format!("step {}: insert(system, actor {})", step, k);
                s.note(|| what.clone());
                let prev = st.insert(PathResolvable::System, acts[k].r.clone()).map_err(|e| Failure::new("valid-refused", format!("{}: {}", what, e)))?;
                let x = Store { acts: &acts, seen: seen.clone(), sys: sys.clone() };
                x.inserted(prev, m.dead.replace(k).map(E::Ref), &what)?;
            }
            _ => {
                what = format!("step {}: snapshot", step);
                s.note(|| what.clone());
                let c = (st.clone(), m.clone());
                if s.flag() {
                    shots.push(c);
                } else {
                    // go on with the copy
                    shots.push((std::mem::replace(&mut st, c.0), c.1));
                }
            }
        }
        nested |= m.names.keys().any(|k| m.names.keys().any(|l| l.len() > k.len() && l.starts_with(k)));
        let x = Store { acts: &acts, seen: seen.clone(), sys: sys.clone() };
        let mut probes: Vec<Vec<String>> = m.names.keys().cloned().collect();
        probes.push(vec![]);
        probes.push(path(s, 4));
        for p in probes.clone() {
            if s.flag() {
                let mut q = p.clone();
                q.push(if s.flag() { "*".into() } else { "?".into() });
                probes.push(q);
            }
        }
        x.audit(&st, &m, &probes, &ids, &what)?;
    }
    let x = Store { acts: &acts, seen, sys };
    for (i, (st, m)) in shots.iter().enumerate() {
        let probes: Vec<Vec<String>> = m.names.keys().cloned().chain([segs(&["a"]), segs(&["a", "*"]), segs(&["b", "?"])]).collect();
        x.audit(st, m, &probes, &ids, &format!("snapshot {}", i))?;
    }
    s.nontrivial_if(nested && gone);
    Ok(())
}

// ------------------------------------------------------------------ D07: clean-up

fn d07(s: &mut Src) -> CaseResult {
    if s.chance(1, 3) {
        return intervals(s);
    }
    let n = s.range(1, 8);
    let mut acts = actors(n);
    let sys = SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0);
    let mut m = Model::default();
    let table = ArcSwap::from_pointee(ActorStore::new());
    let put = |pr: PathResolvable, r: &DynActorRef| {
        table.rcu(|c| {
            let mut x = ActorStore::clone(c);
            x.insert(pr.clone(), r.clone()).expect("insert");
            x
        });
    };
    let reaper = ActorRefReaper::default();
    let rounds = s.range(1, 3);
    let mut twice = false;
    let mut mixed = false;
    let threads = s.chance(1, 100);
    for round in 0..rounds {
        let k = s.range(1, 12);
        for _ in 0..k {
            let a = s.idx(n);
            twice |= m.ids.values().any(|x| *x == a) || m.names.values().any(|x| *x == E::Ref(a));
            match s.below(5) {
                0 => {
                    let u = if s.flag() { acts[a].id } else { Uuid::from_u128(s.below(4) as u128) };
                    s.note(|| format!("round {}: id {} -> actor {}", round, u, a));
                    put(PathResolvable::ActorId(u), &acts[a].r);
                    m.ids.insert(u, a);
                }
                1 => {
                    let p = path(s, 2);
                    s.note(|| format!("round {}: policy at {:?}", round, p));
                    table.rcu(|c| {
                        let mut x = ActorStore::clone(c);
                        x.set_routing_policy(&p, BroadcastRouting.into()).expect("policy");
                        x
                    });
                    m.names.insert(p, E::Pol(0, true, false));
                }
                _ => {
                    let p = path(s, 4);
                    s.note(|| format!("round {}: {:?} -> actor {}", round, p, a));
                    put(PathResolvable::Segments(p.clone()), &acts[a].r);
                    m.names.insert(p, E::Ref(a));
                }
            }
        }
        if s.chance(1, 3) {
            let a = s.idx(n);
            put(PathResolvable::System, &acts[a].r);
            m.dead = Some(a);
        }
        let old = table.load_full();
        let before = m.clone();
        for a in 0..n {
            if s.chance(1, 3) {
                s.note(|| format!("round {}: actor {} is deallocated", round, a));
                acts[a].comp = None;
            }
        }
        let expect = m.remove(|k| acts[k].comp.is_none());
        mixed |= expect > 0 && !(m.names.is_empty() && m.ids.is_empty());
        let removed = if threads {
            // registrations go on while the table is cleaned
            let extra: Vec<Vec<String>> = (0..s.range(1, 20)).map(|i| vec!["x".to_string(), round.to_string(), i.to_string()]).collect();
            let live = acts.iter().position(|a| a.comp.is_some());
            let runs = s.range(1, 3);
            std::thread::scope(|sc| {
                let h = sc.spawn(|| (0..runs).map(|_| reaper.run(&table)).sum::<usize>());
                if let Some(l) = live {
                    for p in &extra {
                        put(PathResolvable::Segments(p.clone()), &acts[l].r);
                    }
                }
                h.join().unwrap()
            }) + {
                if let Some(l) = live {
                    for p in &extra {
                        m.names.insert(p.clone(), E::Ref(l));
                    }
                }
                0
            }
        } else {
            reaper.run(&table)
        };
        check_eq!(removed, expect, "reaped-count", "round {}: entries reported as removed", round);
        let x = Store { acts: &acts, seen: Default::default(), sys: sys.clone() };
        let now = table.load_full();
        let mut all: Vec<Vec<String>> = before.names.keys().chain(m.names.keys()).cloned().collect();
        all.sort();
        all.dedup();
        let ids: Vec<Uuid> = before.ids.keys().copied().collect();
        for p in &all {
            let (e, g) = (m.names.contains_key(p), now.contains(&PathResolvable::Segments(p.clone())));
            check!(e == g, if e { "live-removed" } else { "dead-kept" }, "round {}: entry at {:?} ({:?}): present {}, expected {}", round, p, before.names.get(p), g, e);
            if let Some(E::Ref(k)) = m.names.get(p) {
                x.compare(now.get_by_named_path(p), &Res::Ref(*k), &format!("round {}: {:?} after clean-up", round, p))?;
            }
        }
        for u in &ids {
            let (e, g) = (m.ids.contains_key(u), now.contains(&PathResolvable::ActorId(*u)));
            check!(e == g, if e { "live-removed" } else { "dead-kept" }, "round {}: entry for id {}: present {}, expected {}", round, u, g, e);
        }
        check_eq!(now.contains(&PathResolvable::System), m.dead.is_some(), "system-removed", "round {}: dead letter entry", round);
        // whoever still looks at the old table is not disturbed
        for p in before.names.keys() {
            check!(old.contains(&PathResolvable::Segments(p.clone())), "old-table-changed", "round {}: {:?} vanished from the table loaded before", round, p);
        }
        check_eq!(reaper.run(&table), 0, "reaped-count", "round {}: entries removed by a second clean-up", round);
    }
    s.nontrivial_if(mixed && twice);
    Ok(())
}

fn intervals(s: &mut Src) -> CaseResult {
    let num = |s: &mut Src| -> u64 {
        match s.below(5) {
            0 => *s.pick(&[0u64, 1, 2, 20, 500, 5000]),
            1 => s.range(0, 10_000) as u64,
            2 => u64::MAX - s.below(3),
            3 => 1u64 << s.below(64),
            _ => s.bits(),
        }
    };
    let mut v = [num(s), num(s), num(s)];
    v.sort();
    let [min, init, max] = v;
    let incr = num(s).max(1);
    let decr = num(s).max(1);
    let mimd = s.flag();
    s.note(|| format!("initial={} min={} max={} incr={} decr={} {}", init, min, max, incr, decr, if mimd { "MIMD" } else { "AIMD" }));
    let algo = || if mimd { FeedbackAlgorithm::Mimd } else { FeedbackAlgorithm::Aimd };
    let mut own = UpdateStrategy::new(init, min, max, incr, decr, algo());
    let mut reaper = ActorRefReaper::new(init, min, max, incr, decr, algo());
    check!(!reaper.is_scheduled(), "scheduled", "a new reaper is scheduled");
    let in_reaper = s.flag();
    let k = s.range(1, 12);
    let mut cur = init as u128;
    let mut hit = false;
    for i in 0..k {
        let up = s.flag();
        let r = no_panic(|| {
            let u = if in_reaper { reaper.strategy_mut() } else { &mut own };
            if up { u.incr() } else { u.decr() }
        });
        let got = match r {
            Ok(x) => x,
            Err((m, l)) => return fail("interval-panic", format!("step {}: {} of {} panicked: {} at {}", i, if up { "incr" } else { "decr" }, cur, m, l)),
        };
        let raw = match (up, mimd) {
            (true, false) => cur + incr as u128,
            (true, true) => cur * incr as u128,
            (false, _) => cur / decr as u128,
        };
        let exp = if up { raw.min(max as u128) } else { raw.max(min as u128) };
        hit |= exp != raw;
        check!(got >= min && got <= max, "interval-bounds", "step {}: interval {} is outside of [{}, {}]", i, got, min, max);
        check_eq!(got as u128, exp, "interval", "step {}: interval after {} from {}", i, if up { "incr" } else { "decr" }, cur);
        let c = if in_reaper { reaper.strategy().curr() } else { own.curr() };
        check_eq!(c, got, "interval", "step {}: current interval", i);
        cur = exp;
    }
    s.nontrivial_if(hit && k >= 3);
    Ok(())
}

// ------------------------------------------------------------------ D05 and D06: a whole dispatcher

const DEAD: usize = usize::MAX;

#[derive(Clone, Debug)]
struct Got {
    who: usize,
    payload: Option<u64>,
    sender: ActorPath,
}
type Log = Arc<Mutex<Vec<Got>>>;

fn record(log: &Log, who: usize, msg: NetMessage) {
    progress();
    let sender = msg.sender().clone();
    let payload = msg.try_deserialise::<u64, u64>().ok();
    log.lock().unwrap().push(Got { who, payload, sender });
}

#[derive(ComponentDefinition)]
struct Target {
    ctx: ComponentContext<Target>,
    id: usize,
    log: Log,
}
impl ComponentLifecycle for Target {
    fn on_start(&mut self) -> HandlerResult {
        let id = self.ctx.id();
        PASSIVE.with(|p| p.borrow_mut().remove(&id));
        Handled::OK
    }
}
impl Actor for Target {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        record(&self.log, self.id, msg);
        Handled::OK
    }
}

#[derive(ComponentDefinition)]
struct Dead {
    ctx: ComponentContext<Dead>,
    ready: Option<KPromise<()>>,
    log: Log,
}
impl ComponentLifecycle for Dead {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            let _ = p.complete();
        }
        Handled::OK
    }
}
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        record(&self.log, DEAD, msg);
        Handled::OK
    }
}

/// What must happen to one message.
#[derive(Clone, Debug)]
enum Fate {
    /// these actors (and nobody else) handle it, each as often as listed
    Exactly(Vec<usize>),
    /// nobody has to handle it; at most the dead letter box may
    Lost,
    /// it went through window `.0`
    One(usize),
}

/// A stretch of messages through one select policy with unchanged membership.
struct Window {
    base: Vec<String>,
    policy: u64,
    kind: u64,
    members: Vec<usize>,
    open: bool,
    all_live: bool,
    msgs: Vec<(u64, ActorPath)>,
}

struct Tgt {
    comp: Option<Arc<Component<Target>>>,
    r: DynActorRef,
    id: Uuid,
    started: bool,
    dead: bool,
}

struct World {
    sim: Sim,
    net: bool,
    log: Log,
    m: Model,
    kinds: HashMap<u64, u64>,
    t: Vec<Tgt>,
    wins: Vec<Window>,
    sent: Vec<(Fate, ActorPath, String)>,
    futs: Vec<(KFuture<RegistrationResult>, Result<ActorPath, &'static str>, String)>,
    pols: u64,
    sys: SystemPath,
}

const BROADCAST: u64 = 0;
const ROUND_ROBIN: u64 = 1;
const BY_RECEIVER: u64 = 3;

impl World {
    fn new(s: &mut Src) -> Result<World, Failure> {
        let net = s.chance(1, 300);
        let log: Log = Default::default();
        let (mut cfg, sched, timer) = Sim::config();
        let thr = *s.pick(&[50usize, 1, 2, 7]);
        s.note(|| format!("throughput {}, {} dispatcher", thr, if net { "network" } else { "local" }));
        cfg.set_config_value(&kompact::config_keys::system::THROUGHPUT, thr);
        let l2 = log.clone();
        let dead = move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), log: l2.clone() };
        if net {
            s.label("network dispatcher");
            // the network thread wakes things up whenever it likes
            sched.0.lock().unwrap().waive_double = true;
            cfg.system_components(dead, NetworkConfig::new("127.0.0.1:0".parse().unwrap()).build());
        } else {
            cfg.system_components(dead, LocalDispatcher::new);
        }
        let sim = Sim::start(cfg, sched, timer)?;
        let sys = sim.sys.system_path();
        Ok(World { sim, net, log, m: Model::default(), kinds: HashMap::new(), t: vec![], wins: vec![], sent: vec![], futs: vec![], pols: 0, sys })
    }

    fn actor(&mut self, s: &mut Src) {
        let id = self.t.len();
        let log = self.log.clone();
        let c = self.sim.sys.create(|| Target { ctx: ComponentContext::uninitialised(), id, log });
        PASSIVE.with(|p| p.borrow_mut().insert(c.id()));
        let started = !s.chance(1, 6);
        if started {
            self.sim.sys.start(&c);
        }
        s.note(|| format!("create actor {}{}", id, if started { "" } else { " (not started)" }));
        self.t.push(Tgt { r: c.actor_ref().dyn_ref(), id: c.id(), comp: Some(c), started, dead: false });
    }

    fn changed(&mut self, p: &[String]) {
        for w in self.wins.iter_mut() {
            if p.starts_with(&w.base) {
                w.open = false;
            }
        }
    }

    fn named(&self, p: &[String]) -> ActorPath {
        ActorPath::Named(NamedPath::with_system(self.sys.clone(), p.to_vec()))
    }

    fn put(&mut self, s: &mut Src, p: Vec<String>, e: E, update: bool) -> Result<ActorPath, &'static str> {
        if !valid_insert(&p) {
            return Err("InvalidPath");
        }
        if self.m.names.contains_key(&p) {
            if !update {
                once(s, "refused");
                return Err("DuplicateEntry");
            }
            once(s, "replaced");
        }
        self.changed(&p);
        let r = self.named(&p);
        self.m.names.insert(p, e);
        Ok(r)
    }

    /// a path to send to: registered, near a registered one, or any
    fn dest(&self, s: &mut Src, groups: bool) -> Vec<String> {
        let have: Vec<&Vec<String>> = self.m.names.iter().filter(|(_, e)| !groups || matches!(e, E::Pol(..))).map(|(k, _)| k).collect();
        let mut p = if have.is_empty() || s.chance(1, 10) { path(s, 3) } else { s.pick(&have).to_vec() };
        if s.chance(if groups { 1 } else { 1 }, if groups { 2 } else { 6 }) {
            p.push(if s.flag() { "*" } else { "?" }.to_string());
        }
        p
    }

    fn send(&mut self, s: &mut Src, groups: bool) {
        let x = self.sent.len() as u64;
        // the path
        let (dst, fate) = match s.weighted(&[12, if groups { 1 } else { 4 }, 1, 1]) {
            1 => {
                let u = if self.t.is_empty() || s.chance(1, 6) { Uuid::from_u128(9) } else { self.t[s.idx(self.t.len())].id };
                let f = match self.m.ids.get(&u) {
                    None => Fate::Exactly(vec![DEAD]),
                    Some(k) => self.direct(*k),
                };
                (ActorPath::Unique(UniquePath::with_system(self.sys.clone(), u)), f)
            }
            2 => (self.sim.sys.deadletter_path(), Fate::Exactly(vec![DEAD])),
            3 if !self.net => {
                let sp = SystemPath::new(Transport::Tcp, "127.0.0.1".parse().unwrap(), 9999);
                (ActorPath::Named(NamedPath::with_system(sp, self.dest(s, false))), Fate::Exactly(vec![DEAD]))
            }
            _ => {
                let p = self.dest(s, groups);
                let d = if s.chance(1, 10) {
                    ActorPath::Named(NamedPath::with_system(SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 77), p.clone()))
                } else {
                    self.named(&p)
                };
                let f = self.fate(s, &p);
                (d, f)
            }
        };
        // the sender
        let sender = match s.below(3) {
            0 => self.named(&[s.pick(&["a", "b", "c", "d", "e"]).to_string()]),
            1 => ActorPath::Unique(UniquePath::with_system(self.sys.clone(), Uuid::from_u128(s.below(4) as u128))),
            _ => ActorPath::Named(NamedPath::with_system(SystemPath::new(Transport::Tcp, "10.0.0.1".parse().unwrap(), s.below(3) as u16), vec!["x".into()])),
        };
        let nobody = self.sim.sys.deadletter_path();
        let relay = self.t.iter().find(|t| t.started && !t.dead).and_then(|t| t.comp.clone());
        let id = <u64 as Deserialiser<u64>>::SER_ID;
        let how = match (s.below(6), relay) {
            (0, Some(r)) => {
                r.on_definition(|d| {
                    let c = d.ctx.preserialise(&x).expect("preserialise");
                    dst.tell_preserialised_with_sender(c, d, sender.clone()).expect("tell")
                });
                "preserialised"
            }
            (1, Some(r)) => {
                r.on_definition(|d| dst.tell_serialised_with_sender(x, d, sender.clone()).expect("tell"));
                "serialised"
            }
            (2, _) => {
                dst.forward_with_original_sender(NetMessage::with_box(id, sender.clone(), nobody, Box::new(x)), &self.sim.sys);
                "forwarded box"
            }
            (3, _) => {
                dst.forward_with_sender(NetMessage::with_bytes(id, nobody.clone(), nobody, x.to_be_bytes().to_vec().into()), &self.sim.sys, sender.clone());
                "forwarded bytes"
            }
            _ => {
                dst.tell_with_sender(x, &self.sim.sys, sender.clone());
                "told"
            }
        };
        let text = format!("message {} ({}) from {} to {}", x, how, sender, dst);
        s.note(|| format!("{}: {:?}", text, fate));
        if let Fate::One(w) = &fate {
            let w = &mut self.wins[*w];
            let key = if w.kind == BY_RECEIVER { dst } else { sender.clone() };
            w.msgs.push((x, key));
        }
        self.sent.push((fate, sender, text));
    }

    fn direct(&self, k: usize) -> Fate {
        Fate::Exactly(if self.t[k].dead { vec![] } else { vec![k] })
    }

    fn fate(&mut self, s: &mut Src, p: &[String]) -> Fate {
        let last = p.last().unwrap();
        let marker = last == "*" || last == "?";
        let base = if marker { &p[..p.len() - 1] } else { p };
        match self.m.names.get(base).copied() {
            None => Fate::Exactly(vec![DEAD]),
            Some(E::Ref(_)) if marker => Fate::Exactly(vec![DEAD]),
            Some(E::Ref(k)) => self.direct(k),
            Some(E::Pol(_, b, sel)) if (last == "*" && !b) || (last == "?" && !sel) => Fate::Exactly(vec![DEAD]),
            Some(E::Pol(id, ..)) => {
                let ms = self.m.below(base);
                if ms.is_empty() {
                    once(s, "empty group");
                    return Fate::Lost;
                }
                let kind = self.kinds[&id];
                if ms.len() > 1 {
                    once(s, "group");
                }
                if kind == BROADCAST {
                    return Fate::Exactly(ms.into_iter().filter(|k| !self.t[*k].dead).collect());
                }
                let live = ms.iter().all(|k| !self.t[*k].dead);
                let w = match self.wins.iter().position(|w| w.open && w.policy == id) {
                    Some(w) => w,
                    None => {
                        if self.wins.iter().any(|w| w.policy == id) {
                            once(s, "membership changed");
                        }
                        self.wins.push(Window { base: base.to_vec(), policy: id, kind, members: ms, open: true, all_live: true, msgs: vec![] });
                        self.wins.len() - 1
                    }
                };
                self.wins[w].all_live &= live;
                Fate::One(w)
            }
        }
    }

    fn register(&mut self, s: &mut Src, groups: bool) {
        if self.t.is_empty() {
            return;
        }
        let k = s.idx(self.t.len());
        let Some(c) = self.t[k].comp.clone() else { return };
        let (f, exp, what) = match s.weighted(&[2, 5, 3]) {
            0 => {
                let dup = self.m.ids.contains_key(&self.t[k].id);
                let exp = if dup { Err("DuplicateEntry") } else { Ok(ActorPath::Unique(UniquePath::with_system(self.sys.clone(), self.t[k].id))) };
                self.m.ids.insert(self.t[k].id, k);
                if dup {
                    once(s, "refused");
                }
                (self.sim.sys.register(&c), exp, format!("register actor {}", k))
            }
            op => {
                let have: Vec<Vec<String>> = self.m.names.keys().cloned().collect();
                let bases: Vec<Vec<String>> = self.m.names.iter().filter(|(_, e)| matches!(e, E::Pol(..))).map(|(k, _)| k.clone()).collect();
                let p = if groups && !bases.is_empty() && s.chance(4, 5) {
                    let mut p = s.pick(&bases).clone();
                    p.extend(path(s, 2));
                    p
                } else if s.chance(1, 10) {
                    bad_path(s)
                } else if !have.is_empty() && s.chance(1, 3) {
                    s.pick(&have).clone()
                } else {
                    path(s, 3)
                };
                let a = p.join("/");
                let exp = self.put(s, p, E::Ref(k), op == 2);
                if op == 2 {
                    (self.sim.sys.update_alias_registration(&c, a.clone()), exp, format!("update alias {:?} to actor {}", a, k))
                } else {
                    (self.sim.sys.register_by_alias(&c, a.clone()), exp, format!("register alias {:?} for actor {}", a, k))
                }
            }
        };
        s.note(|| format!("{}: {:?}", what, exp));
        if !s.chance(1, 8) {
            self.futs.push((f, exp, what));
        }
    }

    fn policy(&mut self, s: &mut Src) {
        let have: Vec<Vec<String>> = self.m.names.keys().cloned().collect();
        let p = if s.chance(1, 12) {
            bad_path(s)
        } else if !have.is_empty() && s.chance(1, 4) {
            s.pick(&have).clone()
        } else {
            path(s, 2)
        };
        self.pols += 1;
        let kind = s.below(4);
        let pol: StorePolicy = match kind {
            BROADCAST => BroadcastRouting.into(),
            ROUND_ROBIN => RoundRobinRouting::new().into(),
            2 => SenderDefaultHashBucketRouting::default().into(),
            _ => FieldHashBucketRouting::new(std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default(), net_receiver).into(),
        };
        let update = s.flag();
        let a = p.join("/");
        let what = format!("policy {} of kind {} at {:?} (update {})", self.pols, ["broadcast", "round robin", "by sender", "by receiver"][kind as usize], a, update);
        self.kinds.insert(self.pols, kind);
        let exp = self.put(s, p, E::Pol(self.pols, kind == BROADCAST, kind != BROADCAST), update);
        s.note(|| format!("{}: {:?}", what, exp));
        let f = self.sim.sys.set_routing_policy(pol, &a, update);
        self.futs.push((f, exp, what));
    }

    fn quiesce(&mut self, s: &mut Src) -> CaseResult {
        if self.net {
            self.sim.run(s)?;
            std::thread::sleep(Duration::from_millis(1));
        }
        self.sim.run(s)
    }

    fn kill(&mut self, s: &mut Src) -> CaseResult {
        let live: Vec<usize> = (0..self.t.len()).filter(|k| self.t[*k].started && !self.t[*k].dead).collect();
        if live.is_empty() {
            return Ok(());
        }
        let k = *s.pick(&live);
        self.quiesce(s)?;
        let c = self.t[k].comp.take().expect("a live component is held");
        let hold = s.flag();
        s.note(|| format!("kill actor {}{}", k, if hold { "" } else { " and let go of it" }));
        self.sim.sys.kill(c.clone());
        if hold {
            self.t[k].comp = Some(c);
        } else {
            drop(c);
        }
        self.quiesce(s)?;
        self.t[k].dead = true;
        if !hold {
            check!(!self.t[k].r.can_upgrade_component(), "not-freed", "actor {} is dead and nobody holds it, but it still exists", k);
        }
        Ok(())
    }

    fn judge(&mut self, s: &mut Src) -> CaseResult {
        for k in 0..self.t.len() {
            if !self.t[k].started {
                let c = self.t[k].comp.clone().unwrap();
                self.sim.sys.start(&c);
                self.t[k].started = true;
            }
        }
        self.quiesce(s)?;
        for (mut f, exp, what) in std::mem::take(&mut self.futs) {
            let got = match poll_once(&mut f) {
                None => return fail("registration-open", format!("{}: no answer", what)),
                Some(Err(_)) => return fail("registration-open", format!("{}: the promise was dropped", what)),
                Some(Ok(r)) => r,
            };
            let ok = match (&got, &exp) {
                (Ok(a), Ok(b)) => a == b,
                (Err(RegistrationError::DuplicateEntry), Err("DuplicateEntry")) | (Err(RegistrationError::InvalidPath(_)), Err("InvalidPath")) => true,
                _ => false,
            };
            check!(ok, "registration-result", "{} was answered with {:?}, expected {:?}", what, got, exp);
        }
        let log = std::mem::take(&mut *self.log.lock().unwrap());
        let mut by: Vec<Vec<usize>> = vec![vec![]; self.sent.len()];
        for g in &log {
            let Some(x) = g.payload.filter(|x| (*x as usize) < self.sent.len()) else {
                return fail("garbled", format!("actor {} handled a message that was never sent: {:?}", g.who, g));
            };
            let (_, sender, what) = &self.sent[x as usize];
            check!(g.sender == *sender, "wrong-sender", "{} arrived with sender {}", what, g.sender);
            by[x as usize].push(g.who);
        }
        for (x, (fate, _, what)) in self.sent.iter().enumerate() {
            let got = &mut by[x];
            got.sort();
            match fate {
                Fate::Exactly(e) => {
                    let mut e = e.clone();
                    e.sort();
                    if *got != e {
                        let sig = if e == [DEAD] { "dead-letter" } else if e.len() > 1 { "broadcast" } else { "delivery" };
                        return fail(sig, format!("{} was handled by {}, expected {}", what, names(got), names(&e)));
                    }
                }
                Fate::Lost => check!(got.iter().all(|w| *w == DEAD) && got.len() <= 1, "delivery", "{}, a group without members, was handled by {}", what, names(got)),
                Fate::One(w) => {
                    let w = &self.wins[*w];
                    check!(got.len() <= 1, "select-many", "{} was handled by {}", what, names(got));
                    check!(got.iter().all(|k| w.members.contains(k)), "select-stranger", "{} was handled by {}, members are {}", what, names(got), names(&w.members));
                    check!(got.len() == 1 || !w.all_live, "select-none", "{} was handled by nobody, members are {}", what, names(&w.members));
                }
            }
        }
        for w in &self.wins {
            if w.kind == ROUND_ROBIN {
                let (n, len) = (w.msgs.len(), w.members.len());
                for k in &w.members {
                    if self.t[*k].dead {
                        continue;
                    }
                    let m = w.members.iter().filter(|x| *x == k).count();
                    let c = w.msgs.iter().filter(|(x, _)| by[*x as usize].contains(k)).count();
                    check!(
                        c >= m * (n / len) && c <= m * n.div_ceil(len),
                        "uneven",
                        "round robin over {} at {:?}: {} consecutive messages ({:?}), of which actor {} got {}",
                        names(&w.members),
                        w.base,
                        n,
                        w.msgs.iter().map(|(x, _)| (*x, names(&by[*x as usize]))).collect::<Vec<_>>(),
                        k,
                        c
                    );
                }
            } else {
                let mut seen: Vec<(&ActorPath, usize, u64)> = vec![];
                for (x, key) in &w.msgs {
                    let Some(&k) = by[*x as usize].first() else { continue };
                    match seen.iter().find(|(y, ..)| *y == key) {
                        Some((_, k0, x0)) => check!(*k0 == k, "hash-moved", "messages {} and {} have the same key {} but went to actors {} and {} of {}", x0, x, key, k0, k, names(&w.members)),
                        None => seen.push((key, k, *x)),
                    }
                }
            }
        }
        Ok(())
    }

    /// Lets the network dispatcher clean its table up.
    fn reap(&mut self, s: &mut Src) -> CaseResult {
        self.quiesce(s)?;
        s.note(|| "clean-up of the table".into());
        self.sim.timer.advance_by(Duration::from_millis(6000));
        self.quiesce(s)?;
        let gone: Vec<usize> = (0..self.t.len()).filter(|k| self.t[*k].dead && self.t[*k].comp.is_none()).collect();
        let paths: Vec<Vec<String>> = self.m.names.iter().filter(|(_, e)| matches!(e, E::Ref(k) if gone.contains(k))).map(|(p, _)| p.clone()).collect();
        for p in paths {
            self.changed(&p);
        }
        self.m.remove(|k| gone.contains(&k));
        Ok(())
    }
}

fn once(s: &mut Src, l: &'static str) {
    if !s.labelled(l) {
        s.label(l);
    }
}

fn net_receiver(m: &NetMessage) -> &ActorPath {
    &m.receiver
}

fn names(v: &[usize]) -> String {
    if v.is_empty() {
        return "nobody".into();
    }
    v.iter().map(|k| if *k == DEAD { "the dead letter box".to_string() } else { format!("actor {}", k) }).collect::<Vec<_>>().join(", ")
}

fn world(s: &mut Src, groups: bool) -> CaseResult {
    let mut w = World::new(s)?;
    let r = (|| {
        // now and then a large group
        let wide = groups && s.chance(1, 25);
        for _ in 0..if wide { s.range(6, 16) } else { s.range(1, 4) } {
            w.actor(s);
        }
        if groups {
            w.policy(s);
            for _ in 0..s.range(0, if wide { 60 } else { 6 }) {
                w.register(s, groups);
            }
        }
        let n = s.range(1, 30);
        for _ in 0..n {
            match s.weighted(&[if groups { 3 } else { 8 }, if groups { 2 } else { 1 }, 14, 1, 1, 4, 1, if w.net { 2 } else { 0 }]) {
                0 => w.register(s, groups),
                1 => w.policy(s),
                2 => {
                    for _ in 0..s.range(1, if groups { 4 } else { 2 }) {
                        w.send(s, groups)
                    }
                }
                3 => w.actor(s),
                4 => w.kill(s)?,
                5 => w.sim.some(s, 6),
                6 => w.quiesce(s)?,
                _ => w.reap(s)?,
            }
        }
        w.judge(s)
    })();
    w.sim.dispose();
    r
}

fn d05(s: &mut Src) -> CaseResult {
    world(s, true)?;
    s.nontrivial_if(s.labelled("group") && (s.labelled("membership changed") || s.labelled("empty group")));
    Ok(())
}

fn d06(s: &mut Src) -> CaseResult {
    world(s, false)?;
    s.nontrivial_if(s.labelled("refused") || s.labelled("replaced"));
    Ok(())
}
