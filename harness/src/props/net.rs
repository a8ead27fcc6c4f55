//! N01–N07: systems that talk over loopback sockets, among each other and with raw peers.
use crate::pbt::*;
use crate::sim::quiet_logger;
use crate::check;
use super::frames::F;
use super::ser::msg_wire;
use bytes::{Buf, BufMut};
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use uuid::Uuid;
use kompact::net::SessionId;
use kompact::net::buffers::{BufferConfig, ChunkRef};
use kompact::prelude::*;
use kompact::routing::groups::RoutingPolicy;
use kompact_net::{NetworkConfig, NetworkStatus, NetworkStatusPort, NetworkStatusRequest, NetworkSystemExt};
use std::any::Any;
use ipnet::IpNet;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub static PROPS: [&Prop; 7] = [
   &Prop::new("N01", "at least ten messages crossed the network", 2_500, 200_000, n01).segment(800),
    &Prop::new("N02", "at least ten messages crossed the network and two connections were closed", 2_000, 100_000, n02).segment(800),
    &Prop::new("N03", "at least two connections were lost after the handshake began", 500, 60_000, n03).workers(24).segment(500),
    &Prop::new("N04", "at least three hostile inputs reached the system", 4_000, 300_000, n04).segment(800),
    &Prop::new("N06", "a message too large to be sent or read, or a malformed datagram, and others after it", 4_000, 300_000, n06).segment(800),
    &Prop::new("N07", "both limits were reached, or at least ten messages to or from the system with the limit, or six between systems that met", 2_000, 100_000, n07).segment(800),
    &Prop::new("N05", "at least three rules of which two concern the same peer, and connections both made and refused", 8_000, 200_000, n05).segment(800),
];

const WAIT: Duration = Duration::from_secs(20);

// ---------------------------------------------------------------- messages

/// Wants the receiver to answer.
const ANSWER: u8 = 1;
/// Does not say how long it is.
const NO_HINT: u8 = 2;

#[derive(Clone, Debug, PartialEq)]
struct Body {
    tag: u32,
    seq: u32,
    flags: u8,
    len: u32,
}
const SER: SerId = 0x4B56_4E01;
const HEAD: usize = 17;

fn fill(tag: u32, seq: u32, k: usize) -> u8 {
    let x = (tag ^ 0x9E37).wrapping_mul(31).wrapping_add(seq.wrapping_mul(2_654_435_761)).wrapping_add((k as u32).wrapping_mul(7)).wrapping_add((k as u32 >> 8).wrapping_mul(13));
    (x ^ (x >> 15)) as u8
}

impl Body {
    fn payload(&self) -> Vec<u8> {
        (0..self.len as usize).map(|k| fill(self.tag, self.seq, k)).collect()
    }
    fn put(&self, buf: &mut dyn BufMut) {
        buf.put_u32(0xB0D1_B0D1);
        buf.put_u32(self.tag);
        buf.put_u32(self.seq);
        buf.put_u8(self.flags);
        buf.put_u32(self.len);
        buf.put_slice(&self.payload());
    }
    fn get(buf: &mut dyn Buf) -> Result<Body, String> {
        if buf.remaining() < HEAD {
            return Err(format!("only {} bytes", buf.remaining()));
        }
        let magic = buf.get_u32();
        let b = Body { tag: buf.get_u32(), seq: buf.get_u32(), flags: buf.get_u8(), len: buf.get_u32() };
        if magic != 0xB0D1_B0D1 {
            return Err(format!("starts with {:x}, {:?}", magic, b));
        }
        if buf.remaining() != b.len as usize {
            return Err(format!("{:?} came with {} bytes of payload", b, buf.remaining()));
        }
        let got = buf.copy_to_bytes(b.len as usize);
        if let Some(k) = (0..b.len as usize).find(|k| got[*k] != fill(b.tag, b.seq, *k)) {
            return Err(format!("{:?} has a wrong byte at {}", b, k));
        }
        Ok(b)
    }
}
impl Serialisable for Body {
    fn ser_id(&self) -> SerId {
        SER
    }
    fn size_hint(&self) -> Option<usize> {
        if self.flags & NO_HINT != 0 { None } else { Some(HEAD + self.len as usize) }
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        self.put(buf);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> {
        Some(Box::new(self.clone()))
    }
}

// ---------------------------------------------------------------- actors

#[derive(Debug)]
struct Rec {
    peer: usize,
    sender: ActorPath,
    session: Option<SessionId>,
    body: Result<Body, String>,
}

#[derive(Default)]
struct World {
    log: Mutex<Vec<Rec>>,
    count: AtomicUsize,
    status: Mutex<Vec<(usize, Instant, NetworkStatus)>>,
    statuses: AtomicUsize,
    /// where the peers that forward messages forward them to
    onward: Mutex<BTreeMap<usize, ActorPath>>,
    /// how long the slow path of every system takes for a message
    stall_us: AtomicU64,
}
impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "World")
    }
}
/// Hands messages to all members, slowly: it runs on the network thread and so holds up the socket.
#[derive(Clone, Debug)]
struct Slow(Arc<World>);
impl RoutingPolicy<DynActorRef, NetMessage> for Slow {
    fn route(&self, members: &[&DynActorRef], msg: NetMessage, _l: &kompact::KompactLogger) {
        let us = self.0.stall_us.load(SeqCst);
        if us > 0 {
            std::thread::sleep(Duration::from_micros(us));
        }
        if let Some(m) = members.first() {
            m.tell(msg);
        }
    }
    fn boxed_clone(&self) -> Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync> {
        Box::new(self.clone())
    }
    fn broadcast(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        Some(self)
    }
    fn select(&self) -> Option<&(dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync)> {
        None
    }
}

#[derive(ComponentDefinition)]
struct Peer {
    ctx: ComponentContext<Peer>,
    me: usize,
    w: Arc<World>,
    answers: BTreeMap<u32, u32>,
}
ignore_lifecycle!(Peer);
impl Actor for Peer {
    type Message = ();
    fn receive_local(&mut self, _m: ()) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, m: NetMessage) -> HandlerResult {
        let onward = self.w.onward.lock().unwrap().get(&self.me).cloned();
        if let Some(to) = onward {
            to.forward_with_original_sender(m, self);
            self.w.count.fetch_add(1, SeqCst);
            return Handled::OK;
        }
        let (sender, session) = (m.sender().clone(), m.session());
        let body = match m.try_deserialise_unchecked::<Body, BodyLocal>() {
            Ok(b) => Ok(b),
            Err(e) => Err(format!("{:?}", e)),
        };
        if let Ok(b) = &body
            && b.flags & ANSWER != 0
        {
            let n = self.answers.entry(b.tag).or_insert(0);
            sender.tell(Body { tag: b.tag | 1 << 16, seq: *n, flags: 0, len: b.len / 2 }, &*self);
            *self.answers.get_mut(&b.tag).unwrap() += 1;
        }
        self.w.log.lock().unwrap().push(Rec { peer: self.me, sender, session, body });
        self.w.count.fetch_add(1, SeqCst);
        Handled::OK
    }
}
/// Reads a body, also if it never left the system; a damaged one is an error.
struct BodyLocal;
impl Deserialiser<Body> for BodyLocal {
    const SER_ID: SerId = SER;
    fn deserialise(buf: &mut dyn Buf) -> Result<Body, SerError> {
        Body::get(buf).map_err(SerError::invalid_data)
    }
}

#[derive(ComponentDefinition)]
struct Watcher {
    ctx: ComponentContext<Watcher>,
    port: RequiredPort<NetworkStatusPort>,
    me: usize,
    w: Arc<World>,
}
ignore_lifecycle!(Watcher);
impl Require<NetworkStatusPort> for Watcher {
    fn handle(&mut self, e: NetworkStatus) -> HandlerResult {
        self.w.status.lock().unwrap().push((self.me, Instant::now(), e));
        self.w.statuses.fetch_add(1, SeqCst);
        Handled::OK
    }
}
impl Actor for Watcher {
    type Message = NetworkStatusRequest;
    fn receive_local(&mut self, m: NetworkStatusRequest) -> HandlerResult {
        self.port.trigger(m);
        Handled::OK
    }
    fn receive_network(&mut self, _m: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

// ---------------------------------------------------------------- systems

struct Node {
    sys: KompactSystem,
    addr: SocketAddr,
    peers: Vec<usize>,
    watcher: Option<Arc<Component<Watcher>>>,
}
struct Actor1 {
    node: usize,
    c: Arc<Component<Peer>>,
    unique: ActorPath,
    named: ActorPath,
    /// through a policy that may be slow, on the network thread
    slow: Option<ActorPath>,
}

#[derive(Default)]
struct Lab {
    w: Arc<World>,
    nodes: Vec<Node>,
    actors: Vec<Actor1>,
    /// what every stream of messages must look like: who gets it, from whom, and what
    expect: BTreeMap<u32, Stream>,
    total: usize,
}
struct Stream {
    to: usize,
    sender: ActorPath,
    items: Vec<Body>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Lazy,
    Eager,
    Pre,
}

fn buffers(s: &mut Src, most: usize) -> BufferConfig {
    let mut b = BufferConfig::default();
    // small chunks take long with a lot of data
    if s.chance(1, 3) || most > 10_000_000 && s.flag() {
        return b;
    }
    let chunk = match if most > 10_000_000 { 2 + s.idx(2) } else { s.weighted(&[2, 2, 2, 1]) } {
        0 => s.range(128, 300),
        1 => s.range(300, 5000),
        2 => s.range(5000, 70_000),
        _ => s.range(70_000, 200_000),
    };
    let free = match s.weighted(&[3, 2, 1]) {
        0 => s.range(0, 64),
        1 => s.range(0, chunk / 2),
        _ if most > 10_000_000 => chunk / 2,
        _ => chunk - 1,
    };
    b.chunk_size(chunk);
    b.encode_buf_min_free_space(free);
    let initial = s.range(1, 4);
    b.initial_chunk_count(initial);
    // enough for everything that can be on its way
    b.max_chunk_count(most / (chunk - free).max(1).min(chunk) * 4 + 200);
    b
}

impl Lab {
    fn node(&mut self, net: NetworkConfig, threads: usize, watch: bool) -> Result<usize, Failure> {
        let mut cfg = KompactConfig::default();
        cfg.logger(quiet_logger());
        cfg.load_config_str(format!("[kompact.runtime]\nthreads = {}\nlabel = \"kv\"\n", threads));
        cfg.system_components(DeadletterBox::new, net.build());
        let sys = match futures::executor::block_on(cfg.build()) {
            Ok(s) => s,
            Err(e) => return Err(Failure { sig: "undecided".into(), msg: (format!("system did not build: {:?}", e)).into(), violation: false }),
        };
        let p = sys.system_path();
        let addr = SocketAddr::new(*p.address(), p.port());
        let me = self.nodes.len();
        let mut watcher = None;
        if watch {
            let w = self.w.clone();
            let c = sys.create(move || Watcher { ctx: ComponentContext::uninitialised(), port: RequiredPort::uninitialised(), me, w });
            c.on_definition(|d| sys.connect_network_status_port(&mut d.port));
            if sys.start_notify(&c).wait_timeout(WAIT).is_err() {
                return Err(Failure { sig: "undecided".into(), msg: ("the watcher did not start").into(), violation: false });
            }
            watcher = Some(c);
        }
        self.nodes.push(Node { sys, addr, peers: vec![], watcher });
        Ok(me)
    }

    fn actor(&mut self, node: usize, bufs: Option<BufferConfig>) -> Result<usize, Failure> {
        let me = self.actors.len();
        let w = self.w.clone();
        let n = &mut self.nodes[node];
        let (c, f) = n.sys.create_and_register(move || Peer { ctx: ComponentContext::uninitialised(), me, w, answers: BTreeMap::new() });
        let bad = |e: String| Failure::new("registration", e);
        let unique = f.wait_timeout(WAIT).map_err(|e| bad(format!("{:?}", e)))?.map_err(|e| bad(format!("{:?}", e)))?;
        let named = n.sys.register_by_alias(&c, format!("p{}", me)).wait_timeout(WAIT).map_err(|e| bad(format!("{:?}", e)))?.map_err(|e| bad(format!("{:?}", e)))?;
        if let Some(b) = bufs {
            c.on_definition(|d| d.ctx.init_buffers(Some(b), None));
        }
        if n.sys.start_notify(&c).wait_timeout(WAIT).is_err() {
            return Err(Failure { sig: "undecided".into(), msg: ("an actor did not start").into(), violation: false });
        }
        n.peers.push(me);
        self.actors.push(Actor1 { node, c, unique, named, slow: None });
        Ok(me)
    }

    /// Gives an actor a path that may be slow.
    fn slow(&mut self, actor: usize) -> CaseResult {
        let bad = |e: String| Failure::new("registration", e);
        let n = &self.nodes[self.actors[actor].node];
        let g = format!("slow{}", actor);
        let p = n.sys.set_routing_policy(Slow(self.w.clone()), &g, false).wait_timeout(WAIT).map_err(|e| bad(format!("{:?}", e)))?.map_err(|e| bad(format!("{:?}", e)))?;
        n.sys.register_by_alias(&self.actors[actor].c, format!("{}/x", g)).wait_timeout(WAIT).map_err(|e| bad(format!("{:?}", e)))?.map_err(|e| bad(format!("{:?}", e)))?;
        self.actors[actor].slow = Some(p);
        Ok(())
    }

    /// Sends one message; its arrival is expected at `to`, through `via` if any.
    fn send(&mut self, from: usize, first: &ActorPath, to: usize, tag: u32, flags: u8, len: usize, mode: Mode) -> CaseResult {
        let sender = {
            let mut p = self.actors[from].unique.clone();
            p.set_protocol(first.protocol());
            p
        };
        let back = self.actors[to].unique.clone();
        let e = self.expect.entry(tag).or_insert_with(|| Stream { to, sender, items: vec![] });
        let b = Body { tag, seq: e.items.len() as u32, flags, len: len as u32 };
        e.items.push(b.clone());
        self.total += 1;
        if flags & ANSWER != 0 {
            let t = tag | 1 << 16;
            let e = self.expect.entry(t).or_insert_with(|| Stream { to: from, sender: back, items: vec![] });
            e.items.push(Body { tag: t, seq: e.items.len() as u32, flags: 0, len: (len / 2) as u32 });
            self.total += 1;
        }
        self.actors[from].c.on_definition(|d| {
            let r = match mode {
                Mode::Lazy => {
                    first.tell(b.clone(), d);
                    Ok(())
                }
                Mode::Eager => first.tell_serialised(b.clone(), d),
                Mode::Pre => d.ctx.preserialise(&b).and_then(|c: ChunkRef| first.tell_preserialised(c, d)),
            };
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail("send-failed", format!("sending {:?} ({:?}) failed: {:?}", b, mode, e)),
            }
        })
    }

    /// Waits until `n` things were received; gives up when nothing happens for a while.
    fn arrived(&self, n: usize) -> bool {
        let mut t0 = Instant::now();
        let mut last = 0;
        let mut k = 0u32;
        loop {
            let c = self.w.count.load(SeqCst);
            if c >= n {
                return true;
            }
            if c != last {
                last = c;
                t0 = Instant::now();
            }
            k += 1;
            if k < 50 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(100));
            }
            if t0.elapsed() > WAIT {
                return false;
            }
        }
    }

    /// Waits until `n` messages of a kind came.
    fn arrived_of(&self, f: impl Fn(&Rec) -> bool, n: usize) -> bool {
        let t0 = Instant::now();
        loop {
            if self.w.log.lock().unwrap().iter().filter(|r| f(r)).count() >= n {
                return true;
            }
            if t0.elapsed() > WAIT {
                return false;
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }

    /// Every stream must have arrived as it was sent. With `partly`, a prefix is fine.
    fn verify(&self, all: bool) -> CaseResult {
        let log = self.w.log.lock().unwrap();
        let mut got: BTreeMap<u32, usize> = BTreeMap::new();
        for r in log.iter() {
            // what hostile peers send
            let from = SocketAddr::new(*r.sender.address(), r.sender.system().port());
            if !self.nodes.iter().any(|n| n.addr == from) {
                continue;
            }
            let b = match &r.body {
                Ok(b) => b,
                Err(e) => return fail("damaged", format!("actor {} received a damaged message from {}: {}", r.peer, r.sender, e)),
            };
            let Some(st) = self.expect.get(&b.tag) else {
                return fail("unknown", format!("actor {} received {:?} which nobody sent", r.peer, b));
            };
            check!(st.to == r.peer, "wrong-receiver", "actor {} received {:?} which was sent to actor {}", r.peer, b, st.to);
            let k = got.entry(b.tag).or_insert(0);
            match st.items.get(*k) {
                Some(x) if x == b => (),
                Some(x) if b.seq as usize >= *k => return fail("order", format!("actor {} received {:?} of stream {:x} when {:?} should come", r.peer, b, b.tag, x)),
                _ => return fail("twice", format!("actor {} received {:?} of stream {:x} again, {} came already", r.peer, b, b.tag, k)),
            }
            check!(r.sender == st.sender, "sender", "{:?} seems to come from {} instead of {}", b, r.sender, st.sender);
            *k += 1;
        }
        if all {
            for (t, st) in &self.expect {
                let k = got.get(t).copied().unwrap_or(0);
                check!(k == st.items.len(), "lost", "stream {:x} to actor {}: {} of {} messages arrived, the next is {:?}", t, st.to, k, st.items.len(), st.items[k]);
            }
        }
        Ok(())
    }

    fn dispose(mut self) {
        self.actors.clear();
        for n in self.nodes.drain(..) {
            let Node { sys, watcher, .. } = n;
            drop(watcher);
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let _ = futures::executor::block_on(sys.shutdown());
                let _ = tx.send(());
            });
            let _ = rx.recv_timeout(Duration::from_secs(20));
        }
    }
}

static IP: AtomicUsize = AtomicUsize::new(0);
/// Another loopback address every time, so that no port runs out.
fn fresh_ip() -> IpAddr {
    let n = IP.fetch_add(1, SeqCst);
    let pid = std::process::id();
    IpAddr::from([127, 1 + (pid % 120) as u8, (n / 250 % 256) as u8, (n % 250 + 1) as u8])
}
fn net_cfg(ip: IpAddr) -> NetworkConfig {
    let mut c = NetworkConfig::new(SocketAddr::new(ip, 0));
    c.set_connection_retry_interval(300);
    c.set_max_connection_retry_attempts(250);
    c
}

fn size(s: &mut Src, chunk: usize) -> usize {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.size(60),
        1 => s.size(1500),
        2 => (chunk * s.range(1, 3) + s.range(0, 100)).saturating_sub(50 + s.range(0, 100)).min(150_000),
        _ => s.size(150_000),
    }
}

// ---------------------------------------------------------------- N01

fn n01(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    let r = n01_in(s, &mut lab);
    let r = r.and_then(|()| lab.verify(true));
    lab.dispose();
    r
}

fn n01_in(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let n = if s.chance(1, 4) { 3 } else { 2 };
    let mut chunk = vec![];
    // sometimes far more than the sockets take, to a system that reads slowly
    let flood = s.chance(1, 20);
    let most = if flood { 60_000_000 } else { 4_000_000 };
    for _ in 0..n {
        let b = buffers(s, most);
        chunk.push(b.chunk_size_bytes());
        let mut c = net_cfg(fresh_ip());
        s.note(|| format!("system {}: {:?}", lab.nodes.len(), b));
        c.set_buffer_config(b);
        c.set_tcp_nodelay(!s.chance(1, 3));
        lab.node(c, s.range(1, 2), false)?;
    }
    for i in 0..n {
        for _ in 0..s.range(1, 2) {
            let b = if s.flag() { Some(buffers(s, most)) } else { None };
            s.note(|| format!("actor {} on system {}, {:?}", lab.actors.len(), i, b));
            lab.actor(i, b)?;
        }
    }
    // connections come up one after the other
    for i in 0..n {
        for j in i + 1..n {
            let (x, y) = (lab.nodes[i].peers[0], lab.nodes[j].peers[0]);
            let path = lab.actors[y].unique.clone();
            lab.send(x, &path, y, (0x4000 + i * 8 + j) as u32, ANSWER, 0, Mode::Lazy)?;
            if !lab.arrived(lab.total) {
                return lab.verify(true);
            }
        }
    }
    if flood {
        let mut bytes = 0;
        let (from, to) = (0, lab.actors.len() - 1);
        lab.slow(to)?;
        let path = lab.actors[to].slow.clone().unwrap();
        let stall = s.range(100, 4000) as u64;
        lab.w.stall_us.store(stall, SeqCst);
        let goal = s.range(2_000_000, 16_000_000);
        let large = s.range(20_000, 200_000);
        let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
        let mut k = 0;
        while bytes < goal {
            let len = if s.chance(1, 4) { s.size(200) } else { large - s.range(0, 3000) };
            bytes += len + 50;
            k += 1;
            let m = if s.chance(1, 8) { *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]) } else { mode };
            lab.send(from, &path, to, 0x8000, 0, len, m)?;
        }
        s.note(|| format!("{} messages, {} bytes in all, mostly {:?}, to the slow path of {}, {} us each", k, bytes, mode, to, stall));
        s.nontrivial();
        s.label("flood");
        lab.arrived(lab.total * 3 / 4);
        lab.w.stall_us.store(0, SeqCst);
        lab.arrived(lab.total);
        if s.flag() {
            return Ok(());
        }
    }
    let a = lab.actors.len();
    // some actors only forward
    let mut onward: BTreeMap<usize, usize> = BTreeMap::new();
    if s.chance(1, 3) {
        let f = s.idx(a);
        let t = s.idx(a);
        if f != t {
            s.note(|| format!("actor {} forwards everything to {}", f, t));
            onward.insert(f, t);
            let p = if s.flag() { lab.actors[t].unique.clone() } else { lab.actors[t].named.clone() };
            lab.w.onward.lock().unwrap().insert(f, p);
        }
    }
    let mut bytes = 0;
    let mut forwarded = 0;
    let mut crossed = 0;
    for _ in 0..3 + s.size(16) {
        let from = s.idx(a);
        let first = s.idx(a);
        let to = onward.get(&first).copied().unwrap_or(first);
        if from == first || from == to || lab.actors[from].node == lab.actors[first].node && s.chance(3, 4) {
            continue;
        }
        let path = if s.flag() { lab.actors[first].unique.clone() } else { lab.actors[first].named.clone() };
        let most = if s.chance(1, 5) { 100 } else { 8 };
        let burst = 1 + s.size(most).max(if s.flag() { 2 } else { 0 });
        let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
        let mixed = s.chance(1, 4);
        let flags = if s.chance(1, 3) && !onward.contains_key(&from) { ANSWER } else { 0 } | if s.chance(1, 3) { NO_HINT } else { 0 };
        let tag = (from << 8 | first) as u32;
        let mut sizes = 0;
        for _ in 0..burst {
            let len = size(s, chunk[lab.actors[from].node]);
            if bytes + 2 * len > 2_000_000 {
                break;
            }
            bytes += 2 * len + 200;
            sizes += len;
            let m = if mixed { *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]) } else { mode };
            lab.send(from, &path, to, tag, flags, len, m)?;
            if onward.contains_key(&first) {
                forwarded += 1;
            }
            if lab.actors[from].node != lab.actors[first].node {
                crossed += 1;
            }
        }
        s.note(|| format!("{} to {}: up to {} messages ({} bytes), {:?}{}, flags {}", from, first, burst, sizes, mode, if mixed { " and others" } else { "" }, flags));
        match s.weighted(&[6, 2, 1]) {
            0 => (),
            1 => std::thread::sleep(Duration::from_micros(s.size(2000) as u64)),
            _ => {
                lab.arrived(lab.total + forwarded);
            }
        }
    }
    s.nontrivial_if(crossed >= 10);
    s.mark(crossed as u64);
    lab.arrived(lab.total + forwarded);
    Ok(())
}

// ---------------------------------------------------------------- a raw peer

fn sockopt<T>(fd: i32, level: i32, name: i32, v: T) {
    unsafe {
        libc::setsockopt(fd, level, name, &v as *const T as *const libc::c_void, std::mem::size_of::<T>() as u32);
    }
}

/// One TCP connection spoken by hand.
struct Conn {
    s: TcpStream,
    inbuf: Vec<u8>,
    /// taken from the socket in all
    taken: usize,
    frames: std::collections::VecDeque<F>,
    eof: bool,
    reset: bool,
    id: Option<Uuid>,
    acked: bool,
    /// a Bye came
    bye: bool,
    /// a Bye was said
    said: bool,
}
impl Conn {
    fn new(s: TcpStream) -> Conn {
        s.set_nonblocking(true).unwrap();
        let _ = s.set_nodelay(true);
        Conn { s, inbuf: vec![], taken: 0, frames: Default::default(), eof: false, reset: false, id: None, acked: false, bye: false, said: false }
    }
    /// Reads up to `most` bytes that are there; true if there were any.
    fn pump(&mut self, most: usize) -> Result<bool, Failure> {
        let mut any = false;
        let mut left = most;
        let mut buf = [0u8; 65536];
        while left > 0 && !self.eof && !self.reset {
            let n = buf.len().min(left);
            match self.s.read(&mut buf[..n]) {
                Ok(0) => self.eof = true,
                Ok(k) => {
                    self.inbuf.extend_from_slice(&buf[..k]);
                    self.taken += k;
                    left -= k;
                    any = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => (),
                Err(_) => self.reset = true,
            }
        }
        let mut at = 0;
        while self.inbuf.len() - at >= 9 {
            let h = &self.inbuf[at..];
            check!(h[..4] == [0xC0, 0xA1, 0xBA, 0x11], "malformed", "the peer sees {:02x?} where a frame should begin (after {} frames' worth of bytes)", &h[..9], self.taken - self.inbuf.len() + at);
            let len = u32::from_be_bytes(h[4..8].try_into().unwrap()) as usize;
            check!(len < 50_000_000, "malformed", "the peer sees a frame of {} bytes", len);
            if h.len() < 9 + len {
                break;
            }
            let c = &h[9..9 + len];
            let addr = |c: &[u8]| -> Option<SocketAddr> {
                match c.first() {
                    Some(4) if c.len() >= 7 => Some(SocketAddr::new(IpAddr::from([c[1], c[2], c[3], c[4]]), u16::from_be_bytes([c[5], c[6]]))),
                    _ => None,
                }
            };
            let f = match (h[8], addr(c)) {
                (2, _) => F::Data(c.to_vec()),
                (4, Some(a)) if len == 7 => F::Hello(a),
                (5, Some(a)) if len == 23 => F::Start(a, Uuid::from_slice(&c[7..]).unwrap()),
                (6, _) if len == 0 => F::Ack,
                (7, _) if len == 0 => F::Bye,
                (t, _) => return fail("malformed", format!("the peer sees a frame of type {} with {} bytes: {:02x?}", t, len, &c[..len.min(30)])).map(|()| false),
            };
            self.frames.push_back(f);
            at += 9 + len;
        }
        self.inbuf.drain(..at);
        Ok(any)
    }
    fn gone(&self) -> bool {
        self.eof || self.reset
    }
    /// Writes everything, waiting as long as it must; false if the connection is gone.
    fn put(&mut self, mut b: &[u8]) -> bool {
        let t0 = Instant::now();
        while !b.is_empty() {
            match self.s.write(b) {
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == ErrorKind::WouldBlock || e.kind() == ErrorKind::Interrupted => {
                    if t0.elapsed() > WAIT {
                        return false;
                    }
                    std::thread::sleep(Duration::from_micros(50));
                }
                Err(_) => return false,
            }
        }
        true
    }
    fn drop_by(self, how: usize) {
        match how {
            0 => (),
            1 => sockopt(self.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, libc::linger { l_onoff: 1, l_linger: 0 }),
            _ => {
                let _ = self.s.shutdown(std::net::Shutdown::Both);
            }
        }
    }
}

struct Raw {
    addr: SocketAddr,
    listener: Option<TcpListener>,
    small: bool,
}
impl Raw {
    fn new(small: bool) -> Result<Raw, Failure> {
        let mut r = Raw { addr: SocketAddr::new(fresh_ip(), 0), listener: None, small };
        r.listen()?;
        Ok(r)
    }
    fn listen(&mut self) -> CaseResult {
        for _ in 0..50 {
            match TcpListener::bind(self.addr) {
                Ok(l) => {
                    l.set_nonblocking(true).unwrap();
                    if self.small {
                        sockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, 4096i32);
                    }
                    self.addr = l.local_addr().unwrap();
                    self.listener = Some(l);
                    return Ok(());
                }
                Err(_) => std::thread::sleep(Duration::from_millis(10)),
            }
        }
        undecided("the raw peer could not listen")
    }
    fn accept(&mut self) -> Option<Conn> {
        match self.listener.as_ref()?.accept() {
            Ok((s, _)) => Some(Conn::new(s)),
            Err(_) => None,
        }
    }
}

// ---------------------------------------------------------------- N03

struct Sent {
    wire: Vec<u8>,
    at: Instant,
}
/// How one connection ended, for the account of what may be missing.
struct Ended {
    /// first message that could have been written to it
    id: Uuid,
    acked: bool,
    graceful: bool,
    /// the next expected message when it ended, per stream
    next: Vec<usize>,
}

struct Case3 {
    lab: Lab,
    raw: Raw,
    from: Vec<usize>,
    dst: Vec<ActorPath>,
    /// what every payload of the stream begins with
    prefix: Vec<Vec<u8>>,
    sent: Vec<Vec<Sent>>,
    /// next message expected, per stream
    next: Vec<usize>,
    /// connections that were acknowledged and then lost, since the last message of a stream
    ended: Vec<Ended>,
    ids: Vec<Uuid>,
    lost: usize,
    pokes: usize,
}

impl Case3 {
    fn send(&mut self, k: usize, len: usize, mode: Mode) -> CaseResult {
        let b = Body { tag: k as u32, seq: self.sent[k].len() as u32, flags: 0, len: len as u32 };
        let a = &self.lab.actors[self.from[k]];
        let mut enc = vec![];
        b.put(&mut enc);
        let wire = msg_wire(&a.unique, &self.dst[k], SER, &enc);
        let dst = &self.dst[k];
        // the time is taken before the message can be on its way
        self.sent[k].push(Sent { wire, at: Instant::now() });
        a.c.on_definition(|d| {
            let r = match mode {
                Mode::Lazy => {
                    dst.tell(b.clone(), d);
                    Ok(())
                }
                Mode::Eager => dst.tell_serialised(b.clone(), d),
                Mode::Pre => d.ctx.preserialise(&b).and_then(|c: ChunkRef| dst.tell_preserialised(c, d)),
            };
            match r {
                Ok(()) => Ok(()),
                Err(e) => fail("send-failed", format!("sending {:?} ({:?}) failed: {:?}", b, mode, e)),
            }
        })
    }

    fn lost_seen(&self, id: &Uuid) -> Option<Instant> {
        self.lab.w.status.lock().unwrap().iter().find_map(|(_, at, st)| match st {
            NetworkStatus::ConnectionLost(_, x) | NetworkStatus::ConnectionClosed(_, x) if x.as_u128() == id.as_u128() => Some(*at),
            _ => None,
        })
    }

    /// A data frame came on the connection that is current now.
    fn data(&mut self, d: &[u8]) -> CaseResult {
        // which stream: by the start of the payload
        for k in 0..self.sent.len() {
            let n = self.next[k];
            let head = self.prefix[k].len();
            if d.len() < head + HEAD || d[..head] != self.prefix[k] || d[head + 4..head + 8] != (k as u32).to_be_bytes() {
                continue;
            }
            let seq = u32::from_be_bytes(d[head + 8..head + 12].try_into().unwrap()) as usize;
            check!(seq >= n, "again", "message {} of stream {} came although {} was the next to come", seq, k, n);
            let Some(s) = self.sent[k].get(seq) else {
                return fail("damaged", format!("message {} of stream {} was never sent", seq, k));
            };
            check!(&s.wire[9..] == d, "damaged", "message {} of stream {} came damaged: {} bytes instead of {}", seq, k, d.len(), s.wire.len() - 9);
            if seq > n {
                self.gap(k, n, seq)?;
            }
            self.next[k] = seq + 1;
            return Ok(());
        }
        fail("damaged", format!("a data frame of {} bytes that nobody sent: {:02x?}", d.len(), &d[..d.len().min(60)]))
    }

    /// Messages n..m of stream k are missing: they must have been in flight when a connection was lost.
    fn gap(&self, k: usize, n: usize, m: usize) -> CaseResult {
        for q in n..m {
            let at = self.sent[k][q].at;
            let excused = self.ended.iter().any(|e| {
                e.acked && !e.graceful && e.next[k] <= q && match self.lost_seen(&e.id) {
                    Some(t) => at <= t,
                    None => true,
                }
            });
            check!(excused, "lost", "message {} of stream {} is missing, {} came; it was not in flight when a connection was lost", q, k, m);
        }
        Ok(())
    }

    /// Takes what the frames on the current connection say. `ready`: data may come.
    fn digest(&mut self, c: &mut Conn) -> CaseResult {
        while let Some(f) = c.frames.pop_front() {
            match f {
                F::Data(d) => {
                    check!(c.acked, "early-data", "a data frame came before the connection was acknowledged");
                    check!(!c.bye, "after-bye", "a data frame came after the Bye");
                    self.data(&d)?;
                }
                F::Start(a, id) => {
                    check!(a == self.lab.nodes[0].addr, "handshake", "Start comes from {} instead of {}", a, self.lab.nodes[0].addr);
                    check!(c.id.is_none(), "handshake", "a second Start on one connection");
                    check!(!self.ids.contains(&id), "handshake", "the session id {} was used before", id);
                    self.ids.push(id);
                    c.id = Some(id);
                }
                F::Bye => {
                    check!(c.said && !c.bye, "handshake", "an unexpected Bye");
                    c.bye = true;
                }
                f => return fail("handshake", format!("an unexpected frame {}", f.short())),
            }
        }
        Ok(())
    }

    fn end(&mut self, c: Conn, how: usize, graceful: bool) {
        if let Some(id) = c.id {
            self.ended.push(Ended { id, acked: c.acked, graceful, next: self.next.clone() });
            self.lost += 1;
        }
        c.drop_by(how);
    }

    /// The newest connection that the system opens; it is poked now and then.
    fn connect(&mut self) -> Result<Conn, Failure> {
        let t0 = Instant::now();
        let mut poked = Instant::now();
        loop {
            if let Some(c) = self.raw.accept() {
                return Ok(c);
            }
            if poked.elapsed() > Duration::from_millis(30) {
                poked = Instant::now();
                self.pokes += 1;
                self.send(0, 3, Mode::Lazy)?;
            }
            if t0.elapsed() > WAIT {
                return fail("no-connection", format!("the system opens no connection any more; statuses: {:?}", self.lab.w.status.lock().unwrap().iter().map(|x| format!("{:?}", x.2)).collect::<Vec<_>>())).map(|()| unreachable!());
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }

    /// Reads on `c` until `done`; a newer connection replaces it while the handshake is going on.
    fn until(&mut self, c: &mut Conn, done: impl Fn(&Conn, &Case3) -> bool) -> Result<bool, Failure> {
        let t0 = Instant::now();
        let mut last = c.taken;
        let mut t = t0;
        loop {
            c.pump(usize::MAX)?;
            self.digest(c)?;
            if done(c, self) {
                return Ok(true);
            }
            if c.gone() {
                return Ok(false);
            }
            if !c.acked && let Some(n) = self.raw.accept() {
                let old = std::mem::replace(c, n);
                self.end(old, 0, false);
                return Ok(false);
            }
            if c.taken != last {
                last = c.taken;
                t = Instant::now();
            }
            if t.elapsed() > WAIT {
                return Ok(false);
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Stage {
    /// after so many bytes of the Hello
    Hello(usize),
    /// after the Start came
    Start,
    /// after so many bytes came on the acknowledged connection
    Bytes(usize),
    /// after so many messages came on the acknowledged connection
    Frames(usize),
    /// without reading anything for a while
    Stall,
    /// says Bye after so many messages
    Bye(usize),
    /// does not listen for a while
    Refuse,
}

fn n03(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    if s.chance(1, 3) {
        let r = n03_opens(s, &mut lab);
        lab.dispose();
        return r;
    }
    let large = s.chance(1, 5);
    let chunk;
    {
        let b = buffers(s, 40_000_000);
        chunk = b.chunk_size_bytes();
        let mut c = net_cfg(fresh_ip());
        c.set_connection_retry_interval(100);
        c.set_buffer_config(b);
        c.set_tcp_nodelay(!s.chance(1, 3));
        lab.node(c, s.range(1, 2), true)?;
    }
    let raw = Raw::new(large || s.chance(1, 4))?;
    let mut c = Case3 { lab, raw, from: vec![], dst: vec![], prefix: vec![], sent: vec![], next: vec![], ended: vec![], ids: vec![], lost: 0, pokes: 0 };
    let r = n03_in(s, &mut c, chunk, large);
    c.lab.dispose();
    r
}

fn n03_in(s: &mut Src, c: &mut Case3, chunk: usize, large: bool) -> CaseResult {
    let streams = s.range(1, 2);
    for k in 0..streams {
        let b = if s.flag() { Some(buffers(s, 40_000_000)) } else { None };
        let a = c.lab.actor(0, b)?;
        let sys = SystemPath::new(Transport::Tcp, c.raw.addr.ip(), c.raw.addr.port());
        let dst: ActorPath = if s.flag() { NamedPath::with_system(sys, vec![format!("sink{}", k)]).into() } else { UniquePath::with_system(sys, Uuid::from_u128(77 + k as u128)).into() };
        let w = msg_wire(&c.lab.actors[a].unique, &dst, SER, &[]);
        c.prefix.push(w[9..].to_vec());
        c.from.push(a);
        c.dst.push(dst);
        c.sent.push(vec![]);
        c.next.push(0);
    }
    let mut volume = 0usize;
    let mut batch = |s: &mut Src, c: &mut Case3, big: bool| -> CaseResult {
        let n = if big { 30 + s.range(0, 20) } else { s.size(14).max(s.idx(3)) };
        let k = s.idx(streams);
        let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
        let mut all = 0;
        for _ in 0..n {
            let len = if big { 100_000 + s.range(0, 50_000) } else { size(s, chunk) };
            if volume + len > 10_000_000 {
                break;
            }
            volume += len;
            all += len;
            let k = if s.chance(1, 4) { s.idx(streams) } else { k };
            c.send(k, len, mode)?;
        }
        s.note(|| format!("sends {} messages ({} bytes), {:?}", n, all, mode));
        Ok(())
    };
    let rounds = 1 + s.size(5);
    batch(s, c, false)?;
    for round in 0..=rounds {
        let last = round == rounds;
        let stage = if last {
            Stage::Frames(usize::MAX)
        } else {
            match s.weighted(&[3, 2, 5, 4, if large { 9 } else { 2 }, 4, 1]) {
                0 => Stage::Hello(s.idx(17)),
                1 => Stage::Start,
                2 => Stage::Bytes(s.size(400_000)),
                3 => Stage::Frames(s.size(12)),
                4 => Stage::Stall,
                5 => Stage::Bye(s.size(6)),
                _ => Stage::Refuse,
            }
        };
        let how = s.idx(3);
        s.note(|| format!("connection {}: {:?}, {}", round, stage, ["close", "reset", "shut down"][how]));
        if let Stage::Refuse = stage {
            c.raw.listener = None;
            batch(s, c, false)?;
            std::thread::sleep(Duration::from_millis(s.size(150) as u64));
            c.raw.listen()?;
            continue;
        }
        let mut conn = c.connect()?;
        // the handshake, on the newest connection
        let hello = F::Hello(c.raw.addr).wire();
        let mut over = false;
        let t0 = Instant::now();
        loop {
            if let Stage::Hello(n) = stage
                && n < hello.len()
            {
                conn.put(&hello[..n]);
                std::thread::sleep(Duration::from_micros(s.size(500) as u64));
                conn.pump(usize::MAX)?;
                c.digest(&mut conn)?;
                check!(conn.id.is_none(), "handshake", "Start came before the Hello was complete");
                over = true;
                break;
            }
            let cut = if s.flag() { s.idx(hello.len()) } else { 0 };
            conn.put(&hello[..cut]);
            if cut > 0 && s.flag() {
                std::thread::sleep(Duration::from_micros(s.size(300) as u64));
            }
            conn.put(&hello[cut..]);
            if let Stage::Hello(_) = stage {
                over = true;
                break;
            }
            if c.until(&mut conn, |x, _| x.id.is_some())? {
                break;
            }
            check!(t0.elapsed() < WAIT, "no-handshake", "no handshake succeeds; statuses: {:?}", c.lab.w.status.lock().unwrap());
            if conn.gone() {
                let old = conn;
                c.end(old, 0, false);
                conn = c.connect()?;
            }
        }
        if !over && let Stage::Start = stage {
            over = true;
        }
        if over {
            c.end(conn, how, false);
            continue;
        }
        if s.chance(1, 3) {
            batch(s, c, false)?;
        }
        conn.acked = true;
        if !conn.put(&F::Ack.wire()) {
            // given up in the meantime
            c.end(conn, 0, false);
            continue;
        }
        if s.chance(1, 2) {
            batch(s, c, false)?;
        }
        match stage {
            Stage::Bytes(n) => {
                let t0 = Instant::now();
                while conn.taken < 32 + n && t0.elapsed() < Duration::from_millis(20) && !conn.gone() {
                    let left = 32 + n - conn.taken;
                    conn.pump(left)?;
                    c.digest(&mut conn)?;
                    std::thread::sleep(Duration::from_micros(100));
                }
                c.end(conn, how, false);
            }
            Stage::Stall => {
                batch(s, c, large)?;
                std::thread::sleep(Duration::from_millis(2 + s.size(20) as u64));
                match s.idx(3) {
                    0 => {
                        let n = s.size(300_000);
                        conn.pump(n)?;
                        c.digest(&mut conn)?;
                        c.end(conn, how, false);
                    }
                    1 => c.end(conn, how, false),
                    _ => {
                        bye(s, c, conn)?;
                    }
                }
            }
            Stage::Frames(n) if !last => {
                let goal: usize = c.next.iter().sum::<usize>() + n;
                let t0 = Instant::now();
                while c.next.iter().sum::<usize>() < goal && t0.elapsed() < Duration::from_millis(20) && !conn.gone() {
                    conn.pump(usize::MAX)?;
                    c.digest(&mut conn)?;
                    std::thread::sleep(Duration::from_micros(100));
                }
                c.end(conn, how, false);
            }
            Stage::Bye(n) => {
                let goal: usize = c.next.iter().sum::<usize>() + n;
                let t0 = Instant::now();
                while c.next.iter().sum::<usize>() < goal && t0.elapsed() < Duration::from_millis(20) && !conn.gone() {
                    conn.pump(5000)?;
                    c.digest(&mut conn)?;
                    std::thread::sleep(Duration::from_micros(100));
                }
                if s.flag() {
                    batch(s, c, false)?;
                }
                bye(s, c, conn)?;
            }
            _ => {
                batch(s, c, large)?;
                let end: Vec<usize> = c.sent.iter().map(|x| x.len()).collect();
                let ok = c.until(&mut conn, |_, c| c.next.iter().zip(&end).all(|(a, b)| a >= b))?;
                if !ok {
                    // what is missing now must have been in flight once
                    check!(!conn.gone(), "gone", "the system closed the connection though nothing was wrong with it; statuses: {:?}", c.lab.w.status.lock().unwrap());
                    for k in 0..streams {
                        c.gap(k, c.next[k], end[k])?;
                    }
                }
                s.nontrivial_if(c.lost >= 2);
                s.mark(c.lost as u64 + c.next.iter().sum::<usize>() as u64 * 8);
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Closes the connection in order: everything that is on it comes, then a Bye.
fn bye(s: &mut Src, c: &mut Case3, mut conn: Conn) -> CaseResult {
    conn.said = true;
    if !conn.put(&F::Bye.wire()) {
        c.end(conn, 0, false);
        return Ok(());
    }
    if s.chance(1, 4) {
        // and does not wait for the answer
        std::thread::sleep(Duration::from_micros(s.size(3000) as u64));
        let most = s.size(100_000);
        conn.pump(most)?;
        c.digest(&mut conn)?;
        let graceful = conn.bye;
        let how = s.idx(3);
        s.note(|| format!("does not wait for the answer to the Bye, {} bytes read", most));
        c.end(conn, how, graceful);
        return Ok(());
    }
    let ok = c.until(&mut conn, |x, _| x.bye)?;
    check!(ok || conn.gone() || conn.bye, "no-bye", "the Bye was not answered; statuses: {:?}", c.lab.w.status.lock().unwrap());
    check!(conn.bye, "no-bye", "the connection ended without an answer to the Bye, {} bytes of a frame are left", conn.inbuf.len());
    c.until(&mut conn, |_, _| false).map(|_| ())?;
    check!(conn.gone(), "not-closed", "the connection was not closed after the Bye");
    check!(conn.inbuf.is_empty(), "after-bye", "{} bytes came after the Bye", conn.inbuf.len());
    c.end(conn, 0, true);
    Ok(())
}

impl Conn {
    /// Waits for the next frame.
    fn next(&mut self) -> Result<Option<F>, Failure> {
        let t0 = Instant::now();
        loop {
            if let Some(f) = self.frames.pop_front() {
                return Ok(Some(f));
            }
            if self.gone() || t0.elapsed() > WAIT {
                return Ok(None);
            }
            if !self.pump(usize::MAX)? {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
    }
    /// Writes in pieces.
    fn pieces(&mut self, s: &mut Src, b: &[u8]) -> bool {
        let mut at = 0;
        let tiny = s.chance(1, 3);
        while at < b.len() {
            let n = if tiny { s.range(1, 20) } else { 1 + s.size(100_000) }.min(b.len() - at);
            if !self.put(&b[at..at + n]) {
                return false;
            }
            at += n;
            if s.chance(1, 8) {
                std::thread::sleep(Duration::from_micros(s.size(300) as u64));
            }
            if tiny && at > 500 {
                return self.put(&b[at..]);
            }
        }
        true
    }
}

/// Opens a connection to a system by hand.
fn open(s: &mut Src, to: SocketAddr, me: SocketAddr, id: Uuid) -> Result<Conn, Failure> {
    let Ok(st) = TcpStream::connect_timeout(&to, WAIT) else {
        return fail("refused", "the system refuses the connection").map(|()| unreachable!());
    };
    let mut c = Conn::new(st);
    match c.next()? {
        Some(F::Hello(a)) if a == to => (),
        f => return fail("handshake", format!("instead of a Hello from {} came {:?}", to, f.map(|f| f.short()))).map(|()| unreachable!()),
    }
    let w = F::Start(me, id).wire();
    c.pieces(s, &w);
    match c.next()? {
        Some(F::Ack) => (),
        f => return fail("handshake", format!("instead of an Ack came {:?}{}", f.map(|f| f.short()), if c.gone() { " and the end" } else { "" })).map(|()| unreachable!()),
    }
    c.id = Some(id);
    c.acked = true;
    Ok(c)
}

/// The peer opens the connections, and loses them.
fn n03_opens(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let b = buffers(s, 20_000_000);
    let chunk = b.chunk_size_bytes();
    let mut cfg = net_cfg(fresh_ip());
    s.note(|| format!("the peer opens the connections; {:?}", b));
    cfg.set_connection_retry_interval(20_000);
    cfg.set_buffer_config(b);
    lab.node(cfg, s.range(1, 2), true)?;
    let a = lab.actor(0, None)?;
    let to = lab.nodes[0].addr;
    let raw = Raw::new(false)?;
    let sys = SystemPath::new(Transport::Tcp, raw.addr.ip(), raw.addr.port());
    let src: ActorPath = NamedPath::with_system(sys, vec!["source".to_string()]).into();
    let dst = if s.flag() { lab.actors[a].unique.clone() } else { lab.actors[a].named.clone() };
    let rounds = 1 + s.size(5);
    // per message that A may have got: the session, and whether it must have come
    let mut seq = 0u32;
    let mut had: Vec<(u128, bool)> = vec![];
    let mut answers = 0;
    let mut lost = 0;
    for round in 0..=rounds {
        let last = round == rounds;
        let id = Uuid::from_u128((s.bits() as u128) << 64 | round as u128);
        let mut c = open(s, to, raw.addr, id)?;
        // without any message the system would keep the old connection
        let n = 1 + s.size(12);
        let mut wire = vec![];
        let mut ends = vec![];
        for _ in 0..n {
            let flags = if last && s.flag() { ANSWER } else { 0 };
            let b = Body { tag: 5, seq, flags, len: size(s, chunk) as u32 };
            seq += 1;
            let mut enc = vec![];
            b.put(&mut enc);
            wire.extend(msg_wire(&src, &dst, SER, &enc));
            ends.push(wire.len());
            if flags != 0 {
                answers += 1;
            }
        }
        let cut = if last {
            wire.len()
        } else {
            match s.idx(3) {
                0 => wire.len(),
                1 => (ends[0] + s.idx(wire.len() - ends[0] + 1)).min(wire.len()),
                _ => (ends[s.idx(ends.len())] + s.idx(30)).min(wire.len()),
            }
        };
        let whole = ends.iter().filter(|e| **e <= cut).count();
        let how = s.idx(3);
        let wait = s.flag();
        s.note(|| format!("connection {}: {} messages, {} of {} bytes written, {} whole; {}{}", round, n, cut, wire.len(), whole, if last { "stays" } else { ["close", "reset", "shut down"][how] }, if wait { ", opens the next when these came" } else { "" }));
        check!(c.pieces(s, &wire[..cut]), "gone", "the system closed the connection");
        let before = lab.w.count.load(SeqCst);
        seq -= (n - whole) as u32;
        if last || wait {
            // nothing was cut off from the whole ones
            let more: usize = whole;
            let sure = had.iter().filter(|x| x.1).count();
            let _ = (before, more);
            for _ in 0..whole {
                had.push((id.as_u128(), true));
            }
            if !lab.arrived_of(|r| r.session.map(|x| x.as_u128()) == Some(id.as_u128()), whole) {
                return fail("lost", format!("of {} whole messages written to connection {} only some came, {} before", whole, round, sure));
            }
            if last {
                for k in 0..answers {
                    match c.next()? {
                        Some(F::Data(d)) => {
                            let w = msg_wire(&lab.actors[a].unique, &src, SER, &[]);
                            let p = w.len() - 9;
                            check!(d.len() >= p && d[..p] == w[9..], "answer", "answer {} has unexpected paths", k);
                            match Body::get(&mut &d[p..]) {
                                Ok(b) if b.seq == k && b.tag == 5 | 1 << 16 => (),
                                x => return fail("answer", format!("answer {} is {:?}", k, x)),
                            }
                        }
                        f => return fail("answer", format!("instead of answer {} came {:?}", k, f.map(|f| f.short()))),
                    }
                }
            } else {
                c.drop_by(how);
                lost += 1;
            }
        } else {
            for _ in 0..whole {
                had.push((id.as_u128(), false));
            }
            lab.arrived_of(|r| r.session.map(|x| x.as_u128()) == Some(id.as_u128()), 1);
            c.drop_by(how);
            lost += 1;
        }
    }
    let log = lab.w.log.lock().unwrap();
    let mut k = 0usize;
    for r in log.iter() {
        let b = match &r.body {
            Ok(b) => b,
            Err(e) => return fail("damaged", format!("a message from {} came damaged: {}", r.sender, e)),
        };
        check!(r.sender == src, "damaged", "{:?} seems to come from {}", b, r.sender);
        let q = b.seq as usize;
        check!(q >= k, "order", "{:?} came when {} was to come", b, k);
        check!(q < had.len(), "unknown", "{:?} was not written completely", b);
        check!(r.session.map(|x| x.as_u128()) == Some(had[q].0), "session", "{:?} belongs to session {:?} instead of {:x}", b, r.session, had[q].0);
        for x in k..q {
            check!(!had[x].1, "lost", "message {} is missing", x);
        }
        k = q + 1;
    }
    check!(had[k..].iter().all(|x| !x.1), "lost", "{} messages came of {}", k, had.len());
    s.nontrivial_if(lost >= 2);
    s.mark(lost as u64 + 8 * had.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- N04

/// Bytes that a broken or hostile peer may send; `live`: the handshake is over.
fn hostile(s: &mut Src, me: SocketAddr, src: &ActorPath, real: &ActorPath, live: bool) -> (Vec<u8>, String) {
    let head = |len: u32, ty: u8| {
        let mut v = vec![0xC0, 0xA1, 0xBA, 0x11];
        v.extend_from_slice(&len.to_be_bytes());
        v.push(ty);
        v
    };
    let nowhere: ActorPath = NamedPath::with_system(real.system().clone(), vec!["nobody".to_string()]).into();
    match s.below(if live { 15 } else { 12 }) {
        0 => {
            let n = 1 + s.size(200);
            (s.bytes(n), format!("{} random bytes", n))
        }
        1 => {
            let len = *s.pick(&[u32::MAX, u32::MAX - 8, 1 << 31, 1 << 24, 1_000_000, 10]);
            let ty = s.below(9) as u8;
            let n = s.size(30);
            let mut v = head(len, ty);
            v.extend(s.bytes(n));
            (v, format!("a frame of type {} that claims {} bytes, with {}", ty, len, n))
        }
        2 => {
            let n = s.size(60);
            let ty = *s.pick(&[0u8, 1, 3, 8, 9, 200, 255]);
            let mut v = head(n as u32, ty);
            v.extend(s.bytes(n));
            (v, format!("a frame of the unknown type {}", ty))
        }
        3 => {
            let n = s.size(100);
            let d = s.bytes(n);
            (F::Data(d).wire(), format!("a data frame with {} random bytes", n))
        }
        4 => {
            // a message that breaks off
            let b = Body { tag: 9, seq: 0, flags: 0, len: 10 };
            let mut enc = vec![];
            b.put(&mut enc);
            let w = msg_wire(src, real, SER, &enc);
            let cut = s.idx(w.len() - 9 - HEAD - 10);
            (F::Data(w[9..9 + cut].to_vec()).wire(), format!("a data frame with the first {} bytes of a message", cut))
        }
        5 => {
            let b = Body { tag: 9, seq: 0, flags: 0, len: 10 };
            let mut enc = vec![];
            b.put(&mut enc);
            (msg_wire(src, &nowhere, SER, &enc), "a message to nobody".into())
        }
        6 => {
            let mut w = msg_wire(src, &nowhere, SER, b"xyz");
            let k = 9 + s.idx(w.len() - 9);
            w[k] = s.bits() as u8;
            (w, format!("a message to nobody with byte {} changed", k))
        }
        7 => (F::Ack.wire(), "Ack".into()),
        8 => {
            let n = s.idx(12);
            let mut v = head(n as u32, *s.pick(&[4u8, 5]));
            v.extend(s.bytes(n));
            (v, format!("a Hello or Start with {} random bytes", n))
        }
        9 => (F::Hello(me).wire(), "Hello".into()),
        10 => {
            let n = s.idx(30);
            let w = F::Start(me, Uuid::from_u128(s.bits() as u128)).wire();
            (w[..n].to_vec(), format!("{} bytes of a Start", n))
        }
        11 => {
            let n = 1 + s.idx(9);
            let ty = *s.pick(&[6u8, 7]);
            let mut v = head(n as u32, ty);
            v.extend(s.bytes(n));
            (v, format!("an Ack or Bye with {} bytes of content", n))
        }
        12 => (F::Start(me, Uuid::from_u128(s.bits() as u128)).wire(), "another Start".into()),
        13 => (F::Bye.wire(), "Bye".into()),
        _ => {
            let n = s.size(200_000);
            let d: Vec<u8> = (0..n).map(|k| k as u8).collect();
            (F::Data(d).wire(), format!("a data frame with {} bytes", n))
        }
    }
}

fn n04(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    let r = n04_in(s, &mut lab);
    lab.dispose();
    r
}

fn n04_in(s: &mut Src, lab: &mut Lab) -> CaseResult {
    // with few connections allowed, those that ended must not count
    let tight = s.chance(1, 4);
    for k in 0..2 {
        let mut cfg = net_cfg(fresh_ip());
        if tight {
            cfg.set_soft_connection_limit(8);
            cfg.set_hard_connection_limit(8);
        }
        let b = buffers(s, 20_000_000);
        s.note(|| format!("system {}: {:?}", k, b));
        cfg.set_buffer_config(b);
        lab.node(cfg, s.range(1, 2), true)?;
        lab.actor(k, None)?;
    }
    let traffic = |s: &mut Src, lab: &mut Lab, most: usize, pairs: &[(usize, usize)]| -> CaseResult {
        for _ in 0..1 + s.size(most) {
            let (x, y) = *s.pick(pairs);
            let path = if s.flag() { lab.actors[y].unique.clone() } else { lab.actors[y].named.clone() };
            let len = size(s, 1000).min(3000);
            let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
            lab.send(x, &path, y, (x << 8 | y) as u32, 0, len, mode)?;
        }
        Ok(())
    };
    let pairs = [(0usize, 1usize), (1, 0)];
    lab.send(0, &lab.actors[1].unique.clone(), 1, 0x4000, ANSWER, 0, Mode::Lazy)?;
    if !lab.arrived(lab.total) {
        return lab.verify(true);
    }
    let rogue_ip = fresh_ip();
    let mut open_conns: Vec<Conn> = vec![];
    let mut attacks = 0;
    let udp = std::net::UdpSocket::bind(SocketAddr::new(rogue_ip, 0)).map_err(|e| Failure { sig: "undecided".into(), msg: format!("{}", e).into(), violation: false })?;
    let mut ports = std::collections::BTreeSet::new();
    let rounds = if tight { 10 + s.range(0, 20) } else { 1 + s.size(6) };
    for round in 0..rounds {
        if s.flag() {
            traffic(s, lab, 6, &pairs)?;
        }
        let victim = s.idx(2);
        let to = lab.nodes[victim].addr;
        // sometimes as an earlier one
        let port = if s.chance(1, 3) { 2000 + s.idx(round + 1) } else { 2000 + round } as u16;
        let again = !ports.insert(port);
        let me = SocketAddr::new(rogue_ip, port);
        let sys = SystemPath::new(Transport::Tcp, me.ip(), me.port());
        let src: ActorPath = NamedPath::with_system(sys, vec!["rogue".to_string()]).into();
        let real = lab.actors[victim].unique.clone();
        match s.weighted(&[4, 5, 4, 1]) {
            0 | 1 if s.chance(1, 12) => {
                let n = 1 + s.size(60);
                s.note(|| format!("{} connections that say nothing to system {}", n, victim));
                for _ in 0..n {
                    if let Ok(st) = TcpStream::connect_timeout(&to, WAIT) {
                        let c = Conn::new(st);
                        c.drop_by(s.idx(3));
                    }
                }
                attacks += 1;
            }
            k @ 0..=1 => {
                let live = k == 1;
                let mut c = if live {
                    s.note(|| format!("a connection to system {} after the handshake:", victim));
                    {
                        let id = Uuid::from_u128(s.bits() as u128);
                        match open(s, to, me, id) {
                            Ok(c) => c,
                            // the earlier one is still there
                            Err(_) if again || tight => continue,
                            Err(e) => return Err(e),
                        }
                    }
                } else {
                    s.note(|| format!("a connection to system {} without handshake:", victim));
                    match TcpStream::connect_timeout(&to, WAIT) {
                        Ok(st) => Conn::new(st),
                        Err(_) => return fail("refused", format!("system {} refuses connections", victim)),
                    }
                };
                for _ in 0..s.range(1, 4) {
                    let (b, what) = hostile(s, me, &src, &real, live);
                    s.note(|| what);
                    attacks += 1;
                    if !c.pieces(s, &b) {
                        break;
                    }
                }
                match s.idx(3) {
                    0 if !tight => open_conns.push(c),
                    _ => c.drop_by(s.idx(3)),
                }
            }
            2 => {
                for _ in 0..s.range(1, 4) {
                    let (mut b, what) = match s.idx(3) {
                        0 => (vec![], "an empty datagram".to_string()),
                        _ => hostile(s, me, &src, &real, true),
                    };
                    b.truncate(60_000);
                    s.note(|| format!("to UDP of system {}: {}", victim, what));
                    let _ = udp.send_to(&b, to);
                    attacks += 1;
                }
            }
            _ => std::thread::sleep(Duration::from_micros(s.size(2000) as u64)),
        }
        if s.flag() {
            traffic(s, lab, 6, &pairs)?;
        }
    }
    if tight {
        s.label("tight");
    }
    // the two still talk
    traffic(s, lab, 8, &pairs)?;
    traffic(s, lab, 8, &[(0, 1)])?;
    traffic(s, lab, 8, &[(1, 0)])?;
    lab.arrived(lab.total);
    lab.verify(true)?;
    // and others can still connect, by TCP and UDP
    let c = {
        let cfg = net_cfg(fresh_ip());
        lab.node(cfg, 1, false)?
    };
    let me = lab.actor(c, None)?;
    for y in 0..2 {
        let p = lab.actors[y].unique.clone();
        lab.send(me, &p, y, 0x5000 + y as u32, ANSWER, 10, Mode::Lazy)?;
    }
    if s.flag() {
        traffic(s, lab, 8, &pairs)?;
    }
    lab.arrived(lab.total);
    lab.verify(true)?;
    for y in 0..2 {
        let mut p = lab.actors[y].unique.clone();
        p.set_protocol(Transport::Udp);
        lab.send(me, &p, y, 0x6000 + y as u32, 0, 10, Mode::Lazy)?;
        lab.arrived(lab.total);
        lab.verify(true)?;
    }
    let st = lab.w.status.lock().unwrap();
    let (a, b) = (lab.nodes[0].addr, lab.nodes[1].addr);
    for (_, _, x) in st.iter() {
        match x {
            NetworkStatus::CriticalNetworkFailure => return fail("failure", "the network failed"),
            NetworkStatus::ConnectionLost(p, _) | NetworkStatus::ConnectionClosed(p, _) | NetworkStatus::ConnectionDropped(p) if p.socket_address() == a || p.socket_address() == b => {
                return fail("disturbed", format!("the good connection ended: {:?}", x));
            }
            _ => (),
        }
    }
    s.nontrivial_if(attacks >= 3);
    s.mark(attacks as u64);
    Ok(())
}

// ---------------------------------------------------------------- N06

/// What a socket of this system sends at most.
const DATAGRAM: usize = 65_507;

fn n06(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    let r = n06_in(s, &mut lab);
    lab.dispose();
    r
}

fn n06_in(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let n = s.range(2, 3);
    let mut limit = vec![];
    for k in 0..n {
        let mut cfg = net_cfg(fresh_ip());
        let mut b = buffers(s, 20_000_000);
        if b.chunk_size_bytes() < 256 {
            b.chunk_size(256);
        }
        s.note(|| format!("system {}: {:?}", k, b));
        limit.push(b.chunk_size_bytes().min(DATAGRAM));
        cfg.set_buffer_config(b);
        lab.node(cfg, s.range(1, 2), k == 0)?;
        let b = if s.flag() { Some(buffers(s, 20_000_000)) } else { None };
        lab.actor(k, b)?;
    }
    let rogue = std::net::UdpSocket::bind(SocketAddr::new(fresh_ip(), 0)).map_err(|e| Failure { sig: "undecided".into(), msg: format!("{}", e).into(), violation: false })?;
    // per stream: the messages, with whether each must arrive
    let mut sent: BTreeMap<u32, Vec<(Body, bool, usize)>> = BTreeMap::new();
    let mut must = 0;
    let mut odd = false;
    let mut useful = false;
    for _ in 0..1 + s.size(20) {
        let x = s.idx(n);
        let y = (x + 1 + s.idx(n - 1)) % n;
        match s.weighted(&[8, 2, 1, 2, 1]) {
            0 => {
                let mut path = if s.flag() { lab.actors[y].unique.clone() } else { lab.actors[y].named.clone() };
                path.set_protocol(Transport::Udp);
                let mut sender = lab.actors[x].unique.clone();
                sender.set_protocol(Transport::Udp);
                let over = msg_wire(&sender, &path, SER, &[]).len() + HEAD;
                let burst = if s.chance(1, 3) { 1 + s.idx(8) } else { 1 };
                let tag = (x << 8 | y) as u32;
                let mut flying = 0;
                for _ in 0..burst {
                    let edge = *s.pick(&[limit[x], limit[y], DATAGRAM, 65_535]);
                    let len = match s.weighted(&[4, 3, 3, 1]) {
                        0 => s.size(60),
                        1 => s.size(3000),
                        2 => (edge + 4).saturating_sub(over + s.idx(9)),
                        _ => s.size(140_000),
                    };
                    let flags = if s.chance(1, 4) { NO_HINT } else { 0 };
                    let list = sent.entry(tag).or_default();
                    let b = Body { tag, seq: list.len() as u32, flags, len: len as u32 };
                    let arrives = over + len <= limit[y].min(DATAGRAM);
                    flying += over + len + 1000;
                    list.push((b.clone(), arrives, 0));
                    if arrives {
                        must += 1;
                        useful |= odd;
                    } else {
                        odd = true;
                    }
                    let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
                    s.note(|| format!("{} to {}: {} bytes ({} in all), {:?}{}", x, y, len, over + len, mode, if arrives { "" } else { ", too large" }));
                    let r = lab.actors[x].c.on_definition(|d| match mode {
                        Mode::Lazy => {
                            path.tell(b.clone(), d);
                            Ok(())
                        }
                        Mode::Eager => path.tell_serialised(b.clone(), d),
                        Mode::Pre => d.ctx.preserialise(&b).and_then(|c: ChunkRef| path.tell_preserialised(c, d)),
                    });
                    if let Err(e) = r {
                        return fail("send-failed", format!("sending {:?} ({:?}) failed: {:?}", b, mode, e));
                    }
                    // not more than the socket holds
                    if flying > 60_000 {
                        break;
                    }
                }
                if !lab.arrived(must) {
                    break;
                }
            }
            1 => {
                let to = lab.nodes[y].addr;
                let me = rogue.local_addr().unwrap();
                let sys = SystemPath::new(Transport::Udp, me.ip(), me.port());
                let src: ActorPath = NamedPath::with_system(sys, vec!["rogue".to_string()]).into();
                let real = lab.actors[y].unique.clone();
                for _ in 0..s.range(1, 3) {
                    let (mut b, what) = match s.idx(4) {
                        0 => (vec![], "an empty datagram".to_string()),
                        _ => hostile(s, me, &src, &real, true),
                    };
                    b.truncate(60_000);
                    s.note(|| format!("to {}: {}", y, what));
                    let _ = rogue.send_to(&b, to);
                    odd = true;
                }
            }
            3 => {
                // where nothing can be received
                let at: SocketAddr = match s.idx(7) {
                    0 => SocketAddr::new(fresh_ip(), 0),
                    1 => SocketAddr::new(fresh_ip(), 9),
                    2 => "255.255.255.255:7".parse().unwrap(),
                    3 => "[::1]:7".parse().unwrap(),
                    4 => "[fe80::1]:7".parse().unwrap(),
                    5 => "0.0.0.0:0".parse().unwrap(),
                    _ => "224.0.0.1:0".parse().unwrap(),
                };
                let proto = *s.pick(&[Transport::Udp, Transport::Udp, Transport::Tcp]);
                let path: ActorPath = NamedPath::with_socket(proto, at, vec!["nobody".to_string()]).into();
                for _ in 0..s.range(1, 3) {
                    let b = Body { tag: 0x7001, seq: 0, flags: 0, len: s.size(3000) as u32 };
                    lab.actors[x].c.on_definition(|d| path.tell(b, d));
                }
                s.note(|| format!("{} to {}", x, path));
                odd = true;
            }
            4 => {
                // to itself through the network
                let mut path = lab.actors[x].unique.clone();
                path.set_protocol(Transport::Udp);
                let tag = (x << 8 | x) as u32;
                let list = sent.entry(tag).or_default();
                let b = Body { tag, seq: list.len() as u32, flags: 0, len: s.size(40) as u32 };
                list.push((b.clone(), true, 0));
                must += 1;
                s.note(|| format!("{} to itself", x));
                lab.actors[x].c.on_definition(|d| path.tell(b, d));
                if !lab.arrived(must) {
                    break;
                }
            }
            _ => {
                // by TCP as well
                let path = lab.actors[y].unique.clone();
                let b = Body { tag: 0x7000, seq: 0, flags: 0, len: 5 };
                lab.actors[x].c.on_definition(|d| path.tell(b, d));
                s.note(|| format!("{} to {} by TCP", x, y));
                must += 1;
                if !lab.arrived(must) {
                    break;
                }
            }
        }
    }
    lab.arrived(must);
    let log = lab.w.log.lock().unwrap();
    for r in log.iter() {
        let from = SocketAddr::new(*r.sender.address(), r.sender.system().port());
        if !lab.nodes.iter().any(|n| n.addr == from) {
            continue;
        }
        let b = match &r.body {
            Ok(b) => b,
            Err(e) => return fail("damaged", format!("actor {} received a damaged message from {}: {}", r.peer, r.sender, e)),
        };
        if b.tag == 0x7000 {
            continue;
        }
        let (x, y) = ((b.tag >> 8) as usize, (b.tag & 255) as usize);
        let Some(e) = sent.get_mut(&b.tag).and_then(|l| l.get_mut(b.seq as usize)) else {
            return fail("unknown", format!("{:?} was never sent", b));
        };
        check!(e.0 == *b, "damaged", "{:?} arrived instead of {:?}", b, e.0);
        check!(r.peer == y && from == lab.nodes[x].addr && r.sender.protocol() == Transport::Udp, "wrong-receiver", "{:?} arrived at {} from {}", b, r.peer, r.sender);
        e.2 += 1;
        check!(e.2 == 1, "twice", "{:?} arrived again", b);
    }
    for (t, l) in &sent {
        if let Some(e) = l.iter().find(|e| e.1 && e.2 == 0) {
            return fail("lost", format!("stream {:x}: {:?} did not arrive", t, e.0));
        }
    }
    let st = lab.w.status.lock().unwrap();
    check!(!st.iter().any(|x| matches!(x.2, NetworkStatus::CriticalNetworkFailure)), "failure", "the network failed");
    s.nontrivial_if(useful);
    s.mark(must as u64);
    Ok(())
}

// ---------------------------------------------------------------- N05

struct Party {
    raw: Raw,
    conn: Option<Conn>,
    path: ActorPath,
    seq: [u32; 2],
}

/// The rules as documented: one set of addresses, and explicit rules for systems that win.
#[derive(Default)]
struct Rules {
    ips: BTreeSet<IpAddr>,
    system: BTreeMap<SocketAddr, bool>,
}
impl Rules {
    fn allows(&self, a: &SocketAddr) -> bool {
        match self.system.get(a) {
            Some(x) => *x,
            None => !self.ips.contains(&a.ip()),
        }
    }
}

struct Case5 {
    lab: Lab,
    sentinel: Raw,
    sentinels: usize,
    parties: Vec<Party>,
}

impl Case5 {
    fn ask(&self, r: NetworkStatusRequest) {
        self.lab.nodes[0].watcher.as_ref().unwrap().actor_ref().tell(r);
    }
    /// All requests so far were carried out when this returns.
    fn barrier(&mut self) -> CaseResult {
        self.sentinels += 1;
        self.ask(NetworkStatusRequest::ConnectSystem(SystemPath::with_socket(Transport::Tcp, self.sentinel.addr)));
        let t0 = Instant::now();
        while t0.elapsed() < WAIT {
            if let Some(c) = self.sentinel.accept() {
                drop(c);
                return Ok(());
            }
            std::thread::sleep(Duration::from_micros(30));
        }
        fail("unrelated", "an unrelated system can not be connected to any more")
    }
    /// The connection of a party works in both directions.
    fn works(&mut self, k: usize) -> CaseResult {
        let p = &mut self.parties[k];
        let a = &self.lab.actors[0];
        let c = p.conn.as_mut().unwrap();
        let b = Body { tag: 1 << 8 | k as u32, seq: p.seq[0], flags: 0, len: 20 };
        p.seq[0] += 1;
        let path = &p.path;
        a.c.on_definition(|d| path.tell(b.clone(), d));
        match c.next()? {
            Some(F::Data(d)) => {
                let mut enc = vec![];
                b.put(&mut enc);
                check!(msg_wire(&a.unique, path, SER, &enc)[9..] == d[..], "damaged", "party {} received another message than {:?}", k, b);
            }
            f => return fail("cut-off", format!("party {} is allowed and connected, but instead of {:?} it receives {:?}{}", k, b, f.map(|f| f.short()), if c.gone() { " and the end" } else { "" })),
        }
        let b = Body { tag: 2 << 8 | k as u32, seq: p.seq[1], flags: 0, len: 20 };
        p.seq[1] += 1;
        let mut enc = vec![];
        b.put(&mut enc);
        let w = msg_wire(path, &a.unique, SER, &enc);
        check!(c.put(&w), "cut-off", "party {} is allowed and connected, but can not send", k);
        let src = path.clone();
        if !self.lab.arrived_of(|r| r.sender == src && r.body.as_ref().is_ok_and(|x| *x == b), 1) {
            return fail("cut-off", format!("{:?} of party {} which is allowed and connected does not arrive", b, k));
        }
        Ok(())
    }
    /// The connection of a party must end now.
    fn ends(&mut self, k: usize) -> CaseResult {
        let mut c = self.parties[k].conn.take().unwrap();
        let t0 = Instant::now();
        while !c.gone() && t0.elapsed() < WAIT {
            c.pump(usize::MAX)?;
            std::thread::sleep(Duration::from_micros(30));
        }
        check!(c.gone(), "not-dropped", "party {} became blocked but its connection stays", k);
        Ok(())
    }
    fn established(&self, id: Uuid) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < WAIT {
            if self.lab.w.status.lock().unwrap().iter().any(|x| matches!(&x.2, NetworkStatus::ConnectionEstablished(_, i) if i.as_u128() == id.as_u128())) {
                return true;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
        false
    }
}

fn n05(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    // no connection is tried again by itself
    let mut cfg = net_cfg(fresh_ip());
    cfg.set_connection_retry_interval(600_000);
    lab.node(cfg, s.range(1, 2), true)?;
    lab.actor(0, None)?;
    let mut c = Case5 { lab, sentinel: Raw::new(false)?, sentinels: 0, parties: vec![] };
    let r = n05_in(s, &mut c);
    c.lab.dispose();
    r
}

fn n05_in(s: &mut Src, c: &mut Case5) -> CaseResult {
    let base = fresh_ip();
    let IpAddr::V4(b4) = base else { unreachable!() };
    let [_, b, d, _] = b4.octets();
    // addresses that differ in few bits, so that networks hold some of them
    let ip = |x: u8| IpAddr::from([127, 128 + b % 120, d, x]);
    let hosts: Vec<u8> = (0..s.range(1, 3)).map(|_| *s.pick(&[2u8, 3, 2, 3, 1, 6, 130])).collect();
    for k in 0..s.range(1, 4) {
        let a = SocketAddr::new(ip(*s.pick(&hosts)), 0);
        let mut raw = Raw { addr: a, listener: None, small: false };
        raw.listen()?;
        let sys = SystemPath::new(Transport::Tcp, raw.addr.ip(), raw.addr.port());
        s.note(|| format!("party {} at 127.x.y.{}:{}", k, match raw.addr.ip() { IpAddr::V4(x) => x.octets()[3], _ => 0 }, if k > 0 { "other port" } else { "port" }));
        c.parties.push(Party { path: NamedPath::with_system(sys, vec![format!("party{}", k)]).into(), raw, conn: None, seq: [0, 0] });
    }
    let n = c.parties.len();
    let universe: BTreeSet<IpAddr> = hosts.iter().map(|h| ip(*h)).collect();
    let mut rules = Rules::default();
    let mut touched: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut made, mut refused, mut given) = (0, 0, 0);
    let to = c.lab.nodes[0].addr;
    for step in 0..2 + s.size(24) {
        match s.weighted(&[5, 3, 3]) {
            0 => {
                let m = 1 + if s.chance(1, 4) { s.idx(3) } else { 0 };
                for _ in 0..m {
                    given += 1;
                    let block = s.chance(3, 5);
                    match s.weighted(&[4, 3, 3, 1]) {
                        0 => {
                            let k = s.idx(n);
                            let a = c.parties[k].raw.addr;
                            s.note(|| format!("{} system {}", if block { "block" } else { "allow" }, k));
                            let p = SystemPath::with_socket(Transport::Tcp, a);
                            c.ask(if block { NetworkStatusRequest::BlockSystem(p) } else { NetworkStatusRequest::AllowSystem(p) });
                            rules.system.insert(a, !block);
                            *touched.entry(k).or_insert(0) += 1;
                        }
                        1 => {
                            let h = *s.pick(&hosts);
                            s.note(|| format!("{} address {}", if block { "block" } else { "allow" }, h));
                            c.ask(if block { NetworkStatusRequest::BlockIp(ip(h)) } else { NetworkStatusRequest::AllowIp(ip(h)) });
                            if block {
                                rules.ips.insert(ip(h));
                            } else {
                                rules.ips.remove(&ip(h));
                            }
                            for k in 0..n {
                                if c.parties[k].raw.addr.ip() == ip(h) {
                                    *touched.entry(k).or_insert(0) += 1;
                                }
                            }
                        }
                        2 => {
                            let h = if s.chance(1, 3) { s.idx(256) as u8 } else { *s.pick(&hosts) };
                            let len = if s.flag() { s.range(24, 32) } else { s.range(30, 32) } as u8;
                            let net = IpNet::new(ip(h), len).unwrap();
                            s.note(|| format!("{} network {}/{}", if block { "block" } else { "allow" }, h, len));
                            c.ask(if block { NetworkStatusRequest::BlockIpNet(net) } else { NetworkStatusRequest::AllowIpNet(net) });
                            for i in &universe {
                                if net.contains(i) {
                                    if block {
                                        rules.ips.insert(*i);
                                    } else {
                                        rules.ips.remove(i);
                                    }
                                }
                            }
                            for k in 0..n {
                                if net.contains(&c.parties[k].raw.addr.ip()) {
                                    *touched.entry(k).or_insert(0) += 1;
                                }
                            }
                        }
                        _ => {
                            // concerns nobody here
                            let v6 = IpAddr::from([0u16, 0, 0, 0, 0, 0xffff, 0x7f00, s.idx(256) as u16]);
                            let r = match s.idx(3) {
                                0 => NetworkStatusRequest::BlockIp(v6),
                                1 => NetworkStatusRequest::AllowIp(v6),
                                _ => NetworkStatusRequest::BlockIpNet(IpNet::new(v6, 96).unwrap()),
                            };
                            s.note(|| format!("{:?}", r));
                            c.ask(r);
                        }
                    }
                    // what happens to a connection depends on every single rule
                    c.barrier()?;
                    for k in 0..n {
                        if c.parties[k].conn.is_some() {
                            if rules.allows(&c.parties[k].raw.addr) {
                                if s.chance(1, 2) {
                                    c.works(k)?;
                                }
                            } else {
                                c.ends(k)?;
                                refused += 1;
                            }
                        }
                    }
                }
            }
            1 => {
                // it connects
                let k = s.idx(n);
                if c.parties[k].conn.is_some() {
                    c.works(k)?;
                    continue;
                }
                let me = c.parties[k].raw.addr;
                let id = Uuid::from_u128((s.bits() as u128) << 16 | step as u128);
                let allowed = rules.allows(&me);
                s.note(|| format!("party {} connects, {}", k, if allowed { "allowed" } else { "blocked" }));
                let conn = match connect_from(me.ip(), to) {
                    Ok(x) => x,
                    Err(e) => return fail("refused", format!("no connection is accepted: {:?}", e)),
                };
                let mut conn = Conn::new(conn);
                let mut good = false;
                match conn.next()? {
                    Some(F::Hello(a)) => {
                        check!(a == to, "handshake", "Hello from {} instead of {}", a, to);
                        conn.put(&F::Start(me, id).wire());
                        match conn.next()? {
                            Some(F::Ack) => good = true,
                            None if conn.gone() => (),
                            f => return fail("handshake", format!("instead of Ack came {:?}", f.map(|f| f.short()))),
                        }
                    }
                    None if conn.gone() => (),
                    f => return fail("handshake", format!("instead of Hello came {:?}", f.map(|f| f.short()))),
                }
                check!(good == allowed, "incoming", "party {} at {} is {} by the rules but its connection was {}", k, me, if allowed { "allowed" } else { "blocked" }, if good { "accepted" } else { "refused" });
                if good {
                    made += 1;
                    c.parties[k].conn = Some(conn);
                    check!(c.established(id), "status", "the accepted connection of party {} was not reported", k);
                    c.works(k)?;
                } else {
                    refused += 1;
                }
            }
            _ => {
                // it is connected to
                let k = s.idx(n);
                if c.parties[k].conn.is_some() {
                    c.works(k)?;
                    continue;
                }
                let me = c.parties[k].raw.addr;
                let allowed = rules.allows(&me);
                s.note(|| format!("party {} is connected to, {}", k, if allowed { "allowed" } else { "blocked" }));
                c.ask(NetworkStatusRequest::ConnectSystem(SystemPath::with_socket(Transport::Tcp, me)));
                c.barrier()?;
                let got = c.parties[k].raw.accept();
                check!(got.is_some() == allowed, "outgoing", "party {} at {} is {} by the rules but a connection to it was {}", k, me, if allowed { "allowed" } else { "blocked" }, if got.is_some() { "opened" } else { "not opened" });
                if let Some(mut conn) = got {
                    conn.put(&F::Hello(me).wire());
                    let id = match conn.next()? {
                        Some(F::Start(a, id)) if a == to => id,
                        f => return fail("handshake", format!("instead of Start came {:?}", f.map(|f| f.short()))),
                    };
                    conn.put(&F::Ack.wire());
                    made += 1;
                    c.parties[k].conn = Some(conn);
                    check!(c.established(id), "status", "the accepted connection of party {} was not reported", k);
                    c.works(k)?;
                } else {
                    refused += 1;
                }
            }
        }
    }
    // whoever is not connected shows at last which rules hold for it
    for k in 0..n {
        if c.parties[k].conn.is_none() {
            let me = c.parties[k].raw.addr;
            let allowed = rules.allows(&me);
            c.ask(NetworkStatusRequest::ConnectSystem(SystemPath::with_socket(Transport::Tcp, me)));
            c.barrier()?;
            let got = c.parties[k].raw.accept();
            check!(got.is_some() == allowed, "outgoing", "party {} at {} is {} by the rules but at the end a connection to it was {}", k, me, if allowed { "allowed" } else { "blocked" }, if got.is_some() { "opened" } else { "not opened" });
        }
    }
    s.nontrivial_if(given >= 3 && made > 0 && refused > 0 && touched.values().any(|x| *x >= 2));
    s.mark(given as u64 * 64 + made as u64 * 8 + refused as u64);
    Ok(())
}

/// Connects from a given address.
fn connect_from(ip: IpAddr, to: SocketAddr) -> std::io::Result<TcpStream> {
    use std::os::fd::FromRawFd;
    let v4 = |a: SocketAddr| match a {
        SocketAddr::V4(a) => libc::sockaddr_in { sin_family: libc::AF_INET as u16, sin_port: a.port().to_be(), sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes(a.ip().octets()) }, sin_zero: [0; 8] },
        _ => unreachable!(),
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let st = TcpStream::from_raw_fd(fd);
        let n = std::mem::size_of::<libc::sockaddr_in>() as u32;
        let a = v4(SocketAddr::new(ip, 0));
        if libc::bind(fd, &a as *const _ as *const libc::sockaddr, n) < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let a = v4(to);
        if libc::connect(fd, &a as *const _ as *const libc::sockaddr, n) < 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(st)
    }
}

// ---------------------------------------------------------------- N02

fn n02(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    let r = n02_in(s, &mut lab);
    let r = r.and_then(|()| lab.verify(true)).and_then(|()| sessions(&lab));
    let r = r.map_err(|e| lab.told(e));
    lab.dispose();
    r
}

/// What a system reports about a connection alternates, and every session is another one.
fn sessions(lab: &Lab) -> CaseResult {
    let st = lab.w.status.lock().unwrap();
    for (i, _) in lab.nodes.iter().enumerate() {
        let mut up: BTreeMap<SocketAddr, SessionId> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        for (_, _, e) in st.iter().filter(|x| x.0 == i) {
            match e {
                NetworkStatus::ConnectionEstablished(p, id) => {
                    let a = p.socket_address();
                    check!(!up.contains_key(&a), "status", "system {} reports the connection {:?} to {} established while {:?} is", i, id, a, up[&a]);
                    check!(seen.insert(id.as_u128()), "status", "system {} reports the session {:?} established again", i, id);
                    up.insert(a, *id);
                }
                NetworkStatus::ConnectionClosed(p, id) | NetworkStatus::ConnectionLost(p, id) => {
                    let a = p.socket_address();
                    check!(up.get(&a) == Some(id), "status", "system {} reports {:?} while {:?} is established", i, e, up.get(&a));
                    up.remove(&a);
                }
                NetworkStatus::ConnectionDropped(_) => return fail("status", format!("system {} reports {:?}", i, e)),
                _ => (),
            }
        }
    }
    Ok(())
}

impl Lab {
    /// With KV_STATUS, all that the systems reported.
    fn told(&self, mut e: Failure) -> Failure {
        if std::env::var("KV_STATUS").is_ok() {
            let st = self.w.status.lock().unwrap();
            if let Some((_, t0, _)) = st.first() {
                let l: Vec<String> = st.iter().map(|(i, t, e)| format!("{:?} system {} {:?}", t.duration_since(*t0), i, e)).collect();
                let l2: Vec<String> = self.nodes.iter().map(|n| n.addr.to_string()).collect();
                e.msg = format!("{}\n{}\n{}", e.msg, l2.join(" "), l.join("\n")).into();
            }
        }
        e
    }
    fn ask(&self, node: usize, r: NetworkStatusRequest) {
        self.nodes[node].watcher.as_ref().unwrap().actor_ref().tell(r);
    }
    /// How often a system reported a connection to another one established.
    fn begins(&self, node: usize, other: usize) -> usize {
        let a = self.nodes[other].addr;
        let st = self.w.status.lock().unwrap();
        st.iter().filter(|(i, _, e)| *i == node && matches!(e, NetworkStatus::ConnectionEstablished(p, _) if p.socket_address() == a)).count()
    }
    /// How often a system reported a connection to another one ended.
    fn ends(&self, node: usize, other: usize) -> usize {
        let a = self.nodes[other].addr;
        let st = self.w.status.lock().unwrap();
        st.iter().filter(|(i, _, e)| *i == node && matches!(e, NetworkStatus::ConnectionClosed(p, _) | NetworkStatus::ConnectionLost(p, _) if p.socket_address() == a)).count()
    }
    /// What the last report of a system says about its connection to another one.
    fn is_up(&self, node: usize, other: usize) -> bool {
        let a = self.nodes[other].addr;
        let st = self.w.status.lock().unwrap();
        for (i, _, e) in st.iter().rev() {
            if *i == node {
                match e {
                    NetworkStatus::ConnectionEstablished(p, _) if p.socket_address() == a => return true,
                    NetworkStatus::ConnectionClosed(p, _) | NetworkStatus::ConnectionLost(p, _) if p.socket_address() == a => return false,
                    _ => (),
                }
            }
        }
        false
    }
}

fn n02_in(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let n = if s.chance(1, 6) { 3 } else { 2 };
    let flood = s.chance(1, 6);
    let most = if flood { 30_000_000 } else { 4_000_000 };
    let mut chunk = vec![];
    for _ in 0..n {
        let b = buffers(s, most);
        chunk.push(b.chunk_size_bytes());
        let mut c = net_cfg(fresh_ip());
        c.set_buffer_config(b);
        lab.node(c, s.range(1, 2), true)?;
        for _ in 0..s.range(1, 2) {
            let b = if s.flag() { Some(buffers(s, most)) } else { None };
            lab.actor(lab.nodes.len() - 1, b)?;
        }
    }
    // connections come up one after the other
    for i in 0..n {
        for j in i + 1..n {
            let (x, y) = (lab.nodes[i].peers[0], lab.nodes[j].peers[0]);
            let path = lab.actors[y].unique.clone();
            lab.send(x, &path, y, (0x4000 + i * 8 + j) as u32, ANSWER, 0, Mode::Lazy)?;
            if !lab.arrived(lab.total) {
                return Ok(());
            }
        }
    }
    for a in 0..lab.actors.len() {
        lab.slow(a)?;
    }
    let a = lab.actors.len();
    // at any time, or waiting until they are done, with the connection opened again or left to the messages
    let free = s.chance(2, 3);
    let both = s.flag();
    s.note(|| format!("{} systems, closes {}", n, if free { "at any time" } else if both { "are waited for" } else { "are waited for and undone" }));
    let mut bytes = 0;
    let mut closes = 0;
    let mut crossed = 0;
    for _ in 0..3 + s.range(0, 14) {
        let op = s.weighted(&[5, 4, 1, 2, if free { 4 } else { 0 }]);
        s.mark((op * 1000 + crossed) as u64);
        match op {
            4 => {
                // a storm: closes, opens and short messages of both sides, as fast as they can be issued
                let x = s.idx(n);
                let y = (x + 1 + s.idx(n - 1)) % n;
                let (px, py) = (lab.nodes[x].peers[0], lab.nodes[y].peers[0]);
                let ends = [(x, y, px, py), (y, x, py, px)];
                let mut what = vec![];
                for _ in 0..3 + s.range(0, 14) {
                    let (i, j, from, to) = ends[s.idx(2)];
                    match s.weighted(&[6, 3, 2, 2, 1]) {
                        4 => {
                            // a request that names no connection
                            let k = s.idx(6);
                            let proto = *s.pick(&[Transport::Udp, Transport::Local]);
                            let p = match k % 3 {
                                0 => SystemPath::with_socket(proto, lab.nodes[j].addr),
                                1 => SystemPath::with_socket(proto, lab.nodes[i].addr),
                                _ => lab.nodes[i].sys.system_path(),
                            };
                            what.push(format!("{} {} {}", i, if k < 3 { "opens" } else { "closes" }, p));
                            lab.ask(i, if k < 3 { NetworkStatusRequest::ConnectSystem(p) } else { NetworkStatusRequest::DisconnectSystem(p) });
                        }
                        0 => {
                            let path = lab.actors[to].unique.clone();
                            let flags = if s.chance(1, 3) { ANSWER } else { 0 };
                            lab.send(from, &path, to, (from << 8 | to << 1) as u32, flags, s.below(100) as usize, Mode::Lazy)?;
                            crossed += 1;
                            what.push(format!("{} sends", i));
                        }
                        1 => {
                            lab.ask(i, NetworkStatusRequest::DisconnectSystem(lab.nodes[j].sys.system_path()));
                            closes += 1;
                            what.push(format!("{} closes", i));
                        }
                        2 => {
                            lab.ask(i, NetworkStatusRequest::ConnectSystem(lab.nodes[j].sys.system_path()));
                            what.push(format!("{} opens", i));
                        }
                        _ => {
                            let us = s.size(400) as u64;
                            std::thread::sleep(Duration::from_micros(us));
                            what.push(format!("{} us", us));
                        }
                    }
                }
                s.note(|| format!("{} and {}: {}", x, y, what.join(", ")));
            }
            0 => {
                let from = s.idx(a);
                let to = s.idx(a);
                if lab.actors[from].node == lab.actors[to].node {
                    continue;
                }
                let slow = s.chance(1, 3);
                let p = &lab.actors[to];
                let path = if slow { p.slow.clone().unwrap() } else { p.unique.clone() };
                let large = flood && s.flag();
                let burst = 1 + if large { 40 } else { s.size(12) };
                let flags = if s.chance(1, 3) && !large { ANSWER } else { 0 };
                let tag = (from << 8 | to << 1 | slow as usize) as u32;
                let mode = *s.pick(&[Mode::Lazy, Mode::Eager, Mode::Pre]);
                let mut sizes = 0;
                for _ in 0..burst {
                    let len = if large { 100_000 } else { size(s, chunk[lab.actors[from].node]) };
                    if bytes + 2 * len > most / 2 {
                        break;
                    }
                    bytes += 2 * len + 200;
                    sizes += len;
                    lab.send(from, &path, to, tag, flags, len, mode)?;
                    crossed += 1;
                }
                let cut = free && large && s.chance(2, 3);
                s.note(|| format!("{} to {}{}: up to {} messages ({} bytes), {:?}, flags {}{}", from, to, if slow { " (slow)" } else { "" }, burst, sizes, mode, flags, if cut { ", a close and some more" } else { "" }));
                if cut {
                    let (x, y) = (lab.actors[from].node, lab.actors[to].node);
                    let (x, y) = if s.chance(2, 3) { (x, y) } else { (y, x) };
                    lab.ask(x, NetworkStatusRequest::DisconnectSystem(lab.nodes[y].sys.system_path()));
                    closes += 1;
                    for _ in 0..1 + s.size(6) {
                        let us = s.size(1000) as u64;
                        if us > 0 {
                            std::thread::sleep(Duration::from_micros(us));
                        }
                        let len = s.below(100) as usize;
                        lab.send(from, &path, to, tag, 0, len, mode)?;
                        crossed += 1;
                    }
                }
            }
            1 => {
                // a close
                let x = s.idx(n);
                let y = (x + 1 + s.idx(n - 1)) % n;
                if !free {
                    // the connection is up on both sides
                    let t0 = Instant::now();
                    while !(lab.is_up(x, y) && lab.is_up(y, x)) && t0.elapsed() < Duration::from_millis(100) {
                        std::thread::sleep(Duration::from_micros(50));
                    }
                    if !(lab.is_up(x, y) && lab.is_up(y, x)) {
                        continue;
                    }
                }
                let two = s.chance(1, 3);
                let before = (lab.ends(x, y), lab.ends(y, x));
                let begun = (lab.begins(x, y), lab.begins(y, x));
                s.note(|| format!("{} closes the connection to {}{}", x, y, if two { ", which does so as well" } else { "" }));
                lab.ask(x, NetworkStatusRequest::DisconnectSystem(lab.nodes[y].sys.system_path()));
                if two {
                    lab.ask(y, NetworkStatusRequest::DisconnectSystem(lab.nodes[x].sys.system_path()));
                }
                closes += 1;
                if !free {
                    let t0 = Instant::now();
                    while (lab.ends(x, y) == before.0 || lab.ends(y, x) == before.1) && t0.elapsed() < WAIT {
                        std::thread::sleep(Duration::from_micros(50));
                    }
                    check!(lab.ends(x, y) > before.0 && lab.ends(y, x) > before.1, "close", "{} and {} do not both report their connection closed", x, y);
                    if !both {
                        // one of them opens it again
                        let (i, j) = if s.flag() { (x, y) } else { (y, x) };
                        s.note(|| format!("{} opens it again", i));
                        lab.ask(i, NetworkStatusRequest::ConnectSystem(lab.nodes[j].sys.system_path()));
                        let t0 = Instant::now();
                        while !(lab.begins(x, y) > begun.0 && lab.begins(y, x) > begun.1) && t0.elapsed() < WAIT {
                            std::thread::sleep(Duration::from_micros(50));
                        }
                        check!(lab.begins(x, y) > begun.0 && lab.begins(y, x) > begun.1, "open", "the connection between {} and {} does not come up again", x, y);
                    }
                }
            }
            2 => {
                let us = if s.flag() { 0 } else { s.range(20, 1000) as u64 };
                s.note(|| format!("slow means {} us", us));
                lab.w.stall_us.store(us, SeqCst);
            }
            _ => match s.weighted(&[3, 1]) {
                0 => std::thread::sleep(Duration::from_micros(s.size(2000) as u64)),
                _ => {
                    lab.arrived(lab.total);
                }
            },
        }
    }
    s.nontrivial_if(crossed >= 10 && closes >= 2);
    s.mark(crossed as u64 * 16 + closes as u64);
    lab.w.stall_us.store(0, SeqCst);
    lab.arrived(lab.total);
    Ok(())
}

// ---------------------------------------------------------------- N07

fn n07(s: &mut Src) -> CaseResult {
    let mut lab = Lab::default();
    let kind = s.weighted(&[4, 2, 2]);
    let kind = std::env::var("KV_KIND").ok().and_then(|k| k.parse().ok()).unwrap_or(kind);
    let r = match kind {
        0 => {
            let mut c = Case7 { lab, actor: 0, soft: 0, hard: 0, peers: vec![], halves: vec![], now: 0, softs: 0 };
            let r = n07_limits(s, &mut c).map_err(|e| c.lab.told(e));
            c.lab.dispose();
            return r;
        }
        1 => n07_hub(s, &mut lab).map_err(|e| lab.told(e)),
        _ => n07_meet(s, &mut lab),
    };
    lab.dispose();
    r
}

struct Far {
    raw: Raw,
    dst: ActorPath,
    src: ActorPath,
    conn: Option<Conn>,
    /// when the connection was used last
    last: usize,
    /// the system began to close the connection
    closing: bool,
    /// the system wants a connection and has none
    pending: bool,
    /// messages sent to the peer, and those that came
    want: u32,
    got: u32,
    /// messages from the peer
    sent: u32,
}

struct Case7 {
    lab: Lab,
    actor: usize,
    soft: usize,
    hard: usize,
    peers: Vec<Far>,
    /// connections without a complete handshake
    halves: Vec<Conn>,
    now: usize,
    softs: usize,
}

impl Case7 {
    fn open(&self) -> usize {
        self.peers.iter().filter(|p| p.conn.is_some()).count() + self.halves.len()
    }
    fn up(&self) -> usize {
        self.peers.iter().filter(|p| p.conn.is_some() && !p.closing).count()
    }
    fn room(&self) -> bool {
        self.open() < self.hard
    }
    fn reports(&self, want: &NetworkStatus) -> usize {
        let st = self.lab.w.status.lock().unwrap();
        let d = std::mem::discriminant(want);
        st.iter().filter(|(_, _, e)| std::mem::discriminant(e) == d).count()
    }
    fn reported(&self, want: &NetworkStatus, n: usize) -> CaseResult {
        let t0 = Instant::now();
        while self.reports(want) < n {
            check!(t0.elapsed() < WAIT, "status", "{:?} was reported {} times instead of {}", want, self.reports(want), n);
            std::thread::sleep(Duration::from_micros(50));
        }
        Ok(())
    }

    /// Takes what came on the connection of a peer.
    fn take(&mut self, p: usize) -> CaseResult {
        let me = self.lab.actors[self.actor].unique.clone();
        let f = &mut self.peers[p];
        let Some(c) = f.conn.as_mut() else { return Ok(()) };
        c.pump(usize::MAX)?;
        while let Some(x) = c.frames.pop_front() {
            match x {
                F::Data(d) => {
                    check!(!c.bye, "after-bye", "data came to peer {} after the Bye", p);
                    check!(f.got < f.want, "unknown", "peer {} received a message although all came", p);
                    let b = Body { tag: p as u32, seq: f.got, flags: 0, len: f.got % 50 };
                    let mut enc = vec![];
                    b.put(&mut enc);
                    let w = msg_wire(&me, &f.dst, SER, &enc);
                    check!(d == w[9..], "damaged", "what peer {} received is not its message {}", p, f.got);
                    f.got += 1;
                }
                F::Bye => {
                    check!(!c.bye, "handshake", "two Byes came to peer {}", p);
                    c.bye = true;
                }
                x => return fail("handshake", format!("peer {} received {} on a complete connection", p, x.short())),
            }
        }
        Ok(())
    }

    /// All connections are as they should be: open, and not being closed.
    fn steady(&mut self) -> CaseResult {
        for p in 0..self.peers.len() {
            self.take(p)?;
            let f = &self.peers[p];
            if let Some(c) = &f.conn
                && !f.closing
            {
                check!(!c.bye && !c.gone(), "closed", "the connection to peer {} is being closed with {} of {} connections ({} complete, soft limit {})", p, self.open(), self.hard, self.up(), self.soft);
            }
        }
        for c in &mut self.halves {
            c.pump(usize::MAX)?;
            check!(!c.gone() && c.frames.is_empty(), "closed", "the connection without handshake was closed or more than Hello came on it");
        }
        Ok(())
    }

    /// What was sent to a peer has come.
    fn flush(&mut self, p: usize) -> CaseResult {
        let t0 = Instant::now();
        loop {
            self.take(p)?;
            let f = &self.peers[p];
            if f.got == f.want {
                return Ok(());
            }
            check!(!f.conn.as_ref().unwrap().gone() && t0.elapsed() < WAIT, "lost", "only {} of {} messages came to peer {}, the connection {}", f.got, f.want, p, if f.conn.as_ref().unwrap().gone() { "ended" } else { "is still there" });
            std::thread::sleep(Duration::from_micros(50));
        }
    }

    /// A connection to a peer is complete; one more than the limit allows is answered with a close.
    fn established(&mut self, s: &mut Src, p: usize, c: Conn) -> CaseResult {
        self.now += 1;
        let id = c.id.unwrap();
        let t0 = Instant::now();
        loop {
            let st = self.lab.w.status.lock().unwrap();
            if st.iter().any(|(_, _, e)| matches!(e, NetworkStatus::ConnectionEstablished(_, x) if x.as_u128() == id.as_u128())) {
                break;
            }
            drop(st);
            check!(t0.elapsed() < WAIT, "status", "the connection to peer {} is never reported as established", p);
            std::thread::sleep(Duration::from_micros(50));
        }
        let f = &mut self.peers[p];
        f.conn = Some(c);
        f.last = self.now;
        f.pending = false;
        f.closing = false;
        if self.up() > self.soft {
            self.softs += 1;
            self.reported(&NetworkStatus::SoftConnectionLimitExceeded, self.softs)?;
            let t0 = Instant::now();
            let v = loop {
                for p in 0..self.peers.len() {
                    self.take(p)?;
                }
                if let Some(v) = self.peers.iter().position(|f| f.conn.as_ref().is_some_and(|c| c.bye) && !f.closing) {
                    break v;
                }
                check!(t0.elapsed() < WAIT, "soft-limit", "{} connections are up, {} are allowed, none is being closed", self.up(), self.soft);
                std::thread::sleep(Duration::from_micros(50));
            };
            // what happened directly one after the other may be seen in another order
            let last = self.peers[v].last;
            let oldest = self.peers.iter().enumerate().filter(|(_, f)| f.conn.is_some() && !f.closing).map(|(i, f)| (f.last, i)).min().unwrap();
            check!(last <= oldest.0 + 1, "lru", "the connection to peer {} is closed, used last at {}; that to peer {} was used last at {}, it is {} now", v, last, oldest.1, oldest.0, self.now);
            self.peers[v].closing = true;
            s.note(|| format!("  the connection to peer {} is closed", v));
            if s.chance(2, 3) {
                self.answer(v)?;
            }
        }
        if !self.peers[p].closing && self.peers[p].conn.is_some() {
            self.flush(p)?;
        }
        self.steady()
    }

    /// The peer answers the Bye.
    fn answer(&mut self, p: usize) -> CaseResult {
        let f = &mut self.peers[p];
        f.closing = false;
        let Some(mut c) = f.conn.take() else { return Ok(()) };
        check!(c.put(&F::Bye.wire()), "closed", "the Bye to peer {} could not be answered", p);
        self.end(p, c)
    }
    fn end(&mut self, p: usize, mut c: Conn) -> CaseResult {
        let t0 = Instant::now();
        while !c.gone() {
            check!(t0.elapsed() < WAIT, "not-closed", "the connection to peer {} is not closed after both Byes", p);
            if !c.pump(usize::MAX)? {
                std::thread::sleep(Duration::from_micros(50));
            }
        }
        check!(c.frames.iter().all(|f| matches!(f, F::Bye)) && c.inbuf.is_empty(), "after-bye", "something came to peer {} after the Bye", p);
        Ok(())
    }

    /// The connections the system wants come up, as far as there is room.
    fn settle(&mut self, s: &mut Src) -> CaseResult {
        let t0 = Instant::now();
        while self.room() && self.peers.iter().any(|f| f.pending) {
            let mut any = None;
            for (p, f) in self.peers.iter_mut().enumerate() {
                if let Some(c) = f.raw.accept() {
                    check!(f.pending, "connects", "the system connects to peer {} for no reason", p);
                    any = Some((p, c));
                    break;
                }
            }
            let Some((p, mut c)) = any else {
                check!(t0.elapsed() < WAIT, "no-connection", "{} of {} connections are open, but the system does not connect to peers {:?}", self.open(), self.hard, self.peers.iter().enumerate().filter(|(_, f)| f.pending).map(|x| x.0).collect::<Vec<_>>());
                std::thread::sleep(Duration::from_micros(100));
                continue;
            };
            let me = self.peers[p].raw.addr;
            if !c.put(&F::Hello(me).wire()) {
                continue;
            }
            match c.next()? {
                Some(F::Start(a, id)) => {
                    check!(a == self.lab.nodes[0].addr, "handshake", "Start comes from {}", a);
                    c.id = Some(id);
                }
                None if c.gone() => continue,
                f => return fail("handshake", format!("instead of a Start came {:?}", f.map(|f| f.short()))),
            }
            c.acked = true;
            if !c.put(&F::Ack.wire()) {
                continue;
            }
            s.note(|| format!("  the system connects to peer {}", p));
            self.established(s, p, c)?;
        }
        Ok(())
    }

    /// Connects to the system; None when it rejects the connection.
    fn knock(&mut self) -> Result<Option<Conn>, Failure> {
        let t0 = Instant::now();
        let to = self.lab.nodes[0].addr;
        let full = !self.room();
        loop {
            let before = self.reports(&NetworkStatus::HardConnectionLimitReached);
            let Ok(st) = TcpStream::connect_timeout(&to, WAIT) else {
                return fail("refused", "the system refuses the connection").map(|()| None);
            };
            let mut c = Conn::new(st);
            match c.next()? {
                Some(F::Hello(a)) if a == to => {
                    check!(!full, "hard-limit", "another connection is accepted although {} of {} are open", self.open(), self.hard);
                    return Ok(Some(c));
                }
                None if c.gone() && full => {
                    self.reported(&NetworkStatus::HardConnectionLimitReached, before + 1)?;
                    return Ok(None);
                }
                None if c.gone() => {
                    // the system may not have seen yet that another connection ended
                    check!(t0.elapsed() < Duration::from_secs(5), "rejected", "the system rejects connections although only {} of {} are open", self.open(), self.hard);
                    std::thread::sleep(Duration::from_millis(1));
                }
                f => return fail("handshake", format!("instead of a Hello came {:?}", f.map(|f| f.short()))).map(|()| None),
            }
        }
    }

    /// A peer completes the handshake.
    fn start(&mut self, s: &mut Src, p: usize, mut c: Conn) -> CaseResult {
        let id = Uuid::from_u128((s.bits() as u128) << 64 | self.now as u128);
        check!(c.put(&F::Start(self.peers[p].raw.addr, id).wire()), "closed", "the connection of peer {} ends during the handshake", p);
        match c.next()? {
            Some(F::Ack) => (),
            f => return fail("handshake", format!("instead of an Ack to peer {} came {:?}{}", p, f.map(|f| f.short()), if c.gone() { " and the end" } else { "" })),
        }
        c.id = Some(id);
        c.acked = true;
        self.established(s, p, c)
    }

    /// A peer closes its connection.
    fn leave(&mut self, s: &mut Src, p: usize) -> CaseResult {
        s.note(|| format!("peer {} closes its connection", p));
        let mut conn = self.peers[p].conn.take().unwrap();
        check!(conn.put(&F::Bye.wire()), "closed", "the connection of peer {} was closed", p);
        match conn.next()? {
            Some(F::Bye) => (),
            f => return fail("no-bye", format!("instead of a Bye to peer {} came {:?}", p, f.map(|f| f.short()))),
        }
        self.end(p, conn)
    }

    fn tell(&mut self, s: &mut Src, p: usize, n: u32) -> CaseResult {
        self.now += 1;
        for _ in 0..n {
            let f = &mut self.peers[p];
            let b = Body { tag: p as u32, seq: f.want, flags: 0, len: f.want % 50 };
            f.want += 1;
            let dst = f.dst.clone();
            self.lab.actors[self.actor].c.on_definition(|d| dst.tell(b, d));
        }
        let f = &mut self.peers[p];
        if f.conn.is_some() {
            f.last = self.now;
            self.flush(p)
        } else {
            f.pending = true;
            self.settle(s)
        }
    }
}

fn n07_limits(s: &mut Src, c: &mut Case7) -> CaseResult {
    c.soft = s.range(1, 4);
    c.hard = c.soft + s.range(0, 3);
    let k = c.hard + s.range(0, 2);
    let mut cfg = net_cfg(fresh_ip());
    cfg.set_soft_connection_limit(c.soft as u32);
    cfg.set_hard_connection_limit(c.hard as u32);
    cfg.set_connection_retry_interval(100);
    c.lab.node(cfg, s.range(1, 2), true)?;
    c.actor = c.lab.actor(0, None)?;
    for p in 0..k {
        let raw = Raw::new(false)?;
        let sys = SystemPath::new(Transport::Tcp, raw.addr.ip(), raw.addr.port());
        let dst: ActorPath = NamedPath::with_system(sys.clone(), vec![format!("to{}", p)]).into();
        let src: ActorPath = NamedPath::with_system(sys, vec![format!("from{}", p)]).into();
        c.peers.push(Far { raw, dst, src, conn: None, last: 0, closing: false, pending: false, want: 0, got: 0, sent: 0 });
    }
    s.note(|| format!("soft limit {}, hard limit {}, {} peers", c.soft, c.hard, k));
    let mut full = 0;
    for _ in 0..4 + s.range(0, 26) {
        let op = s.weighted(&[5, 3, 2, 2, 5, 4, 2, 3, 2, 3]);
        let p = s.idx(k);
        s.mark((op * 100 + p) as u64);
        let free = c.peers[p].conn.is_none();
        let up = !free && !c.peers[p].closing;
        match op {
            0 | 1 => {
                if op == 0 && (!free || c.peers[p].pending && c.room()) {
                    continue;
                }
                s.note(|| if op == 0 { format!("peer {} connects", p) } else { "somebody connects without a handshake".to_string() });
                match c.knock()? {
                    None => {
                        s.note(|| "  rejected".into());
                        full += 1;
                    }
                    Some(conn) if op == 0 => c.start(s, p, conn)?,
                    Some(conn) => c.halves.push(conn),
                }
            }
            2 if !c.halves.is_empty() => {
                let i = s.idx(c.halves.len());
                let how = s.idx(3);
                s.note(|| format!("a connection without handshake ends ({})", ["close", "reset", "shut down"][how]));
                c.halves.swap_remove(i).drop_by(how);
            }
            3 if !c.halves.is_empty() && free => {
                let i = s.idx(c.halves.len());
                s.note(|| format!("peer {} completes a handshake", p));
                let conn = c.halves.swap_remove(i);
                c.start(s, p, conn)?;
            }
            4 if !c.peers[p].closing => {
                let n = 1 + s.size(6) as u32;
                s.note(|| format!("{} messages to peer {}", n, p));
                c.tell(s, p, n)?;
            }
            5 if up => {
                let n = 1 + s.size(6) as u32;
                s.note(|| format!("{} messages from peer {}", n, p));
                c.now += 1;
                c.peers[p].last = c.now;
                for _ in 0..n {
                    let f = &mut c.peers[p];
                    let b = Body { tag: 0x100 + p as u32, seq: f.sent, flags: 0, len: f.sent % 70 };
                    f.sent += 1;
                    let mut enc = vec![];
                    b.put(&mut enc);
                    let w = msg_wire(&f.src, &c.lab.actors[c.actor].unique, SER, &enc);
                    check!(f.conn.as_mut().unwrap().put(&w), "closed", "the connection of peer {} was closed", p);
                }
                let (tag, all) = (0x100 + p as u32, c.peers[p].sent as usize);
                check!(c.lab.arrived_of(|r| r.body.as_ref().is_ok_and(|b| b.tag == tag), all), "lost", "not all messages of peer {} arrive", p);
            }
            6 if up => {
                c.leave(s, p)?;
            }
            7 if up => {
                let how = s.idx(3);
                s.note(|| format!("peer {} ends its connection ({})", p, ["close", "reset", "shut down"][how]));
                c.peers[p].conn.take().unwrap().drop_by(how);
                c.peers[p].pending = true;
            }
            8 if up => {
                s.note(|| format!("the system closes the connection to peer {}", p));
                let path = c.peers[p].dst.system().clone();
                c.lab.ask(0, NetworkStatusRequest::DisconnectSystem(path));
                let t0 = Instant::now();
                while !c.peers[p].conn.as_ref().unwrap().bye {
                    c.take(p)?;
                    check!(t0.elapsed() < WAIT, "no-bye", "the connection to peer {} is not closed", p);
                    std::thread::sleep(Duration::from_micros(50));
                }
                c.answer(p)?;
            }
            9 => {
                if let Some(p) = c.peers.iter().position(|f| f.closing) {
                    s.note(|| format!("peer {} answers the Bye", p));
                    c.answer(p)?;
                }
            }
            _ => continue,
        }
        c.settle(s)?;
        c.steady()?;
    }
    // without the others there is room for everyone
    s.note(|| "end".into());
    while let Some(h) = c.halves.pop() {
        h.drop_by(0);
    }
    for p in 0..k {
        if c.peers[p].closing {
            c.answer(p)?;
        }
    }
    c.settle(s)?;
    for p in 0..k {
        if c.peers[p].closing {
            c.answer(p)?;
        }
        c.tell(s, p, 1)?;
        while c.peers.iter().any(|f| f.pending) {
            let f = c.peers.iter().position(|f| f.conn.is_some()).unwrap();
            if c.peers[f].closing {
                c.answer(f)?;
            } else {
                c.leave(s, f)?;
            }
            c.settle(s)?;
        }
    }
    for p in 0..k {
        check!(c.peers[p].got == c.peers[p].want, "lost", "{} of {} messages came to peer {}", c.peers[p].got, c.peers[p].want, p);
    }
    let log = c.lab.w.log.lock().unwrap();
    let mut got = vec![0u32; k];
    for r in log.iter() {
        let b = match &r.body {
            Ok(b) => b,
            Err(e) => return fail("damaged", format!("a message from {} came damaged: {}", r.sender, e)),
        };
        let p = (b.tag - 0x100) as usize;
        check!(b.seq == got[p] && b.len == got[p] % 70, "order", "{:?} of peer {} came when {} was to come", b, p, got[p]);
        got[p] += 1;
    }
    s.nontrivial_if(c.softs >= 1 && full >= 1);
    Ok(())
}

/// More systems than one of them may be connected to, all of which talk to it.
fn n07_hub(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let soft = s.range(1, 3);
    let n = soft + 1 + s.range(1, 2);
    for i in 0..n {
        let mut c = net_cfg(fresh_ip());
        c.set_connection_retry_interval(100);
        if i == 0 || s.chance(1, 3) {
            c.set_soft_connection_limit(soft as u32);
        }
        lab.node(c, s.range(1, 2), true)?;
        lab.actor(i, None)?;
    }
    s.note(|| format!("{} systems, soft limit {}", n, soft));
    let mut crossed = 0;
    for _ in 0..4 + s.range(0, 20) {
        let other = 1 + s.idx(n - 1);
        let (x, y) = if s.flag() { (0, other) } else { (other, 0) };
        let burst = 1 + s.size(12);
        let flags = if s.chance(1, 3) { ANSWER } else { 0 };
        s.note(|| format!("{} to {}: {} messages, flags {}", x, y, burst, flags));
        let path = lab.actors[y].unique.clone();
        for _ in 0..burst {
            let len = s.size(200);
            lab.send(x, &path, y, (x << 8 | y) as u32, flags, len, Mode::Lazy)?;
            crossed += 1;
        }
        match s.weighted(&[4, 2, 1]) {
            0 => (),
            1 => std::thread::sleep(Duration::from_micros(s.size(1500) as u64)),
            _ => {
                lab.arrived(lab.total);
            }
        }
    }
    s.nontrivial_if(crossed >= 10);
    s.mark(crossed as u64);
    lab.arrived(lab.total);
    lab.verify(true)?;
    sessions(lab)
}

/// Systems that connect to each other at the same time.
fn n07_meet(s: &mut Src, lab: &mut Lab) -> CaseResult {
    let n = s.range(2, 4);
    for i in 0..n {
        lab.node(net_cfg(fresh_ip()), s.range(1, 3), true)?;
        lab.actor(i, None)?;
    }
    s.note(|| format!("{} systems", n));
    let mut crossed = 0;
    for _ in 0..2 + s.range(0, 10) {
        let x = s.idx(n);
        let y = (x + 1 + s.idx(n - 1)) % n;
        let pairs = if s.chance(2, 3) { vec![(x, y), (y, x)] } else { vec![(x, y)] };
        for (x, y) in pairs {
            let burst = 1 + s.size(5);
            let flags = if s.chance(1, 4) { ANSWER } else { 0 };
            s.note(|| format!("{} to {}: {} messages, flags {}", x, y, burst, flags));
            let path = lab.actors[y].unique.clone();
            for _ in 0..burst {
                lab.send(x, &path, y, (x << 8 | y) as u32, flags, 10, Mode::Lazy)?;
                crossed += 1;
            }
        }
        if s.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(s.size(800) as u64));
        }
    }
    s.nontrivial_if(crossed >= 6);
    s.mark(crossed as u64 * 5 + n as u64);
    lab.arrived(lab.total);
    lab.verify(true)?;
    sessions(lab)
}
