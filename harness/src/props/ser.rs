//! S01–S05: serialisation, message representations, forwarding.
use super::gens::*;
use crate::pbt::*;
use crate::{check, check_eq};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use kompact::messaging::{DispatchData, NetData, SerialisedFrame};
use kompact::serde_serialisers::Serde;
use kompact::net::buffers::*;
use kompact::net::frames::*;
use kompact::prelude::*;
use kompact::prelude::ser_helpers::*;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::collections::BTreeMap;

pub static PROPS: [&Prop; 5] = [
    &Prop::new("S01", "the value is not a default value and its encoding is read from a buffer made of several pieces", 1_500_000, 60_000_000, s01),
    &Prop::new("S02", "the message spans several chunks, or is sent in a pre-serialised or eager mode, or follows a failed one", 500_000, 10_000_000, s02),
    &Prop::new("S03", "at least two forwarding hops, at least one of them over the wire format", 600_000, 15_000_000, s03),
    &Prop::new("S04", "at least one wrong type is tried before the right one", 1_000_000, 50_000_000, s04),
    &Prop::new("S05", "the bytes differ from every complete valid encoding", 2_500_000, 80_000_000, s05),
];

// ---------------------------------------------------------------- values

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
pub struct Unit;
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
pub struct Newtype(i64);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
pub struct Tup(u8, String, bool);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Tree {
    Leaf,
    One(Box<Tree>),
    Two(Box<Tree>, u32),
    Rec { left: Option<Box<Tree>>, name: String, kids: Vec<Tree> },
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Raw(Vec<u8>);
impl Serialize for Raw {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Raw, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Raw;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Raw, E> {
                Ok(Raw(v))
            }
        }
        d.deserialize_bytes(V)
    }
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Nested {
    b: bool,
    i: (i8, i16, i32, i64),
    u: (u8, u16, u32, u64),
    f: (f32, f64),
    c: char,
    s: String,
    raw: Raw,
    o: Option<Option<u16>>,
    unit: Unit,
    empty: (),
    nt: Newtype,
    t: Tup,
    v: Vec<Tree>,
    m: BTreeMap<String, Vec<Option<char>>>,
    p: Option<ActorPath>,
    a: [u16; 3],
}
impl PartialEq for Nested {
    fn eq(&self, o: &Nested) -> bool {
        self.b == o.b && self.i == o.i && self.u == o.u && self.f.0.to_bits() == o.f.0.to_bits() && self.f.1.to_bits() == o.f.1.to_bits()
            && self.c == o.c && self.s == o.s && self.raw == o.raw && self.o == o.o && self.nt == o.nt && self.t == o.t && self.v == o.v
            && self.m == o.m && self.p == o.p && self.a == o.a
    }
}
impl SerialisationId for Nested {
    const SER_ID: SerId = 1001;
}
impl SerialisationId for Tree {
    const SER_ID: SerId = 1003;
}

/// A type with its own serialiser and no size hint.
#[derive(Debug, Clone, PartialEq)]
pub struct Blob(pub Vec<u8>);
#[derive(Debug, Clone, Copy)]
pub struct BlobSer;
impl Serialiser<Blob> for BlobSer {
    fn ser_id(&self) -> SerId {
        1002
    }
    fn serialise(&self, v: &Blob, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u32(v.0.len() as u32);
        buf.put_slice(&v.0);
        Ok(())
    }
}
impl Deserialiser<Blob> for BlobSer {
    const SER_ID: SerId = 1002;
    fn deserialise(buf: &mut dyn Buf) -> Result<Blob, SerError> {
        let n = buf.try_get_u32().map_err(SerError::from_debug)? as usize;
        if buf.remaining() < n {
            return Err(SerError::invalid_data("short blob"));
        }
        let mut v = vec![0; n];
        buf.copy_to_slice(&mut v);
        Ok(Blob(v))
    }
}

/// A type that can only be sent serialised (its `local()` hands the object back).
#[derive(Debug, Clone, PartialEq)]
pub struct Wire(pub Vec<u8>);
impl Serialisable for Wire {
    fn ser_id(&self) -> SerId {
        1004
    }
    fn size_hint(&self) -> Option<usize> {
        Some(4 + self.0.len())
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        BlobSer.serialise(&Blob(self.0.clone()), buf)
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Err(self)
    }
    fn cloned(&self) -> Option<Box<dyn Serialisable>> {
        Some(Box::new(self.clone()))
    }
}
impl Deserialiser<Wire> for Wire {
    const SER_ID: SerId = 1004;
    fn deserialise(buf: &mut dyn Buf) -> Result<Wire, SerError> {
        BlobSer::deserialise(buf).map(|b| Wire(b.0))
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Str(String),
    U64(u64),
    Unit,
    Path(ActorPath),
    Sys(SystemPath),
    Nested(Box<Nested>),
    Blob(Blob),
    Tree(Tree),
    Wire(Wire),
}
pub const KINDS: usize = 9;

impl V {
    fn into_taken<T: 'static>(self) -> Option<Box<T>> {
        let b: Box<dyn Any> = match self {
            V::Str(x) => Box::new(x),
            V::U64(x) => Box::new(x),
            V::Unit => Box::new(()),
            V::Path(x) => Box::new(x),
            V::Sys(x) => Box::new(x),
            V::Nested(x) => x,
            V::Blob(x) => Box::new(x),
            V::Tree(x) => Box::new(x),
            V::Wire(x) => Box::new(x),
        };
        b.downcast().ok()
    }
    pub fn kind(&self) -> usize {
        match self {
            V::Str(_) => 0,
            V::U64(_) => 1,
            V::Unit => 2,
            V::Path(_) => 3,
            V::Sys(_) => 4,
            V::Nested(_) => 5,
            V::Blob(_) => 6,
            V::Tree(_) => 7,
            V::Wire(_) => 8,
        }
    }
    pub fn boxed(&self) -> Box<dyn Serialisable> {
        match self {
            V::Str(x) => Box::new(x.clone()),
            V::U64(x) => Box::new(*x),
            V::Unit => Box::new(()),
            V::Path(x) => Box::new(x.clone()),
            V::Sys(x) => Box::new(x.clone()),
            V::Nested(x) => ((**x).clone(), Serde).into(),
            V::Blob(x) => (x.clone(), BlobSer).into(),
            V::Tree(x) => (x.clone(), Serde).into(),
            V::Wire(x) => Box::new(x.clone()),
        }
    }
    pub fn ser_id(&self) -> SerId {
        match self.kind() {
            0 => String::SER_ID,
            1 => u64::SER_ID,
            2 => <()>::SER_ID,
            3 => <ActorPath as Deserialiser<ActorPath>>::SER_ID,
            4 => SystemPath::SER_ID,
            5 => 1001,
            6 => 1002,
            7 => 1003,
            _ => 1004,
        }
    }
    pub fn deser(kind: usize, b: &mut dyn Buf) -> Result<V, SerError> {
        Ok(match kind {
            0 => V::Str(String::deserialise(b)?),
            1 => V::U64(u64::deserialise(b)?),
            2 => {
                <()>::deserialise(b)?;
                V::Unit
            }
            3 => V::Path(<ActorPath as Deserialiser<ActorPath>>::deserialise(b)?),
            4 => V::Sys(SystemPath::deserialise(b)?),
            5 => V::Nested(Box::new(<Serde as Deserialiser<Nested>>::deserialise(b)?)),
            6 => V::Blob(BlobSer::deserialise(b)?),
            7 => V::Tree(<Serde as Deserialiser<Tree>>::deserialise(b)?),
            _ => V::Wire(Wire::deserialise(b)?),
        })
    }
    pub fn short(&self) -> String {
        let mut t = format!("{:?}", self);
        if t.len() > 120 {
            let mut k = 120;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
        }
        t
    }
    fn encode(&self) -> Result<Vec<u8>, SerError> {
        let mut v = Vec::new();
        self.boxed().serialise(&mut v)?;
        Ok(v)
    }
}

fn string(s: &mut Src) -> String {
    let n = match s.below(8) {
        0 => 0,
        1 => s.range(100, 700),
        _ => s.range(1, 20),
    };
    if n > 20 {
        return s.bytes(n).iter().map(|b| (b'a' + b % 26) as char).collect();
    }
    (0..n).map(|_| *s.pick(&['a', 'b', '0', ' ', '\0', 'é', '世', '\u{1F600}'])).collect()
}

fn tree(s: &mut Src, depth: usize) -> Tree {
    match s.below(if depth == 0 { 1 } else { 4 }) {
        0 => Tree::Leaf,
        1 => Tree::One(Box::new(tree(s, depth - 1))),
        2 => Tree::Two(Box::new(tree(s, depth - 1)), s.bits() as u32),
        _ => {
            let left = if s.flag() { Some(Box::new(tree(s, depth - 1))) } else { None };
            let name = string(s);
            let n = s.range(0, 3);
            Tree::Rec { left, name, kids: (0..n).map(|_| tree(s, depth - 1)).collect() }
        }
    }
}

fn nested(s: &mut Src) -> Nested {
    let x = s.bits();
    let ext = s.flag();
    let y = if ext { *s.pick(&[0, u64::MAX, 1 << 63, i64::MAX as u64]) } else { s.bits() };
    let rn = s.range(0, 12);
    let vn = s.range(0, 3);
    let mn = s.range(0, 3);
    Nested {
        b: s.flag(),
        i: (x as i8, y as i16, x as i32, y as i64),
        u: (y as u8, x as u16, y as u32, y),
        f: (f32::from_bits(x as u32), f64::from_bits(y)),
        c: *s.pick(&['a', '\0', 'é', '\u{10FFFF}', '\u{D7FF}', '\u{E000}']),
        s: string(s),
        raw: Raw(s.bytes(rn)),
        o: *s.pick(&[None, Some(None), Some(Some(7)), Some(Some(0)), Some(Some(65535))]),
        unit: Unit,
        empty: (),
        nt: Newtype(y as i64),
        t: Tup(x as u8, string(s), s.flag()),
        v: (0..vn).map(|_| tree(s, 3)).collect(),
        m: (0..mn)
            .map(|_| {
                let k = string(s);
                let n = s.range(0, 3);
                (k, (0..n).map(|_| if s.flag() { Some(*s.pick(&['x', 'ß'])) } else { None }).collect())
            })
            .collect(),
        p: if s.chance(1, 3) { Some(actor_path(s)) } else { None },
        a: [x as u16, y as u16, 0],
    }
}

pub fn value(s: &mut Src) -> V {
    let k = s.idx(KINDS);
    value_of(s, k)
}

pub fn value_of(s: &mut Src, k: usize) -> V {
    match k {
        0 => V::Str(string(s)),
        1 => V::U64(if s.flag() { s.bits() } else { *s.pick(&[0, 1, u64::MAX]) }),
        2 => V::Unit,
        3 => V::Path(actor_path(s)),
        4 => V::Sys(system_path(s)),
        5 => V::Nested(Box::new(nested(s))),
        6 | 8 => {
            let n = match s.below(5) {
                0 => 0,
                1 => s.range(100, 600),
                _ => s.range(1, 30),
            };
            let v = s.bytes(n);
            if k == 6 { V::Blob(Blob(v)) } else { V::Wire(Wire(v)) }
        }
        _ => V::Tree(tree(s, 4)),
    }
}

/// A buffer that offers its content in pieces.
struct Frag {
    v: Vec<u8>,
    cuts: Vec<usize>,
    pos: usize,
}
impl Frag {
    fn new(s: &mut Src, v: Vec<u8>) -> Frag {
        let n = s.range(0, 4);
        let mut cuts: Vec<usize> = (0..n).map(|_| s.range(0, v.len())).collect();
        if s.chance(1, 4) {
            cuts = (0..v.len()).collect(); // one byte at a time
        }
        cuts.push(v.len());
        cuts.sort();
        Frag { v, cuts, pos: 0 }
    }
}
impl Buf for Frag {
    fn remaining(&self) -> usize {
        self.v.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let end = self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.v.len());
        &self.v[self.pos..end]
    }
    fn advance(&mut self, cnt: usize) {
        assert!(cnt <= self.remaining(), "advance past the end");
        self.pos += cnt;
    }
}

fn enc_cfg(s: &mut Src) -> BufferConfig {
    let mut bc = BufferConfig::default();
    bc.chunk_size(*s.pick(&[128usize, 200, 1000]));
    bc.max_chunk_count(200);
    bc.initial_chunk_count(s.range(1, 3));
    bc.encode_buf_min_free_space(*s.pick(&[64usize, 9, 1, 100]));
    bc
}

// ---------------------------------------------------------------- protobuf

use kompact::protobuf_serialisers::{ProtobufDeser, ProtobufSer};
use protobuf::well_known_types::struct_::{ListValue, Struct, Value as Proto};
use protobuf::Message;

fn proto(s: &mut Src, depth: usize) -> Proto {
    let mut v = Proto::new();
    match s.weighted(&[1, 2, 1, 3, if depth > 0 { 2 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
        0 => (),
        1 => v.set_number_value(s.i64(-1000, 1000) as f64 / 8.0),
        2 => v.set_bool_value(s.flag()),
        3 => {
            let n = s.size(400);
            v.set_string_value("x".repeat(n));
        }
        4 => {
            let mut m = Struct::new();
            for _ in 0..s.size(5) {
                m.fields.insert(format!("k{}", s.below(9)), proto(s, depth - 1));
            }
            v.set_struct_value(m);
        }
        _ => {
            let mut l = ListValue::new();
            for _ in 0..s.size(6) {
                l.values.push(proto(s, depth - 1));
            }
            v.set_list_value(l);
        }
    }
    v
}

/// A protobuf message through the adapters: any buffer in, any buffer out, or an error for damaged bytes.
fn protobuf_case(s: &mut Src, damage: bool) -> CaseResult {
    let m = proto(s, 3);
    let plain = m.write_to_bytes().unwrap();
    s.note(|| format!("protobuf message of {} bytes: {:?}", plain.len(), m));
    let b: Box<dyn Serialisable> = (m.clone(), ProtobufSer).into();
    check_eq!(b.ser_id(), <ProtobufSer as Serialiser<Proto>>::ser_id(&ProtobufSer), "ser-id", "type id");
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let mut e = eb.get_buffer_encoder().unwrap();
    let skew = s.range(0, 130);
    if skew > 0 {
        e.put_slice(&vec![0xAA; skew]);
        e.get_chunk_lease().unwrap();
    }
    match no_panic(|| b.serialise(&mut e)) {
        Ok(Ok(())) => (),
        Ok(Err(x)) => return fail("serialise-error", format!("serialising a protobuf message of {} bytes: {}", plain.len(), x)),
        Err((p, l)) => return fail("serialise-panic", format!("serialising a protobuf message: {} at {}", p, l)),
    }
    let lease = if plain.is_empty() { ChunkLease::empty() } else { e.get_chunk_lease().map_err(|x| Failure { sig: "serialise-error".into(), msg: x.to_string(), violation: true })? };
    check_eq!(lease.remaining(), plain.len(), "encoding", "length of the encoded protobuf message");
    s.nontrivial_if(plain.len() > 1);
    if damage {
        let mut x = lease.into_chunk_ref();
        let mut bytes = vec![0; x.remaining()];
        x.copy_to_slice(&mut bytes);
        for _ in 0..s.range(1, 3) {
            mutate(s, &mut bytes);
        }
        let want = Proto::parse_from_bytes(&bytes);
        let f = Frag::new(s, bytes);
        return match (no_panic(|| ProtobufDeser { msg: Proto::new(), buf: f }.get_deserialised()), want) {
            (Err((p, l)), _) => fail("panic", format!("damaged protobuf message: {} at {}", p, l)),
            (Ok(Ok(r)), Ok(w)) => {
                check!(r.write_to_bytes().ok().map(|b| b.len()) == w.write_to_bytes().ok().map(|b| b.len()), "roundtrip", "got {:?}, expected {:?}", r, w);
                Ok(())
            }
            (Ok(Err(_)), Err(_)) => Ok(()),
            (Ok(r), w) => fail("damaged", format!("got {:?}, expected {:?}", r.map_err(|e| e.to_string()), w)),
        };
    }
    let want = m;
    let how = s.below(4);
    let r = no_panic(|| match how {
        0 => ProtobufDeser { msg: Proto::new(), buf: lease }.get_deserialised(),
        1 => ProtobufDeser { msg: Proto::new(), buf: lease.into_chunk_ref() }.get_deserialised(),
        2 => ProtobufDeser { msg: Proto::new(), buf: Bytes::from(plain.clone()) }.get_deserialised(),
        _ => {
            let f = Frag::new(s, plain.clone());
            ProtobufDeser { msg: Proto::new(), buf: f }.get_deserialised()
        }
    });
    match r {
        Ok(Ok(r)) => check!(r == want, "roundtrip", "got {:?}, expected {:?} (buffer {})", r, want, how),
        Ok(Err(x)) => return fail("deserialise-error", format!("{:?}: {} (buffer {})", want, x, how)),
        Err((p, l)) => return fail("deserialise-panic", format!("{} at {} (buffer {})", p, l, how)),
    }
    Ok(())
}

// ---------------------------------------------------------------- S01

fn s01(s: &mut Src) -> CaseResult {
    if s.chance(1, 12) {
        return protobuf_case(s, false);
    }
    let v = value(s);
    s.note(|| v.short());
    let b = v.boxed();
    check_eq!(b.ser_id(), v.ser_id(), "ser-id", "type id of {}", v.short());
    let enc = match no_panic(|| v.encode()) {
        Ok(Ok(e)) => e,
        Ok(Err(e)) => return fail("serialise-error", format!("serialising {}: {}", v.short(), e)),
        Err((m, l)) => return fail("serialise-panic", format!("serialising {}: {} at {}", v.short(), m, l)),
    };
    let exact = match &v {
        V::Str(_) | V::U64(_) | V::Unit | V::Sys(_) | V::Path(ActorPath::Unique(_)) => true,
        _ => false,
    };
    if exact {
        check_eq!(b.size_hint(), Some(enc.len()), "hint", "size hint of {}", v.short());
    }
    // well-known encodings
    let known = match &v {
        V::Str(x) => {
            let mut k = (x.len() as u64).to_be_bytes().to_vec();
            k.extend_from_slice(x.as_bytes());
            Some(k)
        }
        V::U64(x) => Some(x.to_be_bytes().to_vec()),
        V::Unit => Some(vec![]),
        V::Path(p) => Some(path_wire(p)),
        _ => None,
    };
    if let Some(k) = known {
        check!(k == enc, "encoding", "{} is encoded as {:02x?}, documented is {:02x?}", v.short(), enc, k);
    }
    // other ways to serialise
    match no_panic(|| b.serialised()) {
        Ok(Ok(ser)) => {
            check!(ser.data[..] == enc[..] && ser.ser_id == v.ser_id(), "serialised-differs", "serialised() of {}", v.short());
        }
        Ok(Err(e)) => check!(b.size_hint().is_none(), "serialise-error", "serialised() of {}: {}", v.short(), e),
        Err((m, l)) => return fail("serialise-panic", format!("serialised() of {}: {} at {}", v.short(), m, l)),
    }
    if let Some(c) = b.cloned() {
        let mut o = Vec::new();
        check!(c.serialise(&mut o).is_ok() && o == enc && c.ser_id() == v.ser_id(), "clone-differs", "cloned() of {}", v.short());
    }
    // read back from a fragmented buffer followed by foreign bytes
    let tail = s.bytes(9);
    let mut all = enc.clone();
    all.extend_from_slice(&tail);
    let mut f = Frag::new(s, all.clone());
    s.nontrivial_if(f.cuts.len() > 1 && enc.len() > 1);
    let back = |what: &str, b: &mut dyn Buf| -> CaseResult {
        match no_panic(|| V::deser(v.kind(), b)) {
            Ok(Ok(r)) => check!(r == v, "roundtrip", "{} read from {}: got {}", v.short(), what, r.short()),
            Ok(Err(e)) => return fail("deserialise-error", format!("{} read from {}: {}", v.short(), what, e)),
            Err((m, l)) => return fail("deserialise-panic", format!("{} read from {}: {} at {}", v.short(), what, m, l)),
        }
        check_eq!(b.remaining(), tail.len(), "consumed", "bytes left after reading {} from {}", v.short(), what);
        let mut t = vec![0; tail.len()];
        b.copy_to_slice(&mut t);
        check!(t == tail, "consumed", "following bytes after reading {} from {}", v.short(), what);
        Ok(())
    };
    back("pieces", &mut f)?;
    back("bytes", &mut Bytes::from(all.clone()))?;
    // through a pooled buffer
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let skew = s.range(0, 130);
    let skewb = s.bytes(skew);
    let mut e = eb.get_buffer_encoder().unwrap();
    let mut first = None;
    if skew > 0 {
        e.put_slice(&skewb);
        first = Some(e.get_chunk_lease().unwrap());
    }
    match no_panic(|| b.serialise(&mut e)) {
        Ok(Ok(())) => {}
        Ok(Err(x)) => return fail("serialise-error", format!("{} into a pooled buffer: {}", v.short(), x)),
        Err((m, l)) => return fail("serialise-panic", format!("{} into a pooled buffer: {} at {}", v.short(), m, l)),
    }
    e.put_slice(&tail);
    let mut lease = e.get_chunk_lease().unwrap();
    check_eq!(lease.remaining(), all.len(), "pooled-length", "length of {} in a pooled buffer", v.short());
    if s.flag() {
        back("a chunk lease", &mut lease)?;
    } else {
        back("a chunk reference", &mut lease.into_chunk_ref())?;
    }
    if let Some(f) = first {
        check!(f.create_byte_clone()[..] == skewb[..], "neighbour", "bytes written before changed");
    }
    Ok(())
}

// ---------------------------------------------------------------- wire format, written independently

pub fn path_wire(p: &ActorPath) -> Vec<u8> {
    let sys = p.system();
    let mut v = vec![];
    let proto = match sys.protocol() {
        Transport::Local => 0u8,
        Transport::Tcp => 1,
        Transport::Udp => 2,
        _ => 3,
    };
    let (at, ab): (u8, Vec<u8>) = match sys.address() {
        std::net::IpAddr::V4(x) => (0, x.octets().to_vec()),
        std::net::IpAddr::V6(x) => (1, x.octets().to_vec()),
    };
    let named = matches!(p, ActorPath::Named(_)) as u8;
    v.push(named << 7 | at << 2 | proto);
    v.extend(ab);
    v.extend_from_slice(&sys.port().to_be_bytes());
    match p {
        ActorPath::Unique(u) => v.extend_from_slice(u.id().as_bytes()),
        ActorPath::Named(n) => {
            let t = n.path_ref().join("/");
            v.extend_from_slice(&(t.len() as u16).to_be_bytes());
            v.extend_from_slice(t.as_bytes());
        }
    }
    v
}

pub fn msg_wire(src: &ActorPath, dst: &ActorPath, id: SerId, enc: &[u8]) -> Vec<u8> {
    let mut c = path_wire(src);
    c.extend(path_wire(dst));
    c.extend_from_slice(&id.to_be_bytes());
    c.extend_from_slice(enc);
    let mut v = vec![0xC0, 0xA1, 0xBA, 0x11];
    v.extend_from_slice(&(c.len() as u32).to_be_bytes());
    v.push(2);
    v.extend(c);
    v
}

fn frame_bytes(f: &SerialisedFrame) -> Vec<u8> {
    match f {
        SerialisedFrame::Bytes(b) => b.to_vec(),
        SerialisedFrame::ChunkLease(c) => c.create_byte_clone().to_vec(),
        SerialisedFrame::ChunkRef(c) => {
            let mut c = c.clone();
            c.copy_to_bytes(c.remaining()).to_vec()
        }
    }
}

fn np<R>(what: &str, f: impl FnOnce() -> Result<R, SerError>) -> Result<R, Failure> {
    match no_panic(f) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => fail("error", format!("{}: {}", what, e)),
        Err((m, l)) => fail("panic", format!("{}: {} at {}", what, m, l)),
    }
}

fn expect_msg(what: &str, m: NetMessage, src: &ActorPath, dst: &ActorPath, v: &V, clone: bool) -> CaseResult {
    check_eq!(m.sender, *src, "sender", "{}: sender", what);
    check_eq!(m.receiver, *dst, "receiver", "{}: receiver", what);
    check_eq!(m.data.ser_id, v.ser_id(), "ser-id", "{}: type id", what);
    if clone {
        let c = np(&format!("{}: try_clone", what), || m.try_clone())?;
        expect_msg(&format!("clone of {}", what), c, src, dst, v, false)?;
    }
    let r = unpack(v.kind(), m.data);
    match r {
        Ok(Un::Ok(r)) => check!(r == *v, "content", "{}: got {}, sent {}", what, r.short(), v.short()),
        Ok(o) => return fail("unpack", format!("{}: {:?} for {}", what, o, v.short())),
        Err((m, l)) => return fail("panic", format!("{}: deserialising {} panicked: {} at {}", what, v.short(), m, l)),
    }
    Ok(())
}

#[derive(Debug)]
enum Un {
    Ok(V),
    NoId(NetData),
    NoCast(Box<dyn Any + Send>),
    Err(String),
}

fn un<T>(r: Result<T, UnpackError<NetData>>, f: impl FnOnce(T) -> V) -> Un {
    match r {
        Ok(t) => Un::Ok(f(t)),
        Err(UnpackError::NoIdMatch(d)) => Un::NoId(d),
        Err(UnpackError::NoCast(b)) => Un::NoCast(b),
        Err(UnpackError::DeserError(e)) => Un::Err(e.to_string()),
    }
}

fn unpack(kind: usize, d: NetData) -> Result<Un, (String, String)> {
    no_panic(|| match kind {
        0 => un(d.try_deserialise::<String, String>(), V::Str),
        1 => un(d.try_deserialise::<u64, u64>(), V::U64),
        2 => un(d.try_deserialise::<(), ()>(), |_| V::Unit),
        3 => un(d.try_deserialise::<ActorPath, ActorPath>(), V::Path),
        4 => un(d.try_deserialise::<SystemPath, SystemPath>(), V::Sys),
        5 => un(d.try_deserialise::<Nested, Serde>(), |x| V::Nested(Box::new(x))),
        6 => un(d.try_deserialise::<Blob, BlobSer>(), V::Blob),
        7 => un(d.try_deserialise::<Tree, Serde>(), V::Tree),
        _ => un(d.try_deserialise::<Wire, Wire>(), V::Wire),
    })
}

/// Feeds the bytes of one frame through the stream decoder of a receiver.
/// The pool and decoder go into `keep`: they own the memory of the lease.
fn receive(s: &mut Src, wire: &[u8], chunk: usize, keep: &mut Vec<Box<dyn Any>>) -> Result<ChunkLease, Failure> {
    let mut bc = BufferConfig::default();
    bc.chunk_size(chunk);
    bc.max_chunk_count(200);
    let mut pool = BufferPool::with_config(&bc, &None);
    let mut dec = DecodeBuffer::new(pool.get_buffer().unwrap(), &bc);
    let mut pos = 0;
    let step = if s.flag() { wire.len() } else { s.range(1, 100) };
    loop {
        match dec.get_frame() {
            Ok(Frame::Data(d)) => {
                keep.push(Box::new(pool));
                keep.push(Box::new(dec));
                return Ok(d.payload());
            }
            Ok(f) => return fail("frame", format!("decoded {:?} from a data frame", f)),
            Err(FramingError::NoData) => {}
            Err(e) => return fail("frame", format!("decoder: {:?}", e)),
        }
        check!(pos < wire.len(), "frame", "no frame in {} bytes", wire.len());
        match dec.get_writeable() {
            Some(w) => {
                let k = step.min(w.len()).min(wire.len() - pos);
                w[..k].copy_from_slice(&wire[pos..pos + k]);
                dec.advance_writeable(k);
                pos += k;
            }
            None => {
                let mut b = pool.get_buffer().unwrap();
                dec.swap_buffer(&mut b);
                pool.return_buffer(b);
            }
        }
    }
}

// ---------------------------------------------------------------- S02

fn s02(s: &mut Src) -> CaseResult {
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let n = s.range(1, 4);
    let mut keep: Vec<Box<dyn Any>> = Vec::new();
    let mut held: Vec<(SerialisedFrame, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        let v = value(s);
        let src = actor_path(s);
        let dst = actor_path(s);
        let enc = v.encode().map_err(|e| Failure { sig: "error".into(), msg: e.to_string(), violation: true })?;
        let wire = msg_wire(&src, &dst, v.ser_id(), &enc);
        let mode = s.below(6);
        s.note(|| format!("mode {} {} -> {} : {}", mode, src, dst, v.short()));
        s.nontrivial_if(wire.len() > 120 || mode >= 2);
        if s.chance(1, 8) {
            // a message that cannot be serialised leaves the ones around it alone
            let long = ActorPath::Named(NamedPath::with_system(dst.system().clone(), vec!["x".repeat(66_000)]));
            let mut e = eb.get_buffer_encoder().unwrap();
            let r = no_panic(|| DispatchData::Lazy(v.boxed(), src.clone(), long).into_serialised(&mut e));
            match r {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => return fail("long-path", "a path longer than its length field was serialised".to_string()),
                Err((m, l)) => return fail("panic", format!("serialising to a too long path: {} at {}", m, l)),
            }
            s.nontrivial();
        }
        let mut e = eb.get_buffer_encoder().unwrap();
        let frame = match mode {
            0 => {
                let m = np("into_local", || DispatchData::Lazy(v.boxed(), src.clone(), dst.clone()).into_local())?;
                expect_msg("lazy local", m, &src, &dst, &v, true)?;
                continue;
            }
            1 => np("lazy into_serialised", || DispatchData::Lazy(v.boxed(), src.clone(), dst.clone()).into_serialised(&mut e))?,
            2 => SerialisedFrame::ChunkLease(np("serialise_msg", || serialise_msg(&src, &dst, &*v.boxed(), &mut e))?),
            3 => {
                let mut other = EncodeBuffer::with_config(&bc, &None);
                let mut e2 = other.get_buffer_encoder().unwrap();
                let content = np("preserialise_msg", || preserialise_msg(&*v.boxed(), &mut e2))?;
                drop(e2);
                keep.push(Box::new(other));
                let k = s.range(1, 3);
                let mut last = None;
                for i in 0..k {
                    let c = content.clone();
                    // the same content can be sent several times
                    let r = np("serialise_msg_with_preserialised", || serialise_msg_with_preserialised(&src, &dst, c, &mut e))?;
                    let f = SerialisedFrame::ChunkRef(r);
                    check!(frame_bytes(&f) == wire, "bytes", "preserialised message, send {}: {} bytes, expected {}", i, frame_bytes(&f).len(), wire.len());
                    if let Some(l) = last.replace(f) {
                        held.push((l, wire.clone()));
                    }
                }
                last.unwrap()
            }
            4 => {
                // eager one-off serialisation, then embedded as if forwarded
                match no_panic(|| serialise_to_msg(src.clone(), dst.clone(), v.boxed())) {
                    Ok(Ok(m)) => {
                        if s.flag() {
                            expect_msg("serialise_to_msg", m, &src, &dst, &v, true)?;
                            continue;
                        }
                        np("embed", || DispatchData::NetMessage(m).into_serialised(&mut e))?
                    }
                    Ok(Err(x)) => {
                        check!(v.boxed().size_hint().is_none(), "error", "serialise_to_msg: {}", x);
                        continue;
                    }
                    Err((m, l)) => return fail("panic", format!("serialise_to_msg: {} at {}", m, l)),
                }
            }
            _ => {
                let m = NetMessage::with_box(v.ser_id(), src.clone(), dst.clone(), v.boxed());
                np("embed boxed", || DispatchData::NetMessage(m).into_serialised(&mut e))?
            }
        };
        drop(e);
        check!(frame_bytes(&frame) == wire, "bytes", "mode {}: frame of {} is {:02x?}, documented format is {:02x?}", mode, v.short(), &frame_bytes(&frame)[..], wire);
        check_eq!(frame.len(), wire.len(), "length", "frame length");
        match s.below(4) {
            0 => {
                let m = np("local delivery of a serialised frame", || DispatchData::Serialised(frame).into_local())?;
                expect_msg("serialised local", m, &src, &dst, &v, true)?;
            }
            1 => {
                let chunk = *s.pick(&[128usize, 512]);
                let lease = receive(s, &frame_bytes(&frame), chunk, &mut keep)?;
                let m = np("receiving", || deserialise_chunk_lease(lease))?;
                expect_msg("received", m, &src, &dst, &v, true)?;
            }
            2 => {
                let mut f = frame;
                f.make_contiguous();
                check!(f.bytes() == &wire[..], "contiguous", "make_contiguous changed the frame");
                let mut b = Bytes::copy_from_slice(f.bytes());
                b.advance(9);
                let m = np("receiving a datagram", || deserialise_bytes(b))?;
                expect_msg("datagram", m, &src, &dst, &v, true)?;
            }
            _ => held.push((frame, wire)),
        }
    }
    for (f, w) in &held {
        check!(frame_bytes(f) == *w, "bytes-later", "a held frame changed after later messages were sent");
    }
    Ok(())
}

// ---------------------------------------------------------------- S03

fn s03(s: &mut Src) -> CaseResult {
    let mut memory: Vec<Box<dyn Any>> = Vec::new();
    let v = value(s);
    let src = actor_path(s);
    let mut dst = actor_path(s);
    s.note(|| format!("{} from {}", v.short(), src));
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let mut m = start_msg(s, &v, &src, &dst, &mut eb, &mut memory)?;
    let hops = s.range(1, 5);
    let mut wire_hops = 0;
    let mut keep: Vec<NetMessage> = Vec::new();
    for h in 0..hops {
        let how = s.below(5);
        s.note(|| format!("hop {}", how));
        if s.chance(1, 4) {
            keep.push(np("try_clone", || m.try_clone())?);
        }
        dst = actor_path(s);
        m.receiver = dst.clone();
        m = match how {
            0 => np("local hop", || DispatchData::NetMessage(m).into_local())?,
            1 => np("clone hop", || m.try_clone())?,
            _ => {
                wire_hops += 1;
                let mut e = eb.get_buffer_encoder().unwrap();
                let f = np("embed", || DispatchData::NetMessage(m).into_serialised(&mut e))?;
                drop(e);
                let enc = v.encode().unwrap();
                let expect = msg_wire(&src, &dst, v.ser_id(), &enc);
                check!(frame_bytes(&f) == expect, "bytes", "hop {}: forwarded frame of {} has {} bytes, expected {}", h, v.short(), f.len(), expect.len());
                match how {
                    2 => np("serialised local hop", || DispatchData::Serialised(f).into_local())?,
                    _ => {
                        let chunk = *s.pick(&[128usize, 512]);
                        let lease = receive(s, &frame_bytes(&f), chunk, &mut memory)?;
                        if how == 3 {
                            np("receive", || deserialise_chunk_lease(lease))?
                        } else {
                            np("receive", || deserialise_chunk_ref(lease.into_chunk_ref()))?
                        }
                    }
                }
            }
        };
    }
    expect_msg("forwarded message", m, &src, &dst, &v, true)?;
    for k in keep {
        let d = k.receiver.clone();
        expect_msg("clone kept before forwarding", k, &src, &d, &v, false)?;
    }
    s.nontrivial_if(hops >= 2 && wire_hops >= 1);
    Ok(())
}

/// A message in any of the representations a receiver can see.
fn start_msg(s: &mut Src, v: &V, src: &ActorPath, dst: &ActorPath, eb: &mut EncodeBuffer, memory: &mut Vec<Box<dyn Any>>) -> Result<NetMessage, Failure> {
    let enc = v.encode().map_err(|e| Failure { sig: "error".into(), msg: e.to_string(), violation: true })?;
    let rep = s.below(6);
    s.note(|| format!("representation {}", rep));
    let mut lease = |enc: &[u8], s: &mut Src| -> Result<ChunkLease, Failure> {
        let skew = s.range(0, 100);
        let mut e = eb.get_buffer_encoder().unwrap();
        if skew > 0 {
            let b = s.bytes(skew);
            e.put_slice(&b);
            e.get_chunk_lease().unwrap();
        }
        if enc.is_empty() {
            return Ok(ChunkLease::empty());
        }
        e.put_slice(enc);
        e.get_chunk_lease().map_err(|e| Failure { sig: "error".into(), msg: e.to_string(), violation: true })
    };
    Ok(match rep {
        0 => NetMessage::with_box(v.ser_id(), src.clone(), dst.clone(), v.boxed()),
        1 => NetMessage::with_bytes(v.ser_id(), src.clone(), dst.clone(), Bytes::from(enc)),
        2 => NetMessage::with_chunk_lease(v.ser_id(), src.clone(), dst.clone(), lease(&enc, s)?),
        3 => NetMessage::with_chunk_ref(v.ser_id(), src.clone(), dst.clone(), lease(&enc, s)?.into_chunk_ref()),
        4 => {
            // partly read pooled buffers: the message is what is left
            let mut all = vec![0xAA; 5];
            all.extend_from_slice(&enc);
            let mut l = lease(&all, s)?;
            l.advance(5);
            if s.flag() {
                NetMessage::with_chunk_lease(v.ser_id(), src.clone(), dst.clone(), l)
            } else {
                NetMessage::with_chunk_ref(v.ser_id(), src.clone(), dst.clone(), l.into_chunk_ref())
            }
        }
        _ => {
            let w = msg_wire(src, dst, v.ser_id(), &enc);
            let l = receive(s, &w, 128, memory)?;
            np("receive", || deserialise_chunk_lease(l))?
        }
    })
}

// ---------------------------------------------------------------- S04

/// Claims the id of a string but produces numbers.
struct Liar;
impl Deserialiser<u64> for Liar {
    const SER_ID: SerId = <String as Deserialiser<String>>::SER_ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
        buf.try_get_u64().map_err(SerError::from_debug)
    }
}

/// An actor that leaves the unpacking to the runtime.
struct Taker<T, D> {
    got: Vec<(Option<ActorPath>, T)>,
    errors: Vec<UnpackError<NetMessage>>,
    d: std::marker::PhantomData<fn() -> D>,
}
impl<T, D> ComponentLogging for Taker<T, D> {
    fn log(&self) -> &kompact::KompactLogger {
        unreachable!()
    }
}
impl<T: MessageBounds, D: Deserialiser<T> + 'static> NetworkActor for Taker<T, D> {
    type Message = T;
    type Deserialiser = D;
    fn receive(&mut self, sender: Option<ActorPath>, msg: T) -> HandlerResult {
        self.got.push((sender, msg));
        Handled::OK
    }
    fn on_error(&mut self, e: UnpackError<NetMessage>) -> HandlerResult {
        self.errors.push(e);
        Handled::OK
    }
}

/// Hands `m` to such an actor: a matching message arrives with its sender, any other one comes back unchanged.
fn taken<T: MessageBounds, D: Deserialiser<T> + 'static>(kind: usize, wrap: fn(T) -> V, v: &V, m: NetMessage, src: &ActorPath, dst: &ActorPath, session: Option<kompact::net::SessionId>) -> CaseResult {
    let mut a: Taker<T, D> = Taker { got: vec![], errors: vec![], d: std::marker::PhantomData };
    match no_panic(|| a.receive_network(m).is_ok()) {
        Ok(ok) => check!(ok, "actor", "taking {} as type {} failed", v.short(), kind),
        Err((p, l)) => return fail("panic", format!("taking {} as type {}: {} at {}", v.short(), kind, p, l)),
    }
    check!(a.got.len() + a.errors.len() == 1, "actor", "{} was handled {} times and refused {} times", v.short(), a.got.len(), a.errors.len());
    if let Some((from, x)) = a.got.pop() {
        check!(kind == v.kind(), "wrong-type", "{} was taken as type {}", v.short(), kind);
        check!(from.as_ref() == Some(src), "changed", "the sender is {:?} instead of {}", from, src);
        let r = wrap(x);
        check!(r == *v, "content", "{} came out as {}", v.short(), r.short());
        if let Some(x) = r.into_taken::<T>() {
            // by a local reference there is no sender
            let _ = a.receive_local(*x);
            check!(a.got.len() == 1 && a.got[0].0.is_none() && a.errors.is_empty(), "actor", "a local message arrived {} times", a.got.len());
            let r = wrap(a.got.pop().unwrap().1);
            check!(r == *v, "content", "{} came out as {}", v.short(), r.short());
        }
        return Ok(());
    }
    match a.errors.pop() {
        Some(UnpackError::NoIdMatch(m)) => {
            check!(kind != v.kind(), "refused", "{} was refused", v.short());
            check_eq!(m.session(), session, "changed", "session of a refused message");
            expect_msg("refused", m, src, dst, v, true)
        }
        e => fail("wrong-error", format!("{} taken as type {}: {:?}", v.short(), kind, e)),
    }
}

fn s04(s: &mut Src) -> CaseResult {
    let mut memory: Vec<Box<dyn Any>> = Vec::new();
    let v = value(s);
    let src = actor_path(s);
    let dst = actor_path(s);
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    s.note(|| v.short());
    let mut m = start_msg(s, &v, &src, &dst, &mut eb, &mut memory)?;
    let session = if s.flag() { Some(kompact::net::SessionId::from_u128(s.bits() as u128)) } else { None };
    if let Some(x) = session {
        m.set_session(x);
    }
    let boxed = format!("{:?}", m.data).contains("Boxed");
    let tries = s.range(0, 4);
    for _ in 0..tries {
        let k = s.idx(KINDS);
        if k == v.kind() {
            continue;
        }
        s.nontrivial();
        let how = s.below(3);
        s.note(|| format!("wrong type {} by {}", k, how));
        if how == 0 {
            // on the data part
            let NetMessage { sender, receiver, data, session: se } = m;
            match unpack(k, data) {
                Ok(Un::NoId(d)) => {
                    m = NetMessage { sender, receiver, data: d, session: se };
                }
                Ok(x) => return fail("wrong-type", format!("{} tried as type {}: {:?}", v.short(), k, x)),
                Err((p, l)) => return fail("panic", format!("{} tried as type {}: {} at {}", v.short(), k, p, l)),
            }
            continue;
        }
        macro_rules! attempt {
            ($t:ty, $d:ty) => {
                no_panic(|| if how == 1 { m.try_deserialise::<$t, $d>().map(|_| ()) } else { m.try_into_deserialised::<$t, $d>().map(|_| ()) })
            };
        }
        let r = match k {
            0 => attempt!(String, String),
            1 => attempt!(u64, u64),
            2 => attempt!((), ()),
            3 => attempt!(ActorPath, ActorPath),
            4 => attempt!(SystemPath, SystemPath),
            5 => attempt!(Nested, Serde),
            6 => attempt!(Blob, BlobSer),
            7 => attempt!(Tree, Serde),
            _ => attempt!(Wire, Wire),
        };
        m = match r {
            Ok(Err(UnpackError::NoIdMatch(m))) => m,
            Ok(Ok(())) => return fail("wrong-type", format!("{} was handed out as type {}", v.short(), k)),
            Ok(Err(e)) => return fail("wrong-error", format!("{} tried as type {}: {:?}", v.short(), k, e)),
            Err((p, l)) => return fail("panic", format!("{} tried as type {}: {} at {}", v.short(), k, p, l)),
        };
        check_eq!(m.sender, src, "changed", "sender after a failed attempt");
        check_eq!(m.receiver, dst, "changed", "receiver after a failed attempt");
        check_eq!(m.session(), session, "changed", "session after a failed attempt");
        check_eq!(*m.ser_id(), v.ser_id(), "changed", "type id after a failed attempt");
    }
    match s.below(5) {
        4 => {
            let k = if s.chance(2, 3) { v.kind() } else { s.idx(KINDS) };
            s.note(|| format!("taken by an actor for type {}", k));
            match k {
                0 => taken::<String, String>(k, V::Str, &v, m, &src, &dst, session)?,
                1 => taken::<u64, u64>(k, V::U64, &v, m, &src, &dst, session)?,
                2 => taken::<(), ()>(k, |_| V::Unit, &v, m, &src, &dst, session)?,
                3 => taken::<ActorPath, ActorPath>(k, V::Path, &v, m, &src, &dst, session)?,
                4 => taken::<SystemPath, SystemPath>(k, V::Sys, &v, m, &src, &dst, session)?,
                5 => taken::<Nested, Serde>(k, |x| V::Nested(Box::new(x)), &v, m, &src, &dst, session)?,
                6 => taken::<Blob, BlobSer>(k, V::Blob, &v, m, &src, &dst, session)?,
                7 => taken::<Tree, Serde>(k, V::Tree, &v, m, &src, &dst, session)?,
                _ => taken::<Wire, Wire>(k, V::Wire, &v, m, &src, &dst, session)?,
            }
        }
        0 => expect_msg("right type", m, &src, &dst, &v, false)?,
        1 => match &v {
            V::Str(x) => match no_panic(|| m.try_into_deserialised::<String, String>()) {
                Ok(Ok(d)) => {
                    check_eq!(d.sender, src, "changed", "sender");
                    check_eq!(d.receiver, dst, "changed", "receiver");
                    check_eq!(d.content, *x, "content", "content");
                }
                r => return fail("right-type", format!("{:?}", r.map(|r| r.map(|d| d.content)))),
            },
            V::Nested(x) => match no_panic(|| m.try_into_deserialised::<Nested, Serde>()) {
                Ok(Ok(d)) => {
                    check_eq!(d.sender, src, "changed", "sender");
                    check_eq!(d.receiver, dst, "changed", "receiver");
                    check!(d.content == **x, "content", "content of {}", v.short());
                }
                r => return fail("right-type", format!("{:?}", r.map(|r| r.map(|_| ())))),
            },
            _ => expect_msg("right type", m, &src, &dst, &v, true)?,
        },
        2 => {
            // same id, different type: a boxed value comes back untouched
            if let V::Str(x) = &v {
                match no_panic(|| m.try_deserialise::<u64, Liar>()) {
                    Ok(Err(UnpackError::NoCast(b))) => {
                        check!(boxed, "nocast", "cast failure on serialised data");
                        match b.downcast::<String>() {
                            Ok(b) => check_eq!(*b, *x, "content", "boxed content after a failed cast"),
                            Err(_) => return fail("nocast", "the box does not hold the message".to_string()),
                        }
                    }
                    Ok(Ok(n)) => {
                        check!(!boxed, "wrong-type", "a boxed string was handed out as a number");
                        check_eq!(n, x.len() as u64, "content", "length prefix");
                    }
                    r => return fail("nocast", format!("{:?}", r.map(|r| r.map_err(|e| format!("{:?}", e))))),
                }
            } else {
                expect_msg("right type", m, &src, &dst, &v, true)?;
            }
        }
        _ => {
            let perm = s.below(4);
            let got: Result<Result<V, String>, _> = no_panic(|| match perm {
                0 => match_deser! { m {
                    msg(x): String => Ok(V::Str(x)),
                    msg(x): u64 => Ok(V::U64(x)),
                    msg(_x): () => Ok(V::Unit),
                    msg(x): ActorPath => Ok(V::Path(x)),
                    msg(x): SystemPath => Ok(V::Sys(x)),
                    msg(x): Nested [using Serde] => Ok(V::Nested(Box::new(x))),
                    msg(x): Blob [using BlobSer] => Ok(V::Blob(x)),
                    msg(x): Tree [using Serde] => Ok(V::Tree(x)),
                    msg(x): Wire => Ok(V::Wire(x)),
                    err(e) => Err(format!("{:?}", e)),
                    default(_) => Err("default".into()),
                } },
                1 => match_deser! { m {
                    default(_) => Err("default".into()),
                    msg(x): Wire => Ok(V::Wire(x)),
                    msg(x): Tree [using Serde] => Ok(V::Tree(x)),
                    msg(x): Blob [using BlobSer] => Ok(V::Blob(x)),
                    msg(x): Nested [using Serde] => Ok(V::Nested(Box::new(x))),
                    err(e) => Err(format!("{:?}", e)),
                    msg(x): SystemPath => Ok(V::Sys(x)),
                    msg(x): ActorPath => Ok(V::Path(x)),
                    msg(_x): () => Ok(V::Unit),
                    msg(x): u64 => Ok(V::U64(x)),
                    msg(x): String => Ok(V::Str(x)),
                } },
                2 => match_deser! { (m.data) {
                    msg(x): ActorPath => Ok(V::Path(x)),
                    msg(x): String => Ok(V::Str(x)),
                    msg(x): Nested [using Serde] => Ok(V::Nested(Box::new(x))),
                    msg(x): Tree [using Serde] => Ok(V::Tree(x)),
                    err(e) => Err(format!("{:?}", e)),
                    default(_) => Err("default".into()),
                } },
                _ => match_deser! { m {
                    msg(x): u64 => Ok(V::U64(x)),
                    msg(x): Wire [using Wire] => Ok(V::Wire(x)),
                    err(e) => Err(format!("{:?}", e)),
                    default(_) => Err("default".into()),
                } },
            });
            let covered = match perm {
                0 | 1 => true,
                2 => matches!(v.kind(), 0 | 3 | 5 | 7),
                _ => matches!(v.kind(), 1 | 8),
            };
            match got {
                Ok(Ok(r)) => {
                    check!(covered, "wrong-arm", "{} taken by an arm although none matches", v.short());
                    check!(r == v, "wrong-arm", "{} came out as {}", v.short(), r.short());
                }
                Ok(Err(e)) if e == "default" => check!(!covered, "default-arm", "{} fell into the default arm", v.short()),
                Ok(Err(e)) => return fail("err-arm", format!("{}: error arm {}", v.short(), e)),
                Err((p, l)) => return fail("panic", format!("match_deser on {}: {} at {}", v.short(), p, l)),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- S05

fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(8) {
        0 | 1 => {
            let n = s.range(0, b.len());
            b.truncate(n);
        }
        2 if !b.is_empty() => {
            let i = s.idx(b.len());
            b[i] ^= 1 << s.below(8);
        }
        3 if !b.is_empty() => {
            let i = s.idx(b.len());
            b[i] = s.bits() as u8;
        }
        4 if b.len() >= 8 => {
            // a length field somewhere
            let i = s.idx(b.len() - 7);
            let v = *s.pick(&[u64::MAX, 1 << 62, 1 << 40, 1 << 31, 1 << 20, 300]);
            b[i..i + 8].copy_from_slice(&v.to_be_bytes());
        }
        5 if !b.is_empty() => {
            let i = s.idx(b.len());
            b.remove(i);
        }
        6 => {
            let n = s.range(1, 10);
            let v = s.bytes(n);
            let i = s.range(0, b.len());
            let t = b.split_off(i);
            b.extend(v);
            b.extend(t);
        }
        _ => {
            let n = s.range(0, 40);
            *b = s.bytes(n);
        }
    }
}

fn s05(s: &mut Src) -> CaseResult {
    if s.chance(1, 16) {
        return protobuf_case(s, true);
    }
    let v = value(s);
    let enc = v.encode().map_err(|e| Failure { sig: "error".into(), msg: e.to_string(), violation: true })?;
    let whole = s.flag();
    let (src, dst) = (actor_path(s), actor_path(s));
    let valid = if whole { msg_wire(&src, &dst, v.ser_id(), &enc)[9..].to_vec() } else { enc.clone() };
    let mut b = valid.clone();
    for _ in 0..s.range(1, 3) {
        mutate(s, &mut b);
    }
    s.nontrivial_if(b != valid);
    s.note(|| format!("{} whole={} bytes {:02x?}", v.short(), whole, &b[..b.len().min(80)]));
    let limit = (4usize << 20) + 64 * b.len();
    let guarded = |what: &str, f: &mut dyn FnMut()| -> CaseResult {
        crate::alloc::reset();
        let r = no_panic(f);
        let max = crate::alloc::largest();
        if let Err((m, l)) = r {
            return fail("panic", format!("{} of {} damaged bytes: {} at {}", what, b.len(), m, l));
        }
        check!(max <= limit, "allocation", "{} of {} damaged bytes allocates {} bytes at once", what, b.len(), max);
        Ok(())
    };
    if !whole {
        let kind = if s.chance(3, 4) { v.kind() } else { s.idx(KINDS) };
        let mut f = Frag::new(s, b.clone());
        let n = b.len();
        guarded("deserialisation", &mut || {
            let _ = V::deser(kind, &mut f);
        })?;
        check!(f.remaining() <= n, "overread", "read past the end");
        let mut left = 0;
        guarded("deserialisation", &mut || {
            let mut x = Bytes::from(b.clone());
            let r = V::deser(kind, &mut x);
            left = x.remaining();
            // whatever comes out has to be a usable value
            if let Ok(V::Path(p)) = &r {
                let t = p.to_string();
                assert!(std::str::from_utf8(t.as_bytes()).is_ok(), "a path that is not valid UTF-8");
            }
        })?;
        return Ok(());
    }
    // a whole message, in the forms in which it can arrive
    let form = s.below(4);
    s.note(|| format!("form {}", form));
    if b.is_empty() && form != 1 {
        return Ok(());
    }
    let bc = enc_cfg(s);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let mut framed = vec![0u8; 9];
    framed.extend_from_slice(&b);
    let try_all = |m: Result<NetMessage, SerError>| {
        if let Ok(m) = m {
            let _ = (m.sender.to_string(), m.receiver.to_string());
            for k in 0..KINDS {
                if let Ok(c) = m.data.try_clone() {
                    match unpack(k, c) {
                        Ok(_) => {}
                        Err((m, l)) => panic!("{} at {}", m, l),
                    }
                }
            }
        }
    };
    guarded("message deserialisation", &mut || {
        let mut e = eb.get_buffer_encoder().unwrap();
        match form {
            0 => {
                e.put_slice(&b);
                try_all(deserialise_chunk_lease(e.get_chunk_lease().unwrap()))
            }
            1 => try_all(deserialise_bytes(Bytes::from(b.clone()))),
            2 => {
                e.put_slice(&b);
                try_all(deserialise_chunk_ref(e.get_chunk_lease().unwrap().into_chunk_ref()))
            }
            _ => {
                e.put_slice(&framed);
                let l = e.get_chunk_lease().unwrap();
                let f = match b.len() % 3 {
                    0 => SerialisedFrame::ChunkLease(l),
                    1 => SerialisedFrame::ChunkRef(l.into_chunk_ref()),
                    _ => SerialisedFrame::Bytes(Bytes::from(framed.clone())),
                };
                try_all(DispatchData::Serialised(f).into_local())
            }
        }
    })?;
    let _ = BytesMut::new();
    Ok(())
}
