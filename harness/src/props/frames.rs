//! F01–F03: framing of the byte stream.
use super::buffers::Alloc;
use super::gens::*;
use crate::pbt::*;
use crate::{check, check_eq};
use bytes::{Buf, BufMut, BytesMut};
use kompact::net::buffers::*;
use kompact::net::frames::*;
use std::net::{IpAddr, SocketAddr};
use std::sync::Arc;
use uuid::Uuid;

pub static PROPS: [&Prop; 3] = [
    &Prop::new("F01", "at least three frames, cut so that at least one frame spans a chunk swap or arrives in three or more pieces", 480_000, 30_000_000, f01),
    &Prop::new("F02", "the bytes contain at least one complete frame head and at least one damaged or truncated spot", 600_000, 40_000_000, f02),
    &Prop::new("F03", "the frame carries an address, or a payload held in several chunks or partly consumed", 400_000, 20_000_000, f03),
];

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Data(Vec<u8>),
    Hello(SocketAddr),
    Start(SocketAddr, Uuid),
    Ack,
    Bye,
}

pub fn addr_bytes(a: &SocketAddr) -> Vec<u8> {
    let mut v = Vec::new();
    match a.ip() {
        IpAddr::V4(x) => {
            v.push(4);
            v.extend_from_slice(&x.octets());
        }
        IpAddr::V6(x) => {
            v.push(6);
            v.extend_from_slice(&x.octets());
        }
    }
    v.extend_from_slice(&a.port().to_be_bytes());
    v
}

impl F {
    fn ty(&self) -> u8 {
        match self {
            F::Data(_) => 2,
            F::Hello(_) => 4,
            F::Start(..) => 5,
            F::Ack => 6,
            F::Bye => 7,
        }
    }
    fn content(&self) -> Vec<u8> {
        match self {
            F::Data(d) => d.clone(),
            F::Hello(a) => addr_bytes(a),
            F::Start(a, id) => {
                let mut v = addr_bytes(a);
                v.extend_from_slice(id.as_bytes());
                v
            }
            _ => vec![],
        }
    }
    pub fn wire(&self) -> Vec<u8> {
        let c = self.content();
        let mut v = vec![0xC0, 0xA1, 0xBA, 0x11];
        v.extend_from_slice(&(c.len() as u32).to_be_bytes());
        v.push(self.ty());
        v.extend(c);
        v
    }
    pub fn short(&self) -> String {
        match self {
            F::Data(d) => format!("Data({})", d.len()),
            x => format!("{:?}", x),
        }
    }
}

fn frame(s: &mut Src, maxdata: usize) -> F {
    match s.weighted(&[6, 1, 1, 1, 1]) {
        0 => {
            let n = match s.below(8) {
                0 => 0,
                1 | 2 | 3 => s.range(1, 40),
                _ => s.range(1, maxdata),
            };
            F::Data(s.bytes(n))
        }
        1 => F::Hello(SocketAddr::new(ip(s), port(s))),
        2 => F::Start(SocketAddr::new(ip(s), port(s)), uuid(s)),
        3 => F::Ack,
        _ => F::Bye,
    }
}

struct Stream {
    alloc: Alloc,
    pool: BufferPool,
    dec: DecodeBuffer,
    swaps: usize,
}

enum Got {
    F(F),
    Lease(ChunkLease),
    None,
    Err(String),
}

impl Stream {
    fn new(bc: &BufferConfig) -> Stream {
        let alloc = Alloc::new(bc.chunk_size_bytes());
        let dynalloc: Option<Arc<dyn ChunkAllocator>> = Some(Arc::new(alloc.clone()));
        let mut pool = BufferPool::with_config(bc, &dynalloc);
        let b = pool.get_buffer().unwrap();
        Stream { alloc, pool, dec: DecodeBuffer::new(b, bc), swaps: 0 }
    }
    fn swap(&mut self) -> bool {
        match self.pool.get_buffer() {
            Some(mut b) => {
                self.dec.swap_buffer(&mut b);
                self.pool.return_buffer(b);
                self.swaps += 1;
                true
            }
            None => false,
        }
    }
    fn get(&mut self) -> Got {
        match self.dec.get_frame() {
            Ok(Frame::Data(d)) => Got::Lease(d.payload()),
            Ok(Frame::Hello(h)) => Got::F(F::Hello(h.addr())),
            Ok(Frame::Start(h)) => Got::F(F::Start(h.addr(), Uuid::from_u128(h.id().as_u128()))),
            Ok(Frame::Ack()) => Got::F(F::Ack),
            Ok(Frame::Bye()) => Got::F(F::Bye),
            Err(FramingError::NoData) => Got::None,
            Err(e) => Got::Err(format!("{:?}", e)),
        }
    }
}

fn dec_cfg(s: &mut Src) -> (usize, BufferConfig) {
    let chunk = *s.pick(&[128usize, 130, 200, 512]);
    let min = *s.pick(&[64usize, 0, 1, 9, 20, 100, 127]);
    let mut bc = BufferConfig::default();
    bc.chunk_size(chunk);
    bc.initial_chunk_count(s.range(1, 3));
    bc.max_chunk_count(60);
    bc.encode_buf_min_free_space(min);
    s.note(|| format!("chunk={} min_free={}", chunk, min));
    (chunk, bc)
}

fn f01(s: &mut Src) -> CaseResult {
    let (chunk, bc) = dec_cfg(s);
    let n = s.range(1, 10);
    let frames: Vec<F> = (0..n).map(|_| frame(s, chunk * 3)).collect();
    let bytes: Vec<u8> = frames.iter().flat_map(|f| f.wire()).collect();
    s.note(|| frames.iter().map(|f| f.short()).collect::<Vec<_>>().join(","));
    let mut st = Stream::new(&bc);
    let mut pos = 0;
    let mut got = 0;
    let mut held: Vec<(ChunkLease, Vec<u8>, usize)> = Vec::new();
    let mut pieces = 0;
    let style = s.below(4);
    let eager = s.chance(1, 3);
    let asks_first = s.flag();
    let mut futile = 0;
    loop {
        // drain
        loop {
            if asks_first {
                match st.dec.has_frame() {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(e) => return fail("error-on-valid", format!("has_frame failed on a valid stream: {:?}", e)),
                }
            }
            match st.get() {
                Got::None => {
                    check!(!asks_first, "has-frame", "has_frame was true but get_frame has no data");
                    break;
                }
                Got::Err(e) => return fail("error-on-valid", format!("frame {} of {}: {}", got, n, e)),
                Got::F(f) => {
                    check!(got < n, "extra-frame", "an additional frame {:?}", f);
                    check_eq!(f, frames[got], "frame-differs", "frame {}", got);
                    got += 1;
                }
                Got::Lease(l) => {
                    check!(got < n, "extra-frame", "an additional data frame of {} bytes", l.remaining());
                    let F::Data(d) = &frames[got] else {
                        return fail("frame-differs", format!("frame {} came out as data, it is {}", got, frames[got].short()));
                    };
                    check_eq!(l.remaining(), d.len(), "payload-length", "payload length of frame {}", got);
                    held.push((l, d.clone(), got));
                    got += 1;
                }
            }
        }
        for (l, d, i) in &held {
            let b = l.create_byte_clone();
            check!(b[..] == d[..], "payload-differs", "payload of frame {} ({} bytes) differs", i, d.len());
        }
        if s.chance(1, 3) && !held.is_empty() {
            let i = s.idx(held.len());
            let (l, d, g) = held.swap_remove(i);
            // also read it the way a receiver does
            let mut r = l.into_chunk_ref();
            let b = r.copy_to_bytes(r.remaining());
            check!(b[..] == d[..], "payload-differs", "payload of frame {} ({} bytes) differs as chunk reference", g, d.len());
        }
        if pos == bytes.len() {
            break;
        }
        if eager && s.chance(1, 4) && !st.swap() {
            return undecided("pool exhausted");
        }
        // write the next piece
        let want = match style {
            0 => bytes.len(),
            1 => 1,
            2 => s.range(1, 30),
            _ => s.range(1, chunk * 2),
        };
        match st.dec.get_writeable() {
            Some(w) => {
                let k = want.min(w.len()).min(bytes.len() - pos);
                w[..k].copy_from_slice(&bytes[pos..pos + k]);
                st.dec.advance_writeable(k);
                pos += k;
                pieces += 1;
                futile = 0;
            }
            None => {
                futile += 1;
                check!(futile < 5, "no-progress", "no space to write after {} swaps in a row (chunk {}, {} readable)", futile - 1, chunk, st.dec.readable_len());
                if !st.swap() {
                    // every chunk is in use by a held payload or the chain itself
                    if held.is_empty() {
                        return fail("chunks-lost", format!("no chunk left for the stream after {} swaps although no payload is held", st.swaps));
                    }
                    held.clear();
                }
            }
        }
    }
    check_eq!(got, n, "frame-lost", "frames decoded from the complete stream");
    check_eq!(st.dec.readable_len(), 0, "left-over", "bytes left in the decoder");
    s.nontrivial_if(n >= 3 && (st.swaps > 0 || pieces >= 3));
    // the connection goes away before its messages are read
    let Stream { pool, dec, alloc, .. } = st;
    drop((pool, dec));
    for (l, d, i) in &held {
        let b = l.create_byte_clone();
        check!(b[..] == d[..], "payload-differs", "payload of frame {} ({} bytes) differs after the decode buffer was dropped", i, d.len());
    }
    drop(held);
    check_eq!(alloc.live(), 0, "chunk-leak", "chunks still allocated after dropping the decoder and all payloads");
    Ok(())
}

fn f02(s: &mut Src) -> CaseResult {
    let (chunk, bc) = dec_cfg(s);
    let mut bytes: Vec<u8> = Vec::new();
    let n = s.range(0, 5);
    for _ in 0..n {
        let f = frame(s, 60);
        bytes.extend(f.wire());
    }
    let heads = bytes.len() >= 9;
    let mut damaged = false;
    let k = s.range(0, 4);
    for _ in 0..k {
        match s.below(7) {
            0 => {
                // raw head with any type and length
                let mut v = vec![0xC0, 0xA1, 0xBA, 0x11];
                let len = match s.below(4) {
                    0 => 0,
                    1 => s.range(0, 40) as u32,
                    2 => u32::MAX - s.range(0, 20) as u32,
                    _ => s.bits() as u32,
                };
                v.extend_from_slice(&len.to_be_bytes());
                v.push(s.below(12) as u8);
                let m = s.range(0, 50);
                v.extend(s.bytes(m));
                let at = if s.flag() { bytes.len() } else { s.range(0, bytes.len()) };
                let tail = bytes.split_off(at);
                bytes.extend(v);
                bytes.extend(tail);
            }
            1 if !bytes.is_empty() => {
                let i = s.idx(bytes.len());
                bytes[i] ^= 1 << s.below(8);
            }
            2 if !bytes.is_empty() => {
                let i = s.idx(bytes.len());
                bytes[i] = s.bits() as u8;
            }
            3 if !bytes.is_empty() => {
                let i = s.range(0, bytes.len());
                bytes.truncate(i);
            }
            4 if !bytes.is_empty() => {
                let i = s.idx(bytes.len());
                bytes.remove(i);
            }
            5 => {
                let m = s.range(1, 40);
                let v = s.bytes(m);
                let at = s.range(0, bytes.len());
                let tail = bytes.split_off(at);
                bytes.extend(v);
                bytes.extend(tail);
            }
            _ => {
                // address frame with a wrong version byte or length
                let f = if s.flag() { F::Hello(SocketAddr::new(ip(s), 1)) } else { F::Start(SocketAddr::new(ip(s), 1), Uuid::nil()) };
                let mut c = f.content();
                if s.flag() {
                    c[0] = s.bits() as u8;
                }
                match s.below(3) {
                    0 => {
                        let l = s.range(0, c.len());
                        c.truncate(l);
                    }
                    1 => c.push(0),
                    _ => {}
                }
                bytes.extend_from_slice(&[0xC0, 0xA1, 0xBA, 0x11]);
                bytes.extend_from_slice(&(c.len() as u32).to_be_bytes());
                bytes.push(f.ty());
                bytes.extend(c);
            }
        }
        damaged = true;
    }
    s.note(|| format!("{} bytes: {:02x?}", bytes.len(), &bytes[..bytes.len().min(60)]));
    let mut st = Stream::new(&bc);
    let mut pos = 0;
    let mut results = 0usize;
    let mut futile = 0;
    let whole = s.flag();
    let total = bytes.len();
    let mut errored = false;
    // reference: what is well-formed up to the first damage has to come out
    let mut rp = 0;
    let mut ok_prefix = true;
    while pos < total || futile == 0 {
        loop {
            match no_panic(|| if results % 2 == 0 { st.dec.has_frame().map(|_| ()) } else { Ok(()) }) {
                Ok(Ok(())) => {}
                Ok(Err(_)) => {
                    errored = true;
                    ok_prefix = false;
                }
                Err((m, l)) => return fail("panic", format!("has_frame panicked: {} at {}", m, l)),
            }
            let r = match no_panic(|| st.get()) {
                Ok(r) => r,
                Err((m, l)) => return fail("panic", format!("get_frame panicked: {} at {}", m, l)),
            };
            results += 1;
            check!(results <= 4 * total + 20, "loop", "{} results from {} bytes", results, total);
            match r {
                Got::None => break,
                Got::Err(_) => {
                    errored = true;
                    ok_prefix = false;
                    if st.dec.readable_len() < 9 {
                        break;
                    }
                }
                Got::F(f) => {
                    if ok_prefix && rp + 9 <= total {
                        let len = u32::from_be_bytes(bytes[rp + 4..rp + 8].try_into().unwrap()) as usize;
                        check_eq!(f.ty(), bytes[rp + 8], "frame-differs", "type of the frame at byte {}", rp);
                        if let F::Hello(_) | F::Start(..) = f {
                            check!(f.content()[..] == bytes[rp + 9..rp + 9 + f.content().len().min(len)], "frame-differs", "frame at byte {} decoded as {:?}", rp, f);
                        }
                        rp += 9 + len;
                        // the body of a frame that has none is unspecified
                        if len > 0 && matches!(f, F::Ack | F::Bye) {
                            ok_prefix = false;
                        }
                    }
                }
                Got::Lease(l) => {
                    let b = l.create_byte_clone();
                    check!(b.len() <= total, "payload-length", "payload of {} bytes from {} bytes", b.len(), total);
                    if ok_prefix {
                        let len = u32::from_be_bytes(bytes[rp + 4..rp + 8].try_into().unwrap()) as usize;
                        check!(b[..] == bytes[rp + 9..rp + 9 + len], "payload-differs", "payload of the frame at byte {}", rp);
                        rp += 9 + len;
                    }
                }
            }
        }
        if pos == total {
            break;
        }
        let want = if whole { total } else { s.range(1, chunk) };
        let wrote = match no_panic(|| match st.dec.get_writeable() {
            Some(w) => {
                let k = want.min(w.len()).min(total - pos);
                w[..k].copy_from_slice(&bytes[pos..pos + k]);
                st.dec.advance_writeable(k);
                k
            }
            None => 0,
        }) {
            Ok(k) => k,
            Err((m, l)) => return fail("panic", format!("get_writeable panicked: {} at {}", m, l)),
        };
        pos += wrote;
        if wrote == 0 {
            futile += 1;
            check!(futile < 5, "no-progress", "no space to write after {} swaps", futile - 1);
            match no_panic(|| st.swap()) {
                Ok(true) => {}
                Ok(false) => return undecided("pool exhausted"),
                Err((m, l)) => return fail("panic", format!("swap_buffer panicked: {} at {}", m, l)),
            }
        } else {
            futile = 0;
        }
    }
    // a head with a wrong magic number, an unknown type or a malformed address must be an error
    if !errored {
        let mut i = 0;
        while i + 9 <= total {
            let len = u32::from_be_bytes(bytes[i + 4..i + 8].try_into().unwrap()) as usize;
            let magic = bytes[i..i + 4] == [0xC0, 0xA1, 0xBA, 0x11];
            check!(magic, "damage-accepted", "a head without the magic number at byte {} was not reported", i);
            if i + 9 + len > total {
                break;
            }
            let ty = bytes[i + 8];
            check!(matches!(ty, 2 | 4 | 5 | 6 | 7), "damage-accepted", "the unknown frame type {} at byte {} was not reported", ty, i);
            if len > 0 && matches!(ty, 6 | 7) {
                break; // the body of a frame that has none is unspecified
            }
            let c = &bytes[i + 9..i + 9 + len];
            if ty == 4 || ty == 5 {
                let extra = if ty == 5 { 16 } else { 0 };
                let ok = match c.first() {
                    Some(4) => len >= 7 + extra,
                    Some(6) => len >= 19 + extra,
                    _ => false,
                };
                check!(ok, "damage-accepted", "a malformed address frame at byte {} was not reported", i);
            }
            i += 9 + len;
        }
    }
    s.nontrivial_if(heads && damaged);
    Ok(())
}

fn f03(s: &mut Src) -> CaseResult {
    let f = frame(s, 700);
    s.note(|| f.short());
    let mut bc = BufferConfig::default();
    bc.chunk_size(128);
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let mut nontrivial = matches!(f, F::Hello(_) | F::Start(..));
    let mut expect = f.clone();
    let mut fr = match &f {
        F::Data(d) => {
            let lease = if d.is_empty() {
                ChunkLease::empty()
            } else {
                let mut e = eb.get_buffer_encoder().unwrap();
                let mut i = 0;
                while i < d.len() {
                    let k = s.range(1, d.len() - i);
                    e.put_slice(&d[i..i + k]);
                    i += k;
                }
                e.get_chunk_lease().unwrap()
            };
            let mut lease = lease;
            if d.len() > 128 {
                nontrivial = true;
            }
            if s.chance(1, 3) {
                let skip = s.range(0, d.len());
                lease.advance(skip);
                expect = F::Data(d[skip..].to_vec());
                s.note(|| format!("skip {}", skip));
                nontrivial = true;
            }
            Frame::Data(Data::new(lease))
        }
        F::Hello(a) => Frame::Hello(Hello::new(*a)),
        F::Start(a, id) => Frame::Start(Start::new(*a, kompact::net::SessionId::from_u128(id.as_u128()))),
        F::Ack => Frame::Ack(),
        F::Bye => Frame::Bye(),
    };
    let wire = expect.wire();
    check_eq!(fr.frame_type() as u8, f.ty(), "type", "frame_type");
    check_eq!(fr.encoded_len(), wire.len() - 9, "announced-length", "encoded_len");
    // a sink that refuses to grow without end
    let mut out = Limit { v: Vec::new(), max: wire.len() + 4096 };
    match no_panic(|| fr.encode_into(&mut out)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("encode-error", format!("{:?}", e)),
        Err((m, l)) => return fail("encode-panic", format!("encoding {} into an unlimited buffer: {} at {}", f.short(), m, l)),
    }
    check!(out.v == wire, "bytes", "encoding of {}: {} bytes, expected {}", expect.short(), out.v.len(), wire.len());
    // and back
    let mut st = Stream::new(&bc);
    let mut pos = 0;
    let mut back = None;
    while back.is_none() {
        match st.get() {
            Got::F(x) => back = Some(x),
            Got::Lease(l) => back = Some(F::Data(l.create_byte_clone().to_vec())),
            Got::Err(e) => return fail("decode-error", format!("decoding {}: {}", expect.short(), e)),
            Got::None => {
                check!(pos < wire.len(), "decode-incomplete", "the complete encoding of {} was not recognised", expect.short());
                match st.dec.get_writeable() {
                    Some(w) => {
                        let k = w.len().min(wire.len() - pos);
                        w[..k].copy_from_slice(&wire[pos..pos + k]);
                        st.dec.advance_writeable(k);
                        pos += k;
                    }
                    None => {
                        st.swap();
                    }
                }
            }
        }
    }
    check_eq!(back, Some(expect), "roundtrip", "decoded frame");
    let mut b2 = BytesMut::with_capacity(16);
    b2.put_slice(&wire);
    check_eq!(b2.remaining(), wire.len(), "len", "bytes");
    s.nontrivial_if(nontrivial);
    Ok(())
}

struct Limit {
    v: Vec<u8>,
    max: usize,
}
unsafe impl BufMut for Limit {
    fn remaining_mut(&self) -> usize {
        self.max - self.v.len()
    }
    unsafe fn advance_mut(&mut self, cnt: usize) {
        unsafe { self.v.advance_mut(cnt) }
    }
    fn chunk_mut(&mut self) -> &mut bytes::buf::UninitSlice {
        self.v.chunk_mut()
    }
    fn put_slice(&mut self, x: &[u8]) {
        if self.v.len() + x.len() > self.max {
            panic!("encoder writes more than {} bytes", self.max);
        }
        self.v.extend_from_slice(x);
    }
}
