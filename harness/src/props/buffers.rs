//! B01–B04: the pooled buffers messages are encoded into.
use super::gens::*;
use crate::pbt::*;
use crate::{check, check_eq};
use bytes::{Buf, BufMut, Bytes};
use kompact::net::buffers::*;
use kompact::messaging::SerialisedFrame;
use kompact::prelude::*;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

pub static PROPS: [&Prop; 4] = [
    &Prop::new("B01", "at least three messages are held at once and one of them straddles a chunk boundary or follows a failed or abandoned encoding", 720_000, 60_000_000, b01),
    &Prop::new("B02", "the pool ran into its limit at least once and chunks were released afterwards", 720_000, 60_000_000, b02),
    &Prop::new("B03", "the message spans at least two chunks and is read in at least three steps or re-chained", 1_000_000, 60_000_000, b03),
    &Prop::new("B04", "at least one setting differs from its default and some setting is at or beyond a boundary", 160_000, 8_000_000, b04),
];

// ---------------------------------------------------------------------------------------------
// An allocator that never reuses memory: released chunks are overwritten, so that any reader of
// a released chunk sees damage, and the number of live chunks is known.
struct VecChunk(Vec<u8>);
impl Chunk for VecChunk {
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.0.as_mut_ptr()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Default)]
pub struct Ledger {
    // address, length, live
    chunks: Vec<(usize, usize, bool)>,
    quarantine: Vec<Box<VecChunk>>,
    live: usize,
    peak: usize,
    double: bool,
}
unsafe impl Send for Ledger {}

#[derive(Clone)]
pub struct Alloc {
    size: usize,
    led: Arc<Mutex<Ledger>>,
}
impl Debug for Alloc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Alloc")
    }
}
impl ChunkAllocator for Alloc {
    fn get_chunk(&self) -> *mut dyn Chunk {
        let mut b = Box::new(VecChunk(vec![0xA5; self.size]));
        let addr = b.0.as_mut_ptr() as usize;
        let mut l = self.led.lock().unwrap();
        l.chunks.push((addr, self.size, true));
        l.live += 1;
        l.peak = l.peak.max(l.live);
        Box::into_raw(b)
    }
    unsafe fn release(&self, ptr: *mut dyn Chunk) {
        let mut b: Box<VecChunk> = unsafe { Box::from_raw(ptr as *mut VecChunk) };
        let addr = b.0.as_mut_ptr() as usize;
        for x in b.0.iter_mut() {
            *x = 0xDD;
        }
        let mut l = self.led.lock().unwrap();
        let mut found = false;
        for c in l.chunks.iter_mut() {
            if c.0 == addr && c.2 {
                c.2 = false;
                found = true;
            }
        }
        if !found {
            l.double = true;
        }
        l.live = l.live.saturating_sub(1);
        l.quarantine.push(b);
    }
}

impl Alloc {
    pub fn new(size: usize) -> Alloc {
        Alloc { size, led: Default::default() }
    }
    pub fn live(&self) -> usize {
        self.led.lock().unwrap().live
    }
    pub fn peak(&self) -> usize {
        self.led.lock().unwrap().peak
    }
    /// index of the live chunk holding the address
    fn chunk_of(&self, p: *const u8) -> Option<(usize, bool)> {
        let a = p as usize;
        let l = self.led.lock().unwrap();
        l.chunks.iter().position(|c| a >= c.0 && a < c.0 + c.1).map(|i| (i, l.chunks[i].2))
    }
}

pub struct Cfg {
    pub chunk: usize,
    pub initial: usize,
    pub max: usize,
    pub min_free: usize,
}

pub fn cfg(s: &mut Src) -> (Cfg, BufferConfig) {
    let chunk = *s.pick(&[128usize, 129, 160, 256, 1000]);
    let max = s.range(2, 6);
    let initial = s.range(0, max);
    let min_free = *s.pick(&[64usize, 0, 1, 8, 9, 16, 100, 127]);
    let c = Cfg { chunk, initial, max, min_free };
    let mut b = BufferConfig::default();
    b.chunk_size(chunk);
    b.initial_chunk_count(initial);
    b.max_chunk_count(max);
    b.encode_buf_min_free_space(min_free);
    s.note(|| format!("chunk_size={} initial={} max={} min_free={}", chunk, initial, max, min_free));
    (c, b)
}

#[derive(Debug)]
struct Payload {
    parts: Vec<Part>,
    hint: Option<usize>,
    fail_after: Option<usize>,
}
#[derive(Debug, Clone)]
enum Part {
    U8(u8),
    U16(u16),
    U64(u64),
    Slice(Vec<u8>),
    /// `BufMut::put` through the trait object
    Put(Vec<u8>),
    Fill(u8, usize),
    /// `std::io::Write` on top of the buffer
    Writer(Vec<u8>),
}
impl Part {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Part::U8(x) => vec![*x],
            Part::U16(x) => x.to_be_bytes().to_vec(),
            Part::U64(x) => x.to_be_bytes().to_vec(),
            Part::Slice(v) | Part::Put(v) | Part::Writer(v) => v.clone(),
            Part::Fill(x, n) => vec![*x; *n],
        }
    }
    fn put(&self, b: &mut dyn BufMut) {
        match self {
            Part::U8(x) => b.put_u8(*x),
            Part::U16(x) => b.put_u16(*x),
            Part::U64(x) => b.put_u64(*x),
            Part::Slice(v) => b.put_slice(v),
            Part::Put(v) => {
                let (x, y) = v.split_at(v.len() / 3);
                let mut w: &mut dyn BufMut = b;
                (&mut w).put(Bytes::copy_from_slice(x).chain(Bytes::copy_from_slice(y)))
            }
            Part::Fill(x, n) => b.put_bytes(*x, *n),
            Part::Writer(v) => {
                use std::io::Write;
                // running out of buffers is reported when the message is taken out
                let _ = b.writer().write_all(v);
            }
        }
    }
}
impl Serialisable for Payload {
    fn ser_id(&self) -> SerId {
        4242
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        for (i, p) in self.parts.iter().enumerate() {
            if self.fail_after == Some(i) {
                return Err(SerError::invalid_data("as planned"));
            }
            p.put(buf);
        }
        if self.fail_after.is_some() {
            return Err(SerError::invalid_data("as planned"));
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Err(self)
    }
}

fn parts(s: &mut Src, chunk: usize) -> Vec<Part> {
    let n = s.range(1, 4);
    (0..n)
        .map(|_| match s.below(5) {
            0 => Part::U8(s.bits() as u8),
            1 => Part::U16(s.bits() as u16),
            2 => Part::U64(s.bits()),
            3 => {
                let k = s.range(1, 40);
                Part::Slice(s.bytes(k))
            }
            _ => {
                let k = match s.below(3) {
                    0 => s.range(1, chunk * 2),
                    1 => chunk - s.range(0, 3).min(chunk - 1),
                    _ => chunk + s.range(0, 20),
                };
                match s.below(6) {
                    0 => Part::Put(s.bytes(k)),
                    1 => Part::Fill(s.bits() as u8, k),
                    2 => Part::Writer(s.bytes(k)),
                    _ => Part::Slice(s.bytes(k)),
                }
            }
        })
        .collect()
}

enum Held {
    Lease(ChunkLease),
    Ref(ChunkRef),
}
impl Held {
    fn read(&self) -> Vec<u8> {
        match self {
            Held::Lease(l) => l.create_byte_clone().to_vec(),
            Held::Ref(r) => {
                let mut c = r.clone();
                let mut v = vec![0u8; c.remaining()];
                c.copy_to_slice(&mut v);
                v
            }
        }
    }
    fn capacity(&self) -> usize {
        match self {
            Held::Lease(l) => l.capacity(),
            Held::Ref(r) => r.capacity(),
        }
    }
}

/// chunks (by allocation index) a message lies in
fn spans(a: &Alloc, h: &Held) -> Vec<(usize, bool)> {
    let mut c = match h {
        Held::Ref(r) => r.clone(),
        Held::Lease(l) => {
            // walk the raw slices without consuming
            let mut out = Vec::new();
            let total = l.remaining();
            let mut seen = 0;
            // `chunk` only shows the first slice of a lease, so use the contiguous start only
            if total > 0 {
                if let Some(x) = a.chunk_of(l.chunk().as_ptr()) {
                    out.push(x);
                }
                seen += l.chunk().len();
            }
            let _ = seen;
            return out;
        }
    };
    let mut out = Vec::new();
    while c.remaining() > 0 {
        let ch = c.chunk();
        if let Some(x) = a.chunk_of(ch.as_ptr()) {
            out.push(x);
        }
        let n = ch.len();
        c.advance(n);
    }
    out
}

fn frame_bytes(content: &[u8], ty: u8) -> Vec<u8> {
    let mut v = Vec::new();
    v.put_u32(0xC0A1BA11);
    v.put_u32(content.len() as u32);
    v.put_u8(ty);
    v.extend_from_slice(content);
    v
}

fn ser_vec<S: Serialisable>(x: &S) -> Vec<u8> {
    let mut v = Vec::new();
    x.serialise(&mut v).unwrap();
    v
}

fn encode_history(s: &mut Src, limit_focus: bool) -> CaseResult {
    let (c, bc) = cfg(s);
    let alloc = Alloc::new(c.chunk);
    let dynalloc: Option<Arc<dyn ChunkAllocator>> = Some(Arc::new(alloc.clone()));
    let mut eb = EncodeBuffer::with_config(&bc, &dynalloc);
    let mut held: Vec<(Held, Vec<u8>)> = Vec::new();
    let steps = s.range(1, 25);
    let mut straddled = false;
    let mut disturbed = false;
    let mut errors = 0;
    let mut released_after_error = false;
    let mut maxheld = 0;
    for step in 0..steps {
        let op = if limit_focus { s.weighted(&[6, 2, 2, 1, 1, 5, 1]) } else { s.weighted(&[8, 3, 2, 2, 2, 3, 3]) };
        // how many chunks could be had right now?
        let current = 1;
        let mut locked: Vec<usize> = Vec::new();
        for (h, _) in &held {
            for (i, live) in spans(&alloc, h) {
                check!(live, "use-after-release", "a chunk holding a live message was returned to the allocator");
                if !locked.contains(&i) {
                    locked.push(i);
                }
            }
        }
        // only the first chunk of a lease can be seen; assume the rest lies in chunks of its own
        let hidden: usize = held
            .iter()
            .map(|(h, e)| match h {
                Held::Lease(_) if e.len() > 0 => e.len().div_ceil(c.chunk) + 1,
                _ => 0,
            })
            .sum();
        // the current chunk may be among the locked ones; counting it twice only weakens the claim
        let free = c.max.saturating_sub(locked.len() + hidden + current);
        let need = |len: usize, wl: usize, slack: usize| -> bool {
            // chunks needed at most: an eager swap plus whatever does not fit
            let more = len.saturating_sub(wl.min(len)).div_ceil(c.chunk);
            free >= more + slack
        };
        match op {
            0 => {
                // direct encoding
                let ps = parts(s, c.chunk);
                let expect: Vec<u8> = ps.iter().flat_map(|p| p.bytes()).collect();
                let as_ref = s.flag();
                let wl = eb.writeable_len();
                let use_put = s.chance(1, 4);
                s.note(|| format!("encode {} bytes in {} parts (writeable {})", expect.len(), ps.len(), wl));
                let res = (|| -> Result<ChunkLease, SerError> {
                    let mut e = eb.get_buffer_encoder()?;
                    for p in &ps {
                        match p {
                            Part::Slice(v) if use_put => {
                                let (a, b) = v.split_at(v.len() / 2);
                                e.put(Bytes::copy_from_slice(a).chain(Bytes::copy_from_slice(b)));
                            }
                            p => p.put(&mut e),
                        }
                    }
                    e.get_chunk_lease()
                })();
                match res {
                    Ok(l) => {
                        check_eq!(l.capacity(), expect.len(), "encoded-length", "capacity of an encoded message (step {})", step);
                        let h = if as_ref { Held::Ref(l.into_chunk_ref()) } else { Held::Lease(l) };
                        if spans(&alloc, &h).len() > 1 {
                            straddled = true;
                        }
                        held.push((h, expect));
                    }
                    Err(e) => {
                        errors += 1;
                        disturbed = true;
                        s.note(|| format!("  -> {:?}", e.kind()));
                        check_eq!(e.kind(), SerErrorKind::NoBuffersAvailable, "encode-error", "error of a plain encoding");
                        check!(!need(expect.len(), 0, 1), "spurious-no-buffers",
                            "encoding {} bytes failed although {} of {} chunks of {} bytes are free (step {})", expect.len(), free, c.max, c.chunk, step);
                    }
                }
            }
            1 => {
                // a complete framed message
                let src = actor_path(s);
                let dst = actor_path(s);
                let ps = parts(s, c.chunk);
                let data: Vec<u8> = ps.iter().flat_map(|p| p.bytes()).collect();
                let hint = match s.below(4) {
                    0 => None,
                    1 => Some(0),
                    2 => Some(data.len()),
                    _ => Some(s.range(0, c.chunk * (c.max + 1))),
                };
                let fail_after = if s.chance(1, 6) { Some(s.range(0, ps.len())) } else { None };
                let m = Payload { parts: ps, hint, fail_after };
                let mut content = ser_vec(&src);
                content.extend(ser_vec(&dst));
                content.put_u64(4242);
                content.extend_from_slice(&data);
                let expect = frame_bytes(&content, 2);
                s.note(|| format!("serialise_msg {} bytes (frame {}), hint {:?}, fails {:?}", data.len(), expect.len(), hint, fail_after));
                let res = match eb.get_buffer_encoder() {
                    Ok(mut e) => ser_helpers::serialise_msg(&src, &dst, &m, &mut e),
                    Err(e) => Err(e),
                };
                match res {
                    Ok(l) => {
                        check!(fail_after.is_none(), "failed-ser-accepted", "a failing serialisation produced a message");
                        let h = if s.flag() { Held::Ref(l.into_chunk_ref()) } else { Held::Lease(l) };
                        if spans(&alloc, &h).len() > 1 {
                            straddled = true;
                        }
                        held.push((h, expect));
                    }
                    Err(e) => {
                        disturbed = true;
                        if e.kind() == SerErrorKind::NoBuffersAvailable {
                            errors += 1;
                            let promised = hint.unwrap_or(0).max(data.len()) + 9 + content.len();
                            check!(!need(promised, 0, 2), "spurious-no-buffers",
                                "a message of {} bytes (size hint {:?}) was refused although {} of {} chunks of {} bytes are free (step {})",
                                expect.len(), hint, free, c.max, c.chunk, step);
                        } else {
                            check!(fail_after.is_some(), "ser-error", "serialise_msg failed: {:?}", e.kind());
                        }
                    }
                }
            }
            2 => {
                // pre-serialised content, then wrapped one or more times
                let ps = parts(s, c.chunk);
                let data: Vec<u8> = ps.iter().flat_map(|p| p.bytes()).collect();
                let m = Payload { parts: ps, hint: if s.flag() { Some(data.len()) } else { None }, fail_after: None };
                let res = match eb.get_buffer_encoder() {
                    Ok(mut e) => ser_helpers::preserialise_msg(&m, &mut e),
                    Err(e) => Err(e),
                };
                s.note(|| format!("preserialise {} bytes -> {}", data.len(), res.is_ok()));
                if let Ok(content) = res {
                    let mut expect = Vec::new();
                    expect.put_u64(4242);
                    expect.extend_from_slice(&data);
                    let n = s.range(0, 2);
                    for _ in 0..n {
                        let src = actor_path(s);
                        let dst = actor_path(s);
                        let mut full = ser_vec(&src);
                        full.extend(ser_vec(&dst));
                        full.extend_from_slice(&expect);
                        let r = match eb.get_buffer_encoder() {
                            Ok(mut e) => ser_helpers::serialise_msg_with_preserialised(&src, &dst, content.clone(), &mut e),
                            Err(e) => Err(e),
                        };
                        match r {
                            Ok(r) => {
                                straddled = true;
                                held.push((Held::Ref(r), frame_bytes(&full, 2)));
                            }
                            Err(_) => {
                                errors += 1;
                                disturbed = true;
                            }
                        }
                    }
                    held.push((Held::Ref(content), expect));
                } else {
                    errors += 1;
                    disturbed = true;
                }
            }
            3 => {
                // abandoned encoding
                let ps = parts(s, c.chunk);
                s.note(|| format!("abandon {} parts", ps.len()));
                if let Ok(mut e) = eb.get_buffer_encoder() {
                    for p in &ps {
                        p.put(&mut e);
                    }
                }
                disturbed = true;
            }
            4 => {
                let r = eb.swap_buffer();
                s.note(|| format!("swap_buffer -> {}", r.is_ok()));
                if r.is_err() {
                    errors += 1;
                    check!(free == 0, "spurious-no-buffers", "swap_buffer failed with {} free chunks", free);
                }
            }
            5 => {
                if !held.is_empty() {
                    let n = if limit_focus && s.flag() { held.len() } else { 1 };
                    for _ in 0..n {
                        let i = s.idx(held.len());
                        held.swap_remove(i);
                    }
                    s.note(|| format!("release {}", n));
                    if errors > 0 {
                        released_after_error = true;
                    }
                }
            }
            _ => {
                // clone, convert, join or partly read a held message
                if !held.is_empty() {
                    let i = s.idx(held.len());
                    let (h, e) = held.swap_remove(i);
                    match h {
                        Held::Lease(mut l) => {
                            // what was read before the conversion is dropped
                            let skip = if s.flag() { s.range(0, e.len()) } else { 0 };
                            l.advance(skip);
                            let rest = e[skip..].to_vec();
                            let other = held.iter().position(|x| matches!(x.0, Held::Ref(_)));
                            match other {
                                Some(j) if s.flag() => {
                                    let (Held::Ref(r), e2) = held.swap_remove(j) else { unreachable!() };
                                    if s.flag() {
                                        held.push((Held::Ref(l.into_chunk_ref_with_tail(r)), [rest, e2].concat()));
                                    } else {
                                        held.push((Held::Ref(l.into_chunk_ref_with_head(r)), [e2, rest].concat()));
                                    }
                                }
                                _ => held.push((Held::Ref(l.into_chunk_ref()), rest)),
                            }
                            s.note(|| format!("convert after reading {}", skip));
                        }
                        Held::Ref(r) => {
                            held.push((Held::Ref(r.clone()), e.clone()));
                            if s.flag() {
                                held.push((Held::Ref(r), e));
                            }
                        }
                    }
                }
            }
        }
        maxheld = maxheld.max(held.len());
        check!(alloc.peak() <= c.max.max(1), "pool-limit", "{} chunks were live, the limit is {}", alloc.peak(), c.max);
        for (k, (h, e)) in held.iter().enumerate() {
            check_eq!(h.capacity(), e.len(), "content-length", "length of held message {} after step {}", k, step);
            let got = h.read();
            if &got != e {
                let at = got.iter().zip(e.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(e.len()));
                return fail("content-changed", format!("message {} of {} bytes changed at byte {} after step {}", k, e.len(), at, step));
            }
        }
    }
    if !limit_focus && s.chance(1, 4) {
        // the sender goes away before its messages
        s.note(|| format!("the encode buffer is dropped with {} messages held", held.len()));
        drop(eb);
        while !held.is_empty() {
            for (k, (h, e)) in held.iter().enumerate() {
                check!(spans(&alloc, h).iter().all(|(_, live)| *live), "use-after-release", "a chunk holding a live message was returned to the allocator when the encode buffer was dropped");
                check!(&h.read() == e, "content-changed", "message {} of {} bytes changed after the encode buffer was dropped", k, e.len());
            }
            let i = s.idx(held.len());
            held.swap_remove(i);
        }
        check_eq!(alloc.live(), 0, "chunk-leak", "chunks still allocated after dropping the encode buffer and all messages");
        check!(!alloc.led.lock().unwrap().double, "double-release", "a chunk was released twice");
        s.nontrivial_if(maxheld >= 3 && (straddled || disturbed));
        return Ok(());
    }
    // everything released: the whole capacity is usable again
    held.clear();
    let big = (c.max - 1) * c.chunk;
    let m = Payload { parts: vec![Part::Slice(s.bytes(big.saturating_sub(8)))], hint: Some(big.saturating_sub(8)), fail_after: None };
    let expect = {
        let mut v = Vec::new();
        v.put_u64(4242);
        v.extend(m.parts[0].bytes());
        v
    };
    let res = match eb.get_buffer_encoder() {
        Ok(mut e) => ser_helpers::preserialise_msg(&m, &mut e),
        Err(e) => Err(e),
    };
    // get_buffer_encoder may swap eagerly, which costs no capacity
    match res {
        Ok(r) => check_eq!(Held::Ref(r).read(), expect, "content-changed", "the message filling the whole pool"),
        Err(e) => {
            return fail(
                "capacity-lost",
                format!("after releasing everything a message of {} bytes no longer fits into {} chunks of {} bytes: {:?}", big, c.max, c.chunk, e.kind()),
            );
        }
    }
    check!(alloc.peak() <= c.max, "pool-limit", "{} chunks were live, the limit is {}", alloc.peak(), c.max);
    drop(eb);
    check_eq!(alloc.live(), 0, "chunk-leak", "chunks still allocated after dropping the encode buffer and all messages");
    check!(!alloc.led.lock().unwrap().double, "double-release", "a chunk was released twice");
    if limit_focus {
        s.nontrivial_if(errors > 0 && released_after_error);
    } else {
        s.nontrivial_if(maxheld >= 3 && (straddled || disturbed));
    }
    Ok(())
}

fn b01(s: &mut Src) -> CaseResult {
    encode_history(s, false)
}

fn b02(s: &mut Src) -> CaseResult {
    if s.flag() {
        return encode_history(s, true);
    }
    // the pool itself
    let (mut c, mut bc) = cfg(s);
    // now and then a large one, most of whose chunks are in use for long
    let large = s.chance(1, 30);
    if large {
        c.max = s.range(c.max.max(20), 120);
        bc.max_chunk_count(c.max);
    }
    let alloc = Alloc::new(c.chunk);
    let dynalloc: Option<Arc<dyn ChunkAllocator>> = Some(Arc::new(alloc.clone()));
    let mut pool = BufferPool::with_config(&bc, &dynalloc);
    check_eq!(pool.get_pool_sizes(), (c.initial, c.initial), "initial-size", "pool sizes after creation");
    let mut out: Vec<BufferChunk> = Vec::new();
    // leases into returned chunks
    let mut leases: Vec<(ChunkLease, usize, u8)> = Vec::new();
    // returned chunks and whether they are locked by leases: id = address
    let mut hit = false;
    let mut rel = false;
    let mut inpool: Vec<usize> = Vec::new(); // addresses of chunks returned
    let steps = if large { s.range(40, 600) } else { s.range(2, 40) };
    let addr_of = |a: &Alloc, c: &mut BufferChunk| -> usize {
        let l = c.get_lease(0, 1);
        let (i, _) = a.chunk_of(l.chunk().as_ptr()).unwrap();
        i
    };
    for step in 0..steps {
        match s.weighted(if large { &[6, 4, 4, 1] } else { &[5, 3, 3, 2] }) {
            0 => {
                let fresh = c.max - out.len() - inpool.len();
                let reclaimable = inpool.iter().filter(|x| !leases.iter().any(|l| l.1 == **x)).count();
                let r = pool.get_buffer();
                s.note(|| format!("get -> {} (could: {} reclaimable, {} new)", r.is_some(), reclaimable, fresh));
                match r {
                    Some(mut b) => {
                        check_eq!(b.len(), c.chunk, "chunk-size", "size of a chunk");
                        let id = addr_of(&alloc, &mut b);
                        check!(!leases.iter().any(|l| l.1 == id), "reused-while-held", "step {}: a chunk still referenced by a message was handed out", step);
                        inpool.retain(|x| *x != id);
                        out.push(b);
                    }
                    None => {
                        hit = true;
                        check!(fresh == 0 && reclaimable == 0, "spurious-no-buffers", "step {}: no buffer although {} are reclaimable and {} may be allocated", step, reclaimable, fresh);
                    }
                }
            }
            1 => {
                if !out.is_empty() {
                    let i = s.idx(out.len());
                    let mut b = out.swap_remove(i);
                    let id = addr_of(&alloc, &mut b);
                    inpool.push(id);
                    pool.return_buffer(b);
                    s.note(|| "return".to_string());
                }
            }
            2 => {
                if !out.is_empty() {
                    let i = s.idx(out.len());
                    let from = s.range(0, c.chunk - 1);
                    let to = s.range(from + 1, c.chunk);
                    let id = addr_of(&alloc, &mut out[i]);
                    let l = out[i].get_lease(from, to);
                    check_eq!(l.capacity(), to - from, "lease-length", "length of a lease");
                    leases.push((l, id, 0));
                    s.note(|| "lease".to_string());
                }
            }
            _ => {
                if !leases.is_empty() {
                    let i = s.idx(leases.len());
                    leases.swap_remove(i);
                    rel = rel || hit;
                    s.note(|| "release lease".to_string());
                }
            }
        }
        check!(alloc.peak() <= c.max, "pool-limit", "{} chunks live, limit {}", alloc.peak(), c.max);
        check!(pool.get_pool_sizes().0 <= c.max, "pool-limit", "pool counts {} chunks, limit {}", pool.get_pool_sizes().0, c.max);
    }
    leases.clear();
    for b in out.drain(..) {
        pool.return_buffer(b);
    }
    let mut all = Vec::new();
    while let Some(b) = pool.get_buffer() {
        all.push(b);
        if all.len() > c.max {
            break;
        }
    }
    check_eq!(all.len(), c.max, "capacity-lost", "chunks available after everything was released");
    drop(all);
    drop(pool);
    check_eq!(alloc.live(), 0, "chunk-leak", "chunks still allocated after dropping everything");
    s.nontrivial_if(hit && rel);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
enum Rd {
    Lease(ChunkLease),
    Ref(ChunkRef),
    Frame(SerialisedFrame),
}
impl Rd {
    fn buf(&mut self) -> &mut dyn Buf {
        match self {
            Rd::Lease(l) => l,
            Rd::Ref(r) => r,
            Rd::Frame(SerialisedFrame::Bytes(b)) => b,
            Rd::Frame(SerialisedFrame::ChunkLease(b)) => b,
            Rd::Frame(SerialisedFrame::ChunkRef(b)) => b,
        }
    }
}

fn b03(s: &mut Src) -> CaseResult {
    let mut bc = BufferConfig::default();
    let chunk = *s.pick(&[128usize, 130, 200]);
    bc.chunk_size(chunk);
    bc.max_chunk_count(40);
    bc.encode_buf_min_free_space(*s.pick(&[0usize, 8, 64]));
    let mut eb = EncodeBuffer::with_config(&bc, &None);
    let make = |s: &mut Src, eb: &mut EncodeBuffer| -> (ChunkLease, Vec<u8>) {
        let n = match s.below(3) {
            0 => s.range(1, 30),
            1 => s.range(1, chunk),
            _ => s.range(chunk, chunk * 3),
        };
        let d = s.bytes(n);
        let mut e = eb.get_buffer_encoder().unwrap();
        let mut i = 0;
        while i < d.len() {
            let k = s.range(1, d.len() - i);
            e.put_slice(&d[i..i + k]);
            i += k;
        }
        (e.get_chunk_lease().unwrap(), d)
    };
    let (l, d) = make(s, &mut eb);
    let mut multi = d.len() > chunk;
    let mut pool: Vec<(Rd, Vec<u8>)> = vec![(if s.flag() { Rd::Ref(l.into_chunk_ref()) } else { Rd::Lease(l) }, d)];
    let mut reads = 0;
    let mut chained = false;
    let steps = s.range(1, 20);
    for step in 0..steps {
        let i = s.idx(pool.len());
        let left = pool[i].1.len();
        match s.weighted(&[2, 2, 3, 3, 2, 2, 2, 2, 2, 1]) {
            0 if left >= 1 => {
                let x = pool[i].0.buf().get_u8();
                s.note(|| "get_u8".into());
                check_eq!(x, pool[i].1[0], "read-differs", "step {}: get_u8", step);
                pool[i].1.remove(0);
                reads += 1;
            }
            1 if left >= 8 => {
                let x = pool[i].0.buf().get_u64();
                s.note(|| "get_u64".into());
                check_eq!(x, u64::from_be_bytes(pool[i].1[..8].try_into().unwrap()), "read-differs", "step {}: get_u64", step);
                pool[i].1.drain(..8);
                reads += 1;
            }
            2 => {
                let n = s.range(0, left);
                s.note(|| format!("copy_to_slice {}/{}", n, left));
                let mut v = vec![0; n];
                pool[i].0.buf().copy_to_slice(&mut v);
                check!(v == pool[i].1[..n], "read-differs", "step {}: copy_to_slice({}) of {}", step, n, left);
                pool[i].1.drain(..n);
                reads += 1;
            }
            3 => {
                let n = s.range(0, left);
                s.note(|| format!("advance {}/{}", n, left));
                pool[i].0.buf().advance(n);
                pool[i].1.drain(..n);
                reads += 1;
            }
            4 => {
                let n = s.range(0, left);
                s.note(|| format!("copy_to_bytes {}/{}", n, left));
                let b = pool[i].0.buf().copy_to_bytes(n);
                check!(b[..] == pool[i].1[..n], "read-differs", "step {}: copy_to_bytes({}) of {}", step, n, left);
                pool[i].1.drain(..n);
                reads += 1;
            }
            5 => {
                // clone
                let m = pool[i].1.clone();
                let c = match &pool[i].0 {
                    Rd::Ref(r) => Some(Rd::Ref(r.clone())),
                    Rd::Frame(SerialisedFrame::ChunkRef(r)) => Some(Rd::Ref(r.clone())),
                    Rd::Lease(l) => {
                        let b = l.create_byte_clone();
                        check!(b[..] == m[..], "clone-differs", "step {}: create_byte_clone of {} bytes", step, m.len());
                        None
                    }
                    _ => None,
                };
                s.note(|| "clone".into());
                if let Some(c) = c {
                    pool.push((c, m));
                }
            }
            6 => {
                // lease to ref
                let (r, m) = pool.swap_remove(i);
                let r = match r {
                    Rd::Lease(l) => {
                        s.note(|| format!("into_chunk_ref with {} left", m.len()));
                        let r = l.into_chunk_ref();
                        check_eq!(r.capacity(), m.len(), "capacity-differs", "step {}: capacity after into_chunk_ref", step);
                        Rd::Ref(r)
                    }
                    x => x,
                };
                pool.push((r, m));
            }
            7 => {
                // fresh lease in front of or behind an existing reference
                if matches!(pool[i].0, Rd::Ref(_)) {
                    let (r, m) = pool.swap_remove(i);
                    let (mut l, mut d) = make(s, &mut eb);
                    let skip = if s.flag() { 0 } else { s.range(0, d.len()) };
                    l.advance(skip);
                    d.drain(..skip);
                    let Rd::Ref(r) = r else { unreachable!() };
                    let tail = s.flag();
                    s.note(|| format!("chain {} + {} (as_tail={}, skip {})", m.len(), d.len(), tail, skip));
                    if s.chance(1, 3) {
                        pool.push((Rd::Ref(r.clone()), m.clone()));
                    }
                    let (r, m) = if tail {
                        d.extend_from_slice(&m);
                        (l.into_chunk_ref_with_tail(r), d)
                    } else {
                        let mut m = m;
                        m.extend_from_slice(&d);
                        (l.into_chunk_ref_with_head(r), m)
                    };
                    pool.push((Rd::Ref(r), m));
                    chained = true;
                    multi = true;
                }
            }
            8 => {
                let (r, m) = pool.swap_remove(i);
                let f = match r {
                    Rd::Lease(l) => SerialisedFrame::ChunkLease(l),
                    Rd::Ref(r) => SerialisedFrame::ChunkRef(r),
                    Rd::Frame(mut f) => {
                        if s.flag() {
                            s.note(|| "make_contiguous".into());
                            f.make_contiguous();
                            check_eq!(f.bytes().len(), m.len(), "contiguous", "step {}: bytes after make_contiguous", step);
                        }
                        f
                    }
                };
                check_eq!(f.len(), m.len(), "frame-len", "step {}: SerialisedFrame::len", step);
                check_eq!(f.is_empty(), m.is_empty(), "frame-len", "step {}: SerialisedFrame::is_empty", step);
                check!(m.starts_with(f.bytes()), "frame-bytes", "step {}: SerialisedFrame::bytes is no prefix of the content", step);
                check!(m.is_empty() || !f.bytes().is_empty(), "frame-bytes", "step {}: empty bytes of a non-empty frame", step);
                pool.push((Rd::Frame(f), m));
            }
            9 => {
                if pool.len() > 1 {
                    pool.swap_remove(i);
                }
            }
            _ => {}
        }
        for (k, (r, m)) in pool.iter_mut().enumerate() {
            let b = r.buf();
            check_eq!(b.remaining(), m.len(), "remaining", "remaining of message {} after step {}", k, step);
            check!(m.starts_with(b.chunk()), "chunk-differs", "chunk() of message {} is no prefix of its content after step {}", k, step);
            check!(m.is_empty() == b.chunk().is_empty(), "chunk-empty", "chunk() of message {} with {} bytes left has {} bytes after step {}", k, m.len(), b.chunk().len(), step);
        }
    }
    s.nontrivial_if(multi && (reads >= 3 || chained));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
fn b04(s: &mut Src) -> CaseResult {
    let size = |s: &mut Src| -> usize { *s.pick(&[128usize, 127, 129, 0, 64, 1, 200, 500, 1000, 1024, 4096]) };
    let cnt = |s: &mut Src| -> usize { *s.pick(&[2usize, 1, 0, 3, 5, 8]) };
    let chunk = if s.flag() { Some(size(s)) } else { None };
    let min = if s.flag() { Some(size(s)) } else { None };
    let initial = if s.flag() { Some(cnt(s)) } else { None };
    let max = if s.flag() { Some(cnt(s)) } else { None };
    let (ec, em, ei, ex) = (chunk.unwrap_or(128_000), min.unwrap_or(64), initial.unwrap_or(2), max.unwrap_or(1000));
    let valid = ei <= ex && ec >= 128 && em < ec && ex >= 2;
    let mut b = BufferConfig::default();
    if let Some(x) = chunk {
        b.chunk_size(x);
    }
    if let Some(x) = min {
        b.encode_buf_min_free_space(x);
    }
    if let Some(x) = initial {
        b.initial_chunk_count(x);
    }
    if let Some(x) = max {
        b.max_chunk_count(x);
    }
    s.note(|| format!("chunk {:?} min {:?} initial {:?} max {:?} valid {}", chunk, min, initial, max, valid));
    s.nontrivial_if((chunk.is_some() || min.is_some() || initial.is_some() || max.is_some()) && (ec <= 129 || em + 1 >= ec || ei >= ex || ex <= 2));
    check_eq!(b.chunk_size_bytes(), ec, "effect", "chunk_size_bytes");
    check_eq!(no_panic(|| b.validate()).is_ok(), valid, "validate", "validate accepts");
    // the same from a configuration source
    let mut txt = String::from("[buffer_config]\n");
    let bytes = |s: &mut Src, x: usize| -> String {
        match s.below(4) {
            0 => format!("\"{} B\"", x),
            1 => format!("\"{}B\"", x),
            2 => format!("{}", x),
            _ => {
                if x % 1024 == 0 && x > 0 {
                    format!("\"{} KiB\"", x / 1024)
                } else if x % 1000 == 0 && x > 0 {
                    format!("\"{} KB\"", x / 1000)
                } else {
                    format!("\"{} B\"", x)
                }
            }
        }
    };
    if let Some(x) = chunk {
        let v = bytes(s, x);
        txt.push_str(&format!("chunk_size = {}\n", v));
    }
    if let Some(x) = min {
        let v = bytes(s, x);
        txt.push_str(&format!("encode_min_remaining = {}\n", v));
    }
    if let Some(x) = initial {
        txt.push_str(&format!("initial_chunk_count = {}\n", x));
    }
    if let Some(x) = max {
        txt.push_str(&format!("max_chunk_count = {}\n", x));
    }
    s.note(|| txt.replace('\n', "; "));
    let doc = match kompact::config::parse_config_str(&txt) {
        Ok(d) => d,
        Err(e) => return fail("parse", format!("configuration did not parse: {:?}\n{}", e, txt)),
    };
    match no_panic(|| BufferConfig::from_config(&doc)) {
        Ok(fc) => {
            check!(valid, "accepted-invalid", "an inconsistent configuration was accepted: {:?}", fc);
            check_eq!(fc, b, "source-differs", "configuration read from\n{}", txt);
        }
        Err((m, _)) => check!(!valid, "refused-valid", "a consistent configuration was refused: {}\n{}", m, txt),
    }
    if valid && ec <= 4096 && ex <= 1000 {
        let alloc = Alloc::new(ec);
        let da: Option<Arc<dyn ChunkAllocator>> = Some(Arc::new(alloc.clone()));
        {
            let mut pool = BufferPool::with_config(&b, &da);
            check_eq!(alloc.live(), ei, "effect", "chunks allocated up front");
            let mut all = Vec::new();
            while let Some(x) = pool.get_buffer() {
                check_eq!(x.len(), ec, "effect", "chunk size");
                all.push(x);
                if all.len() > ex {
                    break;
                }
            }
            check_eq!(all.len(), ex, "effect", "chunks the pool can hand out");
        }
        {
            let mut pool = BufferPool::with_config(&b, &None);
            check_eq!(pool.get_buffer().map(|x| x.len()), Some(ec), "effect", "chunk size of the default allocator");
        }
        // the minimum free space decides when a new chunk is started
        let mut eb = EncodeBuffer::with_config(&b, &da);
        let k = match s.below(3) {
            0 => ec - em,
            1 => (ec - em).saturating_sub(1),
            _ => (ec - em + 1).min(ec),
        };
        if k > 0 {
            let d = s.bytes(k);
            let _keep = {
                let mut e = eb.get_buffer_encoder().unwrap();
                e.put_slice(&d);
                e.get_chunk_lease().unwrap()
            };
            let left = eb.writeable_len();
            check_eq!(left, ec - k, "effect", "space left after writing {}", k);
            let swapped = {
                let _ = eb.get_buffer_encoder().unwrap();
                eb.writeable_len() != left
            };
            check_eq!(swapped, left < em && left != ec, "effect", "new chunk started with {} bytes left and a minimum of {}", left, em);
        }
    }
    Ok(())
}
