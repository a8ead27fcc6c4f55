//! Shared generators.
use crate::pbt::Src;
use kompact::prelude::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use uuid::Uuid;

pub fn ip(s: &mut Src) -> IpAddr {
    match s.below(5) {
        0 => IpAddr::V4(Ipv4Addr::LOCALHOST),
        1 => IpAddr::V4(Ipv4Addr::from(s.bits() as u32)),
        2 => IpAddr::V6(Ipv6Addr::LOCALHOST),
        3 => {
            let hi = s.bits() as u128;
            IpAddr::V6(Ipv6Addr::from((hi << 64) | s.bits() as u128))
        }
        _ => {
            // v4-mapped and sparse addresses
            let lo = s.bits() as u32 as u128;
            let m = if s.flag() { 0xffffu128 << 32 } else { (s.bits() as u16 as u128) << 112 };
            IpAddr::V6(Ipv6Addr::from(m | lo))
        }
    }
}

pub fn transport(s: &mut Src) -> Transport {
    *s.pick(&[Transport::Local, Transport::Tcp, Transport::Udp])
}

pub fn port(s: &mut Src) -> u16 {
    match s.below(3) {
        0 => 8080,
        1 => *s.pick(&[0u16, 1, 255, 256, 65535]),
        _ => s.bits() as u16,
    }
}

pub fn system_path(s: &mut Src) -> SystemPath {
    SystemPath::new(transport(s), ip(s), port(s))
}

pub fn uuid(s: &mut Src) -> Uuid {
    let hi = s.bits() as u128;
    Uuid::from_u128((hi << 64) | s.bits() as u128)
}

const CHARS: &[char] = &['a', 'b', 'Z', '0', '9', '-', '_', '.', ':', ' ', '%', '@', '[', ']', '\\', '\n', 'é', '世', '\u{1F600}', '\0'];
const SPECIAL: &[char] = &['*', '?', '#', '/'];

/// A valid insert segment.
pub fn segment(s: &mut Src) -> String {
    if s.chance(2, 3) {
        return s.pick(&["a", "b", "c", "actor", "x.y"]).to_string();
    }
    let n = s.range(1, 8);
    (0..n).map(|_| *s.pick(CHARS)).collect()
}

/// Any string, biased to the characters that matter for paths.
pub fn wild_segment(s: &mut Src) -> String {
    match s.below(8) {
        0 => segment(s),
        1 => String::new(),
        2 => "*".into(),
        3 => "?".into(),
        _ => {
            let n = s.range(0, 5);
            (0..n).map(|_| if s.chance(1, 3) { *s.pick(SPECIAL) } else { *s.pick(CHARS) }).collect()
        }
    }
}

/// A path valid for lookups: plain segments, optionally ending in a routing marker.
pub fn lookup_segments(s: &mut Src, max: usize, empty_ok: bool) -> Vec<String> {
    let n = s.range(if empty_ok { 0 } else { 1 }, max);
    let mut v: Vec<String> = (0..n).map(|_| segment(s)).collect();
    if s.chance(1, 5) {
        v.push(if s.flag() { "*".into() } else { "?".into() });
    }
    v
}

pub fn actor_path(s: &mut Src) -> ActorPath {
    let sys = system_path(s);
    if s.chance(1, 3) {
        ActorPath::Unique(UniquePath::with_system(sys, uuid(s)))
    } else {
        let segs = lookup_segments(s, 5, true);
        ActorPath::Named(NamedPath::with_system(sys, segs))
    }
}
