//! D01, D02, D03: actor paths as text and as bytes.
use super::gens::*;
use crate::pbt::*;
use crate::{check, check_eq};
use bytes::{Buf, BufMut, BytesMut};
use kompact::prelude::*;
use kompact::prelude_bench::{parse_path, validate_insert_path, validate_lookup_path};
use std::net::{IpAddr, SocketAddr};
use std::str::FromStr;
use uuid::Uuid;

pub static PROPS: [&Prop; 3] = [
    &Prop::new("D01", "the path is IPv6, has at least two segments, a wildcard, or was built step by step", 300_000, 30_000_000, d01),
    &Prop::new("D02", "the string or segment list contains a reserved character or is structurally damaged", 400_000, 40_000_000, d02),
    &Prop::new("D03", "the path has no segments, is IPv6, or has at least two segments", 300_000, 30_000_000, d03),
];

fn ref_text(p: &ActorPath) -> String {
    let host = match p.address() {
        IpAddr::V4(a) => a.to_string(),
        IpAddr::V6(a) => format!("[{}]", a),
    };
    let proto = match p.protocol() {
        Transport::Local => "local",
        Transport::Tcp => "tcp",
        Transport::Udp => "udp",
    };
    let mut s = format!("{}://{}:{}", proto, host, p.system().port());
    match p {
        ActorPath::Unique(u) => {
            s.push('#');
            s.push_str(&u.id().to_string());
        }
        ActorPath::Named(n) => {
            for x in n.path_ref() {
                s.push('/');
                s.push_str(x);
            }
        }
    }
    s
}

fn d01(s: &mut Src) -> CaseResult {
    let sys = system_path(s);
    let v6 = sys.address().is_ipv6();
    if s.chance(1, 4) {
        let u = UniquePath::with_system(sys.clone(), uuid(s));
        s.nontrivial_if(v6);
        let p = ActorPath::Unique(u.clone());
        let t = p.to_string();
        s.note(|| format!("unique {}", t));
        check_eq!(t, ref_text(&p), "unique-text", "text of a unique path");
        check_eq!(ActorPath::from_str(&t).ok(), Some(p.clone()), "unique-roundtrip", "parse({:?})", t);
        check_eq!(UniquePath::from_str(&t).ok(), Some(u.clone()), "unique-roundtrip", "UniquePath parse({:?})", t);
        check_eq!(ActorPath::try_from(t.clone()).ok(), Some(p.clone()), "unique-roundtrip", "try_from({:?})", t);
        check_eq!(sys.clone().into_unique(u.id()), u, "unique-build", "into_unique");
        let mut q = p.clone();
        let tr = transport(s);
        q.set_protocol(tr);
        check!(q.protocol() == tr && q.address() == p.address() && q.system().port() == p.system().port(), "set-protocol", "set_protocol changed more than the protocol: {} -> {}", p, q);
        check_eq!(ActorPath::from_str(&q.to_string()).ok(), Some(q.clone()), "unique-roundtrip", "parse after set_protocol");
        return Ok(());
    }
    let segs = lookup_segments(s, 5, true);
    s.nontrivial_if(v6 || segs.len() >= 2);
    let np = NamedPath::with_system(sys.clone(), segs.clone());
    let p = ActorPath::Named(np.clone());
    let t = p.to_string();
    s.note(|| format!("named {:?}", t));
    check_eq!(t, ref_text(&p), "named-text", "text of a named path");
    check_eq!(sys.to_string(), ref_text(&ActorPath::Named(NamedPath::with_system(sys.clone(), vec![]))), "system-text", "text of a system path");
    check_eq!(ActorPath::from_str(&t).ok(), Some(p.clone()), "named-roundtrip", "parse({:?})", t);
    check_eq!(NamedPath::from_str(&t).ok(), Some(np.clone()), "named-roundtrip", "NamedPath parse({:?})", t);
    check_eq!(NamedPath::try_from(t.clone()).ok(), Some(np.clone()), "named-roundtrip", "NamedPath try_from({:?})", t);
    check_eq!(NamedPath::from_str(&t).ok().map(|x| x.clone_path()), Some(segs.clone()), "named-segments", "segments of {:?}", t);
    // piece by piece, in a random split between push, append and `/`
    let mut q = NamedPath::with_system(sys.clone(), vec![]);
    let mut i = 0;
    while i < segs.len() {
        match s.below(4) {
            0 => {
                check!(q.push(segs[i].clone()).is_ok(), "push-refused", "push({:?}) onto {:?}", segs[i], q);
                i += 1;
            }
            1 => {
                q = q / segs[i].as_str();
                i += 1;
            }
            2 if segs[i].chars().count() == 1 => {
                q = q / segs[i].chars().next().unwrap();
                i += 1;
            }
            _ => {
                let k = s.range(1, segs.len() - i);
                let part = segs[i..i + k].join("/");
                match q.append(&part) {
                    Ok(n) => q = n,
                    Err(e) => return fail("append-refused", format!("append({:?}): {}", part, e)),
                }
                i += k;
            }
        }
    }
    check_eq!(q, np, "piecewise", "path built step by step");
    if !segs.is_empty() {
        check_eq!(sys.clone().into_named_with_vec(segs.clone()).ok(), Some(np.clone()), "into-named", "into_named_with_vec");
        check_eq!(sys.clone().into_named_with_string(&segs.join("/")).ok(), Some(np.clone()), "into-named", "into_named_with_string");
        check_eq!(parse_path(&segs.join("/")), segs, "parse-path", "parse_path");
    }
    let sock = SocketAddr::new(*sys.address(), sys.port());
    check_eq!(sys.socket_address(), sock, "socket", "socket_address");
    check_eq!(NamedPath::with_socket(sys.protocol(), sock, segs.clone()), np, "with-socket", "with_socket");
    check_eq!(NamedPath::new(sys.protocol(), *sys.address(), sys.port(), segs), np, "new", "NamedPath::new");
    Ok(())
}

fn seg_ok(x: &str, last: bool, insert: bool) -> bool {
    if x.is_empty() || x.contains('/') || x.contains('#') {
        return false;
    }
    if x == "*" || x == "?" {
        return last && !insert;
    }
    !x.contains('*') && !x.contains('?')
}

fn segs_ok(v: &[String], insert: bool) -> bool {
    v.iter().enumerate().all(|(i, x)| seg_ok(x, i + 1 == v.len(), insert))
}

fn ref_parse(t: &str) -> Option<ActorPath> {
    let i = t.find("://")?;
    let proto = match &t[..i] {
        "local" => Transport::Local,
        "tcp" => Transport::Tcp,
        "udp" => Transport::Udp,
        _ => return None,
    };
    let rest = &t[i + 3..];
    if rest.contains("://") {
        return None;
    }
    if let Some(h) = rest.find('#') {
        let (a, b) = (&rest[..h], &rest[h + 1..]);
        let sock: SocketAddr = a.parse().ok()?;
        let id = Uuid::parse_str(b).ok()?;
        return Some(ActorPath::Unique(UniquePath::with_socket(proto, sock, id)));
    }
    let mut parts = rest.split('/');
    let sock: SocketAddr = parts.next()?.parse().ok()?;
    let segs: Vec<String> = parts.map(|x| x.to_string()).collect();
    if !segs_ok(&segs, false) {
        return None;
    }
    Some(ActorPath::Named(NamedPath::with_socket(proto, sock, segs)))
}

fn d02(s: &mut Src) -> CaseResult {
    if s.flag() {
        // damaged text
        let base = {
            let p = actor_path(s);
            ref_text(&p)
        };
        let mut cs: Vec<char> = base.chars().collect();
        let n = s.range(0, 3);
        for _ in 0..n {
            let special = ['/', '#', '*', '?', ':', '[', ']', '0', '9', 't', 'é', '.', ' '];
            match s.below(4) {
                0 if !cs.is_empty() => {
                    let i = s.idx(cs.len());
                    cs.remove(i);
                }
                1 if !cs.is_empty() => {
                    let i = s.idx(cs.len());
                    cs[i] = *s.pick(&special);
                }
                2 => {
                    let i = s.idx(cs.len() + 1);
                    let ins: Vec<char> = s.pick(&["://", "/", "//", "#", "/*", "/?", "*", "a*b", "tcp"]).chars().collect();
                    cs.splice(i..i, ins);
                }
                _ => {
                    let i = s.idx(cs.len() + 1);
                    cs.truncate(i);
                }
            }
        }
        s.nontrivial_if(n > 0);
        let t: String = cs.into_iter().collect();
        s.note(|| format!("text {:?}", t));
        let want = ref_parse(&t);
        let got = match no_panic(|| ActorPath::from_str(&t)) {
            Ok(r) => r.ok(),
            Err((m, l)) => return fail("parse-panic", format!("parsing {:?} panicked: {} at {}", t, m, l)),
        };
        check_eq!(got, want, if want.is_some() { "parse-rejects" } else { "parse-accepts" }, "parse({:?})", t);
        for (name, r, w) in [
            ("NamedPath", no_panic(|| NamedPath::from_str(&t).ok().map(ActorPath::Named)), want.clone().filter(|x| matches!(x, ActorPath::Named(_)))),
            ("UniquePath", no_panic(|| UniquePath::from_str(&t).ok().map(ActorPath::Unique)), want.clone().filter(|x| matches!(x, ActorPath::Unique(_)))),
        ] {
            match r {
                Ok(g) => check_eq!(g, w, "parse-specific", "{} parse({:?})", name, t),
                Err((m, l)) => return fail("parse-panic", format!("{} parsing {:?} panicked: {} at {}", name, t, m, l)),
            }
        }
        return Ok(());
    }
    // segment sequences
    let n = s.range(0, 4);
    let segs: Vec<String> = (0..n).map(|_| wild_segment(s)).collect();
    s.note(|| format!("segments {:?}", segs));
    s.nontrivial_if(segs.iter().any(|x| x.is_empty() || x.contains(['*', '?', '#', '/'])));
    check_eq!(validate_lookup_path(&segs).is_ok(), segs_ok(&segs, false), "validate-lookup", "validate_lookup_path({:?})", segs);
    check_eq!(validate_insert_path(&segs).is_ok(), segs_ok(&segs, true), "validate-insert", "validate_insert_path({:?})", segs);
    let sys = system_path(s);
    check_eq!(sys.clone().into_named_with_vec(segs.clone()).is_ok(), segs_ok(&segs, false), "into-named-vec", "into_named_with_vec({:?})", segs);
    let joined = segs.join("/");
    let split: Vec<String> = joined.split('/').map(|x| x.to_string()).collect();
    check_eq!(sys.clone().into_named_with_string(&joined).is_ok(), segs_ok(&split, false), "into-named-string", "into_named_with_string({:?})", joined);
    // pushing and appending accept exactly what leads to a valid path
    let base = lookup_segments(s, 2, true);
    let np = NamedPath::with_system(sys.clone(), base.clone());
    let mut all = base.clone();
    all.extend(split.iter().cloned());
    check_eq!(np.clone().append(&joined).ok().map(|x| x.into_path()), if segs_ok(&all, false) { Some(all.clone()) } else { None }, "append", "append({:?}) to {:?}", joined, base);
    if let Some(x) = segs.first() {
        let mut q = np.clone();
        let r = q.push(x.clone());
        let mut all = base.clone();
        all.push(x.clone());
        let ok = segs_ok(&all, false);
        check_eq!(r.is_ok(), ok, "push", "push({:?}) onto {:?}", x, base);
        let want = if ok { all } else { base };
        check_eq!(q.clone_path(), want, "push-state", "path after push({:?})", x);
    }
    Ok(())
}

fn d03(s: &mut Src) -> CaseResult {
    let trailing = s.range(0, 20);
    let tail = s.bytes(trailing);
    if s.chance(1, 4) {
        let p = system_path(s);
        s.nontrivial_if(p.address().is_ipv6());
        s.note(|| format!("system path {} + {} trailing bytes", p, trailing));
        let mut b = BytesMut::new();
        check!(p.serialise(&mut b).is_ok(), "ser-error", "serialising {} failed", p);
        check_eq!(p.size_hint(), Some(b.len()), "size", "size hint of {}", p);
        b.put_slice(&tail);
        let mut b = b.freeze();
        match no_panic(|| SystemPath::deserialise(&mut b)) {
            Ok(Ok(q)) => check_eq!(q, p, "system-roundtrip", "deserialised system path"),
            Ok(Err(e)) => return fail("system-roundtrip", format!("deserialising {} failed: {:?}", p, e)),
            Err((m, l)) => return fail("deser-panic", format!("deserialising {} panicked: {} at {}", p, m, l)),
        }
        check_eq!(b.chunk(), &tail[..], "consumed", "bytes left after the system path");
        return Ok(());
    }
    let mut p = actor_path(s);
    let mut long = false;
    if s.chance(1, 60) {
        // names around the length limit of the encoding
        let n = *s.pick(&[65534usize, 65535, 65536, 65537, 70000]);
        let sys = system_path(s);
        p = ActorPath::Named(NamedPath::with_system(sys, vec!["x".repeat(n)]));
        long = n > 65535;
        s.label("long-name");
    }
    s.nontrivial_if(p.address().is_ipv6() || matches!(&p, ActorPath::Named(n) if n.path_ref().len() != 1));
    s.note(|| format!("actor path {:.80} + {} trailing bytes", ref_text(&p), trailing));
    let mut b = BytesMut::new();
    let r = p.serialise(&mut b);
    if long {
        check!(r.is_err(), "long-accepted", "a name longer than the encoding allows was serialised");
        return Ok(());
    }
    check!(r.is_ok(), "ser-error", "serialising {} failed", ref_text(&p));
    if matches!(p, ActorPath::Unique(_)) {
        check_eq!(p.size_hint(), Some(b.len()), "size", "size hint of {}", ref_text(&p));
    }
    b.put_slice(&tail);
    let mut b = b.freeze();
    match no_panic(|| ActorPath::deserialise(&mut b)) {
        Ok(Ok(q)) => check_eq!(q, p, "roundtrip", "deserialised actor path"),
        Ok(Err(e)) => return fail("roundtrip", format!("deserialising {} failed: {:?}", ref_text(&p), e)),
        Err((m, l)) => return fail("deser-panic", format!("deserialising {} panicked: {} at {}", ref_text(&p), m, l)),
    }
    check_eq!(b.chunk(), &tail[..], "consumed", "bytes left after the actor path");
    Ok(())
}
