//! F04: packed bit fields.
use crate::pbt::*;
use crate::{check, check_eq};
use kompact::messaging::bitfields::{BitField, BitFieldExt};

pub static PROPS: [&Prop; 1] = [&Prop::new("F04", "at least two stores, one of them spanning a byte boundary or out of range", 150_000, 12_000_000, f04)];

#[derive(Debug, Clone, Copy, PartialEq)]
struct Fld<const P: usize, const W: usize>(u8);
impl<const P: usize, const W: usize> BitField for Fld<P, W> {
    const POS: usize = P;
    const WIDTH: usize = W;
}
impl<const P: usize, const W: usize> From<Fld<P, W>> for u8 {
    fn from(f: Fld<P, W>) -> u8 {
        f.0
    }
}
impl<const P: usize, const W: usize> From<u8> for Fld<P, W> {
    fn from(x: u8) -> Self {
        Fld(x)
    }
}

type Store = fn(&mut [u8], u8) -> bool;
type Get = fn(&[u8]) -> Option<u8>;
type Chk = fn(&[u8]) -> bool;

fn st<const P: usize, const W: usize>(b: &mut [u8], v: u8) -> bool {
    b.store(Fld::<P, W>(v)).is_ok()
}
fn gt<const P: usize, const W: usize>(b: &[u8]) -> Option<u8> {
    b.get_as::<Fld<P, W>>().ok().map(|f| f.0)
}
fn ck<const P: usize, const W: usize>(b: &[u8]) -> bool {
    b.check_field::<Fld<P, W>>().is_ok()
}

macro_rules! row {
    ($p:literal; $($w:literal)*) => { [$(($p, $w, st::<$p, $w> as Store, gt::<$p, $w> as Get, ck::<$p, $w> as Chk)),*] };
}
macro_rules! table {
    ($($p:literal)*) => { [$(row!($p; 1 2 3 4 5 6 7 8 9)),*] };
}
static TABLE: [[(usize, usize, Store, Get, Chk); 9]; 26] =
    table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 30);

fn f04(s: &mut Src) -> CaseResult {
    let n = s.range(1, 4);
    let mut buf = s.bytes(n);
    let mut bits: Vec<bool> = (0..n * 8).map(|i| buf[i / 8] >> (i % 8) & 1 == 1).collect();
    let ops = s.range(1, 8);
    let mut special = false;
    for _ in 0..ops {
        let e = TABLE[s.idx(TABLE.len())][s.idx(9)];
        let (p, w, store, get, chk) = e;
        let v = s.bits() as u8;
        let fits = w <= 8 && p + w <= bits.len();
        special |= !fits || p / 8 != (p + w - 1) / 8;
        s.note(|| format!("store {:#x} at bit {} width {} in {} bytes", v, p, w, n));
        check_eq!(chk(&buf), fits, "check", "check_field pos {} width {} in {} bytes", p, w, n);
        let r = match no_panic(|| store(&mut buf, v)) {
            Ok(r) => r,
            Err((m, l)) => return fail("store-panic", format!("store pos {} width {} panicked: {} at {}", p, w, m, l)),
        };
        check_eq!(r, fits, "store-result", "store pos {} width {} in {} bytes accepted", p, w, n);
        if fits {
            for i in 0..w {
                bits[p + i] = v >> i & 1 == 1;
            }
        }
        let want: Vec<u8> = (0..n).map(|i| (0..8).map(|j| (bits[i * 8 + j] as u8) << j).sum()).collect();
        check_eq!(buf, want, "interference", "bytes after storing {:#x} at {} width {}", v, p, w);
        // read any field back
        let (p, w, _, get2, _) = TABLE[s.idx(TABLE.len())][s.idx(9)];
        let want = if w <= 8 && p + w <= bits.len() { Some((0..w).map(|i| (bits[p + i] as u8) << i).sum::<u8>()) } else { None };
        match no_panic(|| get2(&buf)) {
            Ok(g) => check_eq!(g, want, "get", "get pos {} width {}", p, w),
            Err((m, l)) => return fail("get-panic", format!("get pos {} width {} panicked: {} at {}", p, w, m, l)),
        }
        if fits {
            let m = if e.1 == 8 { 0xff } else { (1u8 << e.1) - 1 };
            check_eq!(get(&buf), Some(v & m), "read-back", "value read back");
        }
    }
    check!(buf.len() == n, "len", "buffer length changed");
    s.nontrivial_if(ops >= 2 && special);
    Ok(())
}
