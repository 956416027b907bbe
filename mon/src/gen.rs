//! Hostile structured operand generation.
use crate::model::*;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s.wrapping_add(0x9e3779b97f4a7c15)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        #[cfg(feature = "guided")]
        return crate::guided::draw(mix(self.0));
        #[cfg(not(feature = "guided"))]
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

/// Numbers that occur in the observed sources (`--dict`), as hints for operands; they judge nothing.
static DICT: OnceLock<Vec<u128>> = OnceLock::new();
pub fn set_dict(list: &str) {
    let _ = DICT.set(list.split(',').filter_map(|x| u128::from_str_radix(x, 16).ok()).collect());
}
/// A number next to one of the dictionary, once in a while.
fn hint(r: &mut Rng, den: u64) -> Option<u128> {
    let d = DICT.get()?;
    if d.is_empty() || !r.chance(1, den) {
        return None;
    }
    let v = *r.pick(d);
    Some(match r.below(8) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 if v < 256 => 1u128.wrapping_shl(v as u32),
        3 if v < 256 => 1u128.wrapping_shl(v as u32).wrapping_sub(1),
        _ => v,
    })
}
fn hint256(r: &mut Rng) -> Option<W> {
    let v = hint(r, 12)?;
    Some(match r.below(9) {
        0 => (v, w128(r)),
        1 => (w128(r), v),
        2 => (v, v),
        3 => (v, 0),
        4 => wneg((0, v)),
        5 => wshl((0, v), r.below(256) as u32),
        6 => Int::new(false, Nat::pow2((v % 257) as usize)).add(&small(r, 2)).wrap(),
        7 => (v, hint(r, 1).unwrap_or(0)),
        _ => (0, v),
    })
}

pub fn w64(r: &mut Rng) -> u64 {
    if let Some(v) = hint(r, 16) {
        return v as u64;
    }
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => !0,
        3 => !0 - 1,
        4 => 1 << 63,
        5 => (1 << 63) - 1,
        6 => 1u64 << r.below(64),
        7 => (1u64 << r.below(64)).wrapping_sub(1),
        8 => u32::MAX as u64,
        9 => r.next() >> r.below(64),
        _ => r.next(),
    }
}

pub fn w128(r: &mut Rng) -> u128 {
    if let Some(v) = hint(r, 16) {
        return v;
    }
    match r.below(20) {
        0 => 0,
        1 => 1,
        2 => !0,
        3 => !0 - 1,
        4 => 1 << 127,
        5 => (1 << 127) - 1,
        6 => (1 << 127) + 1,
        7 => u64::MAX as u128,
        8 => 1 << 64,
        9 => (1u128 << r.below(128)).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        10 => !((1u128 << r.below(128)).wrapping_add(r.below(3) as u128).wrapping_sub(1)),
        11 | 12 | 13 => ((w64(r) as u128) << 64) | w64(r) as u128,
        14 => {
            let mut x = 0;
            for _ in 0..4 {
                x = (x << 32) | *r.pick(&[0u128, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x12345678]);
            }
            x
        }
        15 | 16 => r.u128() >> r.below(128),
        _ => r.u128(),
    }
}

fn small(r: &mut Rng, n: i128) -> Int {
    Int::n(r.below(2 * n as u64 + 1) as i128 - n)
}

pub fn w256(r: &mut Rng) -> W {
    if let Some(v) = hint256(r) {
        return v;
    }
    match r.below(24) {
        0 => small(r, 3).wrap(),
        1 => (0, r.below(300) as u128),
        2 => wneg((0, r.below(300) as u128)),
        3 | 4 => Int::new(false, Nat::pow2(r.below(257) as usize)).add(&small(r, 3)).wrap(),
        5 => Int::new(true, Nat::pow2(r.below(257) as usize)).add(&small(r, 3)).wrap(),
        6 => Int::u(IMAX).add(&small(r, 4)).wrap(),
        7 => {
            // a run of ones
            let (a, b) = (r.below(256) as u32, r.below(257) as usize);
            let m = Nat::pow2(b).sub(&Nat::u(1)).low();
            let x = wshl(m, a);
            if r.bool() {
                wnot(x)
            } else {
                x
            }
        }
        8 => {
            let mut x = ZERO;
            for _ in 0..1 + r.below(4) {
                let k = wshl(ONE, r.below(256) as u32);
                x = (x.0 ^ k.0, x.1 ^ k.1);
            }
            if r.bool() {
                wnot(x)
            } else {
                x
            }
        }
        9 => {
            let b = r.next() as u8 as u128;
            let x = b * (u128::MAX / 255);
            (x, x)
        }
        10 | 11 => {
            let x = (r.u128(), r.u128());
            wshr(x, r.below(256) as u32)
        }
        12 => {
            let x = wshr((r.u128(), r.u128()), r.below(256) as u32);
            wneg(x)
        }
        13 => (0, w128(r)),
        14 => (!0, w128(r)),
        15 => {
            // trailing zeros
            let x = (w128(r), w128(r));
            wshl(x, r.below(256) as u32)
        }
        16 | 17 => (r.u128(), r.u128()),
        _ => (w128(r), w128(r)),
    }
}

/// A value derived from `a` so that operations on the pair sit at a boundary.
pub fn related(r: &mut Rng, a: W) -> W {
    let d = small(r, 2);
    match r.below(16) {
        0 => a,
        1 => wnot(a),
        2 => wneg(a),
        3 => Int::u(a).add(&d).wrap(),
        4 => Int::u(a).neg().add(&d).wrap(),
        5 => Int::u(UMAX).sub(&Int::u(a)).add(&d).wrap(),
        6 => Int::i(IMAX).sub(&Int::i(a)).add(&d).wrap(),
        7 => Int::i(IMIN).sub(&Int::i(a)).add(&d).wrap(),
        8 => Int::i(a).sub(&Int::i(IMAX)).add(&d).wrap(),
        9 => Int::i(a).sub(&Int::i(IMIN)).add(&d).wrap(),
        10 => (a.1, a.0),
        11 => (a.0, w128(r)),
        12 => (w128(r), a.1),
        13 => wshl(a, r.below(256) as u32),
        14 => wshr(a, r.below(256) as u32),
        _ => {
            let k = wshl(ONE, r.below(256) as u32);
            (a.0 ^ k.0, a.1 ^ k.1)
        }
    }
}

pub fn pair(r: &mut Rng) -> (W, W) {
    let a = w256(r);
    let b = if r.chance(2, 5) { related(r, a) } else { w256(r) };
    if r.bool() {
        (a, b)
    } else {
        (b, a)
    }
}

/// Pairs whose product is near 2^256, +-2^255, or near a partial-product boundary.
pub fn mul_pair(r: &mut Rng) -> (W, W) {
    if r.chance(2, 5) {
        return pair(r);
    }
    let a = match r.below(3) {
        0 => w256(r),
        1 => wshr((w128(r), w128(r)), r.below(256) as u32),
        _ => (0, w128(r)),
    };
    let neg = r.bool();
    let am = Int::i(a).abs();
    let am = if r.bool() || am.is_zero() { Int::u(a) } else { am };
    if am.is_zero() {
        return (a, w256(r));
    }
    let lim = match r.below(6) {
        0 => Nat::pow2(256).sub(&Nat::u(1)),
        1 => Nat::pow2(255),
        2 => Nat::pow2(255).sub(&Nat::u(1)),
        3 => Nat::pow2(256),
        4 => Nat::pow2(128 + r.below(128) as usize),
        _ => Nat::pow2(256).sub(&Nat::w((0, w128(r)))),
    };
    let q = lim.divrem(&am.mag).0;
    let q = Int::new(false, q).add(&small(r, 2));
    let q = if neg { q.neg() } else { q };
    let x = if r.bool() { a } else { wneg(a) };
    if r.bool() {
        (x, q.wrap())
    } else {
        (q.wrap(), x)
    }
}

/// Divisor patterns which provoke quotient-digit misestimates.
pub fn hostile_divisor(r: &mut Rng) -> W {
    let top = match r.below(6) {
        0 => 1u128 << 127,
        1 => (1 << 127) + r.below(3) as u128,
        2 => ((1u128 << 63) << 64) | r.next() as u128,
        3 => (1u128 << 127) | (u64::MAX as u128),
        4 => (1u128 << 127) | w128(r),
        _ => !0,
    };
    let low = match r.below(4) {
        0 => !0,
        1 => !0 - r.below(3) as u128,
        2 => w128(r) | (1 << 127),
        _ => w128(r),
    };
    match r.below(4) {
        0 => wshr((top, low), r.below(256) as u32),
        1 => (0, (1u128 << 127 | (w64(r) as u128)) >> r.below(128)),
        2 => (0, ((1u128 << 127) | ((u64::MAX - r.below(3)) as u128)) >> r.below(127)),
        _ => wshr((top, low), r.below(128) as u32),
    }
}

/// Dividend/divisor pairs built as q*d + r with hostile q, d, r.
pub fn div_pair(r: &mut Rng) -> (W, W) {
    if r.chance(1, 4) {
        return pair(r);
    }
    let mut d = if r.chance(3, 4) { hostile_divisor(r) } else { w256(r) };
    if d == ZERO {
        d = ONE;
    }
    let dm = Nat::w(d);
    let qmax = Nat::pow2(256).sub(&Nat::u(1)).divrem(&dm).0;
    let q = match r.below(5) {
        0 => qmax,
        1 => {
            let q = Nat::w(w256(r));
            if qmax.lt(&q) {
                q.divrem(&qmax.add(&Nat::u(1))).1
            } else {
                q
            }
        }
        2 => {
            // all digits near base 2^64
            let m = (((!r.below(4)) as u128) << 64) | (!r.below(4)) as u128;
            let q = Nat::w((if r.bool() { m } else { 0 }, m));
            if qmax.lt(&q) {
                qmax
            } else {
                q
            }
        }
        3 => qmax.shr(r.below(256) as usize),
        _ => {
            let k = r.below(3) as u128;
            if qmax.lt(&Nat::u(k)) {
                qmax
            } else {
                qmax.sub(&Nat::u(k))
            }
        }
    };
    let rem = match r.below(5) {
        0 => Nat::ZERO,
        1 => dm.sub(&Nat::u(1)),
        2 => Nat::w(w256(r)).divrem(&dm).1,
        3 => {
            let k = Nat::u(1 + r.below(3) as u128);
            if dm.lt(&k) {
                Nat::ZERO
            } else {
                dm.sub(&k)
            }
        }
        _ => Nat::u(1).divrem(&dm).1,
    };
    let n = q.mul(&dm).add(&rem).low();
    let n = if r.chance(1, 4) { Int::u(n).add(&small(r, 2)).wrap() } else { n };
    let n = if r.chance(1, 3) { wneg(n) } else { n };
    let d = if r.chance(1, 3) { wneg(d) } else { d };
    (n, d)
}

pub fn exponent(r: &mut Rng) -> u32 {
    if let Some(v) = hint(r, 12) {
        return v as u32;
    }
    match r.below(10) {
        0 => r.below(4) as u32,
        1..=4 => r.below(40) as u32,
        5 | 6 => 120 + r.below(150) as u32,
        7 => r.next() as u32,
        8 => u32::MAX - r.below(3) as u32,
        _ => (1u32 << r.below(32)).wrapping_add(r.below(3) as u32).wrapping_sub(1),
    }
}

/// A base for which base^exp lies around the range limit.
pub fn pow_pair(r: &mut Rng) -> (W, u32) {
    let e = exponent(r);
    let a = match r.below(6) {
        0 => w256(r),
        1 => small(r, 17).wrap(),
        2 => (0, r.next() as u32 as u128),
        _ => {
            // e-th root of 2^256 or 2^255 by bisection on the bit length, then +-1
            if e == 0 || e > 256 {
                small(r, 3).wrap()
            } else {
                let lim = 255 + r.below(2) as usize;
                let mut lo = 1u128;
                let mut hi = 1u128 << (lim as u32 / e + 1).min(120);
                // largest b with b^e < 2^lim
                while lo + 1 < hi {
                    let m = lo + (hi - lo) / 2;
                    if pow_fits(&Nat::u(m), e, lim) {
                        lo = m
                    } else {
                        hi = m
                    }
                }
                let x = Int::un(lo).add(&small(r, 1));
                (if r.bool() { x } else { x.neg() }).wrap()
            }
        }
    };
    (a, e)
}
fn pow_fits(b: &Nat, e: u32, lim: usize) -> bool {
    let mut acc = Nat::u(1);
    for _ in 0..e {
        if acc.bits() + b.bits() > lim + 2 {
            return false;
        }
        acc = acc.mul(b);
        if acc.bits() > lim {
            return false;
        }
    }
    acc.bits() <= lim
}

pub fn shift(r: &mut Rng) -> u32 {
    if let Some(v) = hint(r, 12) {
        return v as u32;
    }
    match r.below(8) {
        0 => *r.pick(&[0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254, 255]),
        1 => *r.pick(&[256, 257, 383, 384, 385, 511, 512, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 255, u32::MAX - 127]),
        2 => r.next() as u32,
        3 => 256 + r.below(768) as u32,
        _ => r.below(256) as u32,
    }
}

/// An integer whose conversion to a `p`-bit significand sits at a rounding boundary.
pub fn rounding_value(r: &mut Rng, p: usize) -> W {
    let len = 1 + r.below(256) as usize;
    let mut m = match r.below(4) {
        0 => Nat::pow2(p).sub(&Nat::u(1)),
        1 => Nat::pow2(p - 1),
        2 => Nat::u((r.u128() & ((1 << p) - 1)) | (1 << (p - 1))),
        _ => Nat::pow2(p).sub(&Nat::u(1 + r.below(4) as u128)),
    };
    if r.chance(1, 3) {
        m.0[0] |= 1;
    }
    let x = if len <= p {
        m.shr(p - len)
    } else {
        let s = len - p;
        let half = Nat::pow2(s - 1);
        let base = m.shl(s);
        match r.below(9) {
            0 => base,
            1 => base.add(&half),
            2 => base.add(&half).add(&Nat::u(1)),
            3 => base.add(&half).sub(&Nat::u(1)),
            4 => base.add(&half).add(&Nat::pow2(r.below(s as u64) as usize)),
            5 => base.add(&Nat::pow2(s)).sub(&Nat::u(1)),
            6 => base.add(&Nat::pow2(r.below(s as u64) as usize)),
            7 => {
                let k = Nat::pow2(r.below(s as u64) as usize);
                base.add(&half).sub(&k)
            }
            _ => base.add(&Nat::w((r.u128(), r.u128())).mask(s)),
        }
    };
    let x = x.low();
    if r.chance(1, 3) {
        wneg(x)
    } else {
        x
    }
}
