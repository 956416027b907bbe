//! Independent multi-precision reference model (base 2^32, schoolbook). Shares no code with the library.
use std::cmp::Ordering;

/// A 256-bit pattern as (high 128 bits, low 128 bits).
pub type W = (u128, u128);

pub const N: usize = 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Nat(pub [u32; N]);

impl Nat {
    pub const ZERO: Nat = Nat([0; N]);
    pub fn u(x: u128) -> Nat {
        let mut r = [0u32; N];
        for i in 0..4 {
            r[i] = (x >> (32 * i)) as u32;
        }
        Nat(r)
    }
    pub fn w(x: W) -> Nat {
        let mut r = Nat::u(x.1);
        for i in 0..4 {
            r.0[4 + i] = (x.0 >> (32 * i)) as u32;
        }
        r
    }
    pub fn pow2(k: usize) -> Nat {
        assert!(k < 32 * N);
        let mut r = Nat::ZERO;
        r.0[k / 32] = 1 << (k % 32);
        r
    }
    /// Low 256 bits.
    pub fn low(&self) -> W {
        let mut lo = 0u128;
        let mut hi = 0u128;
        for i in 0..4 {
            lo |= (self.0[i] as u128) << (32 * i);
            hi |= (self.0[4 + i] as u128) << (32 * i);
        }
        (hi, lo)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|&x| x == 0)
    }
    pub fn len(&self) -> usize {
        let mut n = N;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    pub fn bits(&self) -> usize {
        let n = self.len();
        if n == 0 {
            0
        } else {
            32 * n - self.0[n - 1].leading_zeros() as usize
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        i < 32 * N && (self.0[i / 32] >> (i % 32)) & 1 == 1
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        for i in (0..N).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &Nat) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let mut r = [0u32; N];
        let mut c = 0u64;
        for i in 0..N {
            let t = self.0[i] as u64 + o.0[i] as u64 + c;
            r[i] = t as u32;
            c = t >> 32;
        }
        assert!(c == 0, "model: add overflow");
        Nat(r)
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut r = [0u32; N];
        let mut b = 0i64;
        for i in 0..N {
            let t = self.0[i] as i64 - o.0[i] as i64 - b;
            if t < 0 {
                r[i] = (t + (1 << 32)) as u32;
                b = 1;
            } else {
                r[i] = t as u32;
                b = 0;
            }
        }
        assert!(b == 0, "model: sub underflow");
        Nat(r)
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let (n, m) = (self.len(), o.len());
        assert!(n + m <= N, "model: mul overflow");
        let mut r = [0u32; N];
        for i in 0..n {
            let mut c = 0u64;
            for j in 0..m {
                let t = self.0[i] as u64 * o.0[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            if i + m < N {
                r[i + m] = c as u32;
            }
        }
        Nat(r)
    }
    pub fn mul_small(&self, k: u32) -> Nat {
        let mut r = [0u32; N];
        let mut c = 0u64;
        for i in 0..N {
            let t = self.0[i] as u64 * k as u64 + c;
            r[i] = t as u32;
            c = t >> 32;
        }
        assert!(c == 0, "model: mul_small overflow");
        Nat(r)
    }
    pub fn divrem_small(&self, k: u32) -> (Nat, u32) {
        let mut r = [0u32; N];
        let mut c = 0u64;
        for i in (0..N).rev() {
            let t = (c << 32) | self.0[i] as u64;
            r[i] = (t / k as u64) as u32;
            c = t % k as u64;
        }
        (Nat(r), c as u32)
    }
    pub fn shl(&self, k: usize) -> Nat {
        assert!(self.bits() + k <= 32 * N, "model: shl overflow");
        let (w, b) = (k / 32, k % 32);
        let mut r = [0u32; N];
        for i in w..N {
            let mut v = (self.0[i - w] as u64) << b;
            if b > 0 && i > w {
                v |= (self.0[i - w - 1] >> (32 - b)) as u64;
            }
            r[i] = v as u32;
        }
        Nat(r)
    }
    pub fn shr(&self, k: usize) -> Nat {
        let (w, b) = (k / 32, k % 32);
        let mut r = [0u32; N];
        for i in 0..N {
            if i + w >= N {
                break;
            }
            let mut v = self.0[i + w] >> b;
            if b > 0 && i + w + 1 < N {
                v |= self.0[i + w + 1] << (32 - b);
            }
            r[i] = v;
        }
        Nat(r)
    }
    /// Bits [0, k)
    pub fn mask(&self, k: usize) -> Nat {
        let mut r = *self;
        for i in 0..N {
            if 32 * i >= k {
                r.0[i] = 0;
            } else if k - 32 * i < 32 {
                r.0[i] &= (1u32 << (k - 32 * i)) - 1;
            }
        }
        r
    }
    /// Schoolbook division in base 2^32; every result is verified by multiplication.
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero(), "model: div by zero");
        let m = d.len();
        if self.lt(d) {
            return (Nat::ZERO, *self);
        }
        let (q, r) = if m == 1 {
            let (q, r) = self.divrem_small(d.0[0]);
            (q, Nat::u(r as u128))
        } else {
            let s = d.0[m - 1].leading_zeros() as usize;
            let v = d.shl(s);
            let mut u = self.shl(s);
            let n = u.len();
            let mut q = Nat::ZERO;
            if n >= m {
                for j in (0..=(n - m)).rev() {
                    let top = if j + m < N { u.0[j + m] as u64 } else { 0 };
                    let num = (top << 32) | u.0[j + m - 1] as u64;
                    let mut qh = num / v.0[m - 1] as u64;
                    let mut rh = num % v.0[m - 1] as u64;
                    while qh >= 1 << 32 || (qh as u128) * v.0[m - 2] as u128 > (((rh as u128) << 32) | u.0[j + m - 2] as u128) {
                        qh -= 1;
                        rh += v.0[m - 1] as u64;
                        if rh >= 1 << 32 {
                            break;
                        }
                    }
                    // multiply and subtract
                    let mut borrow = 0i64;
                    let mut carry = 0u64;
                    for i in 0..=m {
                        if i + j >= N {
                            break;
                        }
                        let p = if i < m { qh * v.0[i] as u64 } else { 0 } + carry;
                        carry = p >> 32;
                        let t = u.0[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                        u.0[i + j] = t as u32;
                        borrow = if t < 0 { 1 } else { 0 };
                    }
                    if borrow != 0 {
                        qh -= 1;
                        let mut c = 0u64;
                        for i in 0..m {
                            let t = u.0[i + j] as u64 + v.0[i] as u64 + c;
                            u.0[i + j] = t as u32;
                            c = t >> 32;
                        }
                        if j + m < N {
                            u.0[j + m] = (u.0[j + m] as u64 + c) as u32;
                        }
                    }
                    q.0[j] = qh as u32;
                }
            }
            (q, u.shr(s))
        };
        assert!(r.lt(d) && q.mul(d).add(&r) == *self, "model: division self-check failed");
        (q, r)
    }
    pub fn to_radix(&self, radix: u32, upper: bool) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut v = Vec::new();
        let mut x = *self;
        while !x.is_zero() {
            let (q, r) = x.divrem_small(radix);
            let c = std::char::from_digit(r, radix).unwrap();
            v.push(if upper { c.to_ascii_uppercase() } else { c });
            x = q;
        }
        v.iter().rev().collect()
    }
}

/// Signed integer.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl Int {
    pub const ZERO: Int = Int { neg: false, mag: Nat::ZERO };
    pub fn new(neg: bool, mag: Nat) -> Int {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn n(x: i128) -> Int {
        Int::new(x < 0, Nat::u(x.unsigned_abs()))
    }
    pub fn un(x: u128) -> Int {
        Int::new(false, Nat::u(x))
    }
    /// The value of an unsigned pattern.
    pub fn u(x: W) -> Int {
        Int::new(false, Nat::w(x))
    }
    /// The value of a two's-complement pattern.
    pub fn i(x: W) -> Int {
        if x.0 >> 127 == 1 {
            Int::new(true, Nat::pow2(256).sub(&Nat::w(x)))
        } else {
            Int::u(x)
        }
    }
    /// Reduction mod 2^256.
    pub fn wrap(&self) -> W {
        let m = self.mag.mask(256);
        if self.neg && !m.is_zero() {
            Nat::pow2(256).sub(&m).low()
        } else {
            m.low()
        }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    pub fn fits_u(&self) -> bool {
        !self.neg && self.mag.bits() <= 256
    }
    pub fn fits_i(&self) -> bool {
        self.mag.bits() <= 255 || (self.neg && self.mag == Nat::pow2(255))
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag)
    }
    pub fn abs(&self) -> Int {
        Int::new(false, self.mag)
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag.lt(&o.mag) {
            Int::new(o.neg, o.mag.sub(&self.mag))
        } else {
            Int::new(self.neg, self.mag.sub(&o.mag))
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
    /// Truncated division.
    pub fn divrem(&self, d: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&d.mag);
        (Int::new(self.neg != d.neg, q), Int::new(self.neg, r))
    }
    /// Euclidean division: 0 <= r < |d|.
    pub fn divrem_euclid(&self, d: &Int) -> (Int, Int) {
        let (q, r) = self.divrem(d);
        if r.neg {
            let r2 = r.add(&d.abs());
            let q2 = if d.neg { q.add(&Int::n(1)) } else { q.sub(&Int::n(1)) };
            (q2, r2)
        } else {
            (q, r)
        }
    }
    pub fn to_string(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_radix(10, false))
    }
    pub fn in_range(&self, lo: &Int, hi: &Int) -> bool {
        self.cmp(lo) != Ordering::Less && self.cmp(hi) != Ordering::Greater
    }
}

pub const UMAX: W = (!0, !0);
pub const IMAX: W = (!0 >> 1, !0);
pub const IMIN: W = (1 << 127, 0);
pub const ZERO: W = (0, 0);
pub const ONE: W = (0, 1);
pub const M1: W = (!0, !0);

pub fn wneg(a: W) -> W {
    Int::u(a).neg().wrap()
}
pub fn wnot(a: W) -> W {
    (!a.0, !a.1)
}
pub fn wadd(a: W, b: W) -> W {
    Nat::w(a).add(&Nat::w(b)).low()
}
pub fn wsub(a: W, b: W) -> W {
    Int::u(a).sub(&Int::u(b)).wrap()
}
pub fn wmul(a: W, b: W) -> W {
    Nat::w(a).mul(&Nat::w(b)).low()
}
pub fn wshl(a: W, n: u32) -> W {
    Nat::w(a).shl((n % 256) as usize).low()
}
pub fn wshr(a: W, n: u32) -> W {
    Nat::w(a).shr((n % 256) as usize).low()
}
pub fn wsar(a: W, n: u32) -> W {
    let n = (n % 256) as usize;
    if a.0 >> 127 == 0 {
        wshr(a, n as u32)
    } else {
        wnot(wshr(wnot(a), n as u32))
    }
}
pub fn wrol(a: W, n: u32) -> W {
    let n = n % 256;
    if n == 0 {
        return a;
    }
    let (x, y) = (wshl(a, n), wshr(a, 256 - n));
    (x.0 | y.0, x.1 | y.1)
}
pub fn wbit(a: W, i: usize) -> bool {
    if i < 128 {
        (a.1 >> i) & 1 == 1
    } else {
        (a.0 >> (i - 128)) & 1 == 1
    }
}
/// Little-endian bytes.
pub fn wle(a: W) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..16 {
        r[i] = (a.1 >> (8 * i)) as u8;
        r[16 + i] = (a.0 >> (8 * i)) as u8;
    }
    r
}
pub fn wbe(a: W) -> [u8; 32] {
    let mut r = wle(a);
    r.reverse();
    r
}
pub fn from_le(b: &[u8; 32]) -> W {
    let mut r = (0u128, 0u128);
    for i in 0..16 {
        r.1 |= (b[i] as u128) << (8 * i);
        r.0 |= (b[16 + i] as u128) << (8 * i);
    }
    r
}
pub fn from_be(b: &[u8; 32]) -> W {
    let mut c = *b;
    c.reverse();
    from_le(&c)
}

/// Nearest value with `p` significand bits and exponent maximum `emax` (2^emax <= max < 2^(emax+1)),
/// ties to even, as the IEEE bit pattern (`ebits` exponent bits). Integers never go subnormal.
pub fn round_float(x: &Int, p: usize, emax: usize, ebits: usize) -> u64 {
    let sign = (x.neg as u64) << (p - 1 + ebits);
    if x.is_zero() {
        return 0;
    }
    let n = x.mag.bits();
    let mut e = n - 1;
    let mut m; // p-bit significand
    if n <= p {
        m = x.mag.low().1 << (p - n);
    } else {
        let s = n - p;
        m = x.mag.shr(s).low().1;
        let rest = x.mag.mask(s);
        match rest.cmp(&Nat::pow2(s - 1)) {
            Ordering::Greater => m += 1,
            Ordering::Equal => m += m & 1,
            Ordering::Less => {}
        }
        if m >> p == 1 {
            m >>= 1;
            e += 1;
        }
    }
    if e > emax {
        return sign | (((1u64 << ebits) - 1) << (p - 1));
    }
    let frac = (m as u64) & ((1u64 << (p - 1)) - 1);
    sign | ((e as u64 + emax as u64) << (p - 1)) | frac
}
pub fn to_f32_bits(x: &Int) -> u32 {
    round_float(x, 24, 127, 8) as u32
}
pub fn to_f64_bits(x: &Int) -> u64 {
    round_float(x, 53, 1023, 11)
}
/// None: NaN; Some(Err(neg)): infinite or at least 2^300 in magnitude; Some(Ok(v)): truncated value.
pub fn float_trunc(bits: u64, p: usize, emax: usize, ebits: usize) -> Option<Result<Int, bool>> {
    let neg = (bits >> (p - 1 + ebits)) & 1 == 1;
    let e = (bits >> (p - 1)) & ((1 << ebits) - 1);
    let f = bits & ((1u64 << (p - 1)) - 1);
    if e == (1 << ebits) - 1 {
        return if f == 0 { Some(Err(neg)) } else { None };
    }
    if e == 0 {
        return Some(Ok(Int::ZERO));
    }
    let exp = e as i64 - emax as i64; // value = 1.f * 2^exp
    if exp < 0 {
        return Some(Ok(Int::ZERO));
    }
    if exp > 300 {
        return Some(Err(neg));
    }
    let m = Nat::u((f | (1u64 << (p - 1))) as u128);
    let sh = exp - (p as i64 - 1);
    let mag = if sh >= 0 { m.shl(sh as usize) } else { m.shr((-sh) as usize) };
    Some(Ok(Int::new(neg, mag)))
}
