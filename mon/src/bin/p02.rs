//! P02: multiplication and exponentiation.
use mon::*;

fn mul(m: &mut Mon, a: W, b: W) {
    m.case(hash_w(&[a, b]), big(a) || big(b));
    let (au, bu, ai, bi) = (A::U(a), A::U(b), A::I(a), A::I(b));
    let x = Int::u(a).mul(&Int::u(b));
    let s = Fam::unsigned(&x);
    m.class_if(s.ovf, "U256 mul overflow");
    m.class_if(!s.ovf && x.mag.bits() == 256, "U256 product within a factor 2 of the limit");
    m.class_if(s.ovf && x.mag.bits() == 257, "U256 product just above the limit");
    ck!(m, "U256 *", [au, bu], u(a) * u(b), s.op());
    ck!(m, "U256::wrapping_mul", [au, bu], u(a).wrapping_mul(u(b)), s.wrapping());
    ck!(m, "U256::checked_mul", [au, bu], u(a).checked_mul(u(b)), s.checked());
    ck!(m, "U256::overflowing_mul", [au, bu], u(a).overflowing_mul(u(b)), s.overflowing());
    ck!(m, "U256::saturating_mul", [au, bu], u(a).saturating_mul(u(b)), s.saturating());
    let x = Int::i(a).mul(&Int::i(b));
    let s = Fam::signed(&x);
    m.class_if(s.ovf && x.neg, "I256 mul negative overflow");
    m.class_if(s.ovf && !x.neg, "I256 mul positive overflow");
    m.class_if(x.neg && x.mag == Nat::pow2(255), "I256 product exactly MIN");
    m.class_if(!x.neg && x.mag == Nat::pow2(255), "I256 product exactly -MIN");
    m.class_if(!s.ovf && x.mag.bits() == 255, "I256 product within a factor 2 of the limit");
    m.class_if(s.ovf && x.mag.bits() <= 256, "I256 overflow that fits 256 magnitude bits");
    ck!(m, "I256 *", [ai, bi], i(a) * i(b), s.op());
    ck!(m, "I256::wrapping_mul", [ai, bi], i(a).wrapping_mul(i(b)), s.wrapping());
    ck!(m, "I256::checked_mul", [ai, bi], i(a).checked_mul(i(b)), s.checked());
    ck!(m, "I256::overflowing_mul", [ai, bi], i(a).overflowing_mul(i(b)), s.overflowing());
    ck!(m, "I256::saturating_mul", [ai, bi], i(a).saturating_mul(i(b)), s.saturating());
}

/// Exact power reduced mod 2^256 plus whether it overflows.
fn powf(base: &Int, e: u32, signed: bool) -> Fam {
    let mut acc = ONE;
    let mut b = base.wrap();
    let mut k = e;
    while k > 0 {
        if k & 1 == 1 {
            acc = wmul(acc, b);
        }
        b = wmul(b, b);
        k >>= 1;
    }
    let neg = base.neg && e & 1 == 1;
    // exact magnitude, capped
    let cap = Nat::pow2(300);
    let mut mag = Nat::u(1);
    let two = Nat::u(2);
    if !base.mag.lt(&two) {
        for _ in 0..e {
            if mag.bits() > 257 {
                mag = cap;
                break;
            }
            mag = mag.mul(&base.mag);
        }
    } else if base.mag.is_zero() && e > 0 {
        mag = Nat::ZERO;
    }
    let x = Int::new(neg, mag);
    let f = if signed { Fam::signed(&x) } else { Fam::unsigned(&x) };
    assert!(f.ovf || f.w == acc, "model: pow");
    Fam { w: acc, ..f }
}

fn pow(m: &mut Mon, a: W, e: u32) {
    m.case(hash_w(&[a, (7, e as u128)]), e > 1);
    let (au, ai, ex) = (A::U(a), A::I(a), A::N(e as i128));
    let s = powf(&Int::u(a), e, false);
    m.class_if(s.ovf, "U256 pow overflow");
    m.class_if(!s.ovf && e > 1 && s.w.0 >> 120 != 0, "U256 pow near the limit");
    ck!(m, "U256::pow", [au, ex], u(a).pow(e), s.op());
    ck!(m, "U256::wrapping_pow", [au, ex], u(a).wrapping_pow(e), s.wrapping());
    ck!(m, "U256::checked_pow", [au, ex], u(a).checked_pow(e), s.checked());
    ck!(m, "U256::overflowing_pow", [au, ex], u(a).overflowing_pow(e), s.overflowing());
    ck!(m, "U256::saturating_pow", [au, ex], u(a).saturating_pow(e), s.saturating());
    let s = powf(&Int::i(a), e, true);
    m.class_if(s.ovf && s.sat == IMIN, "I256 pow negative overflow");
    m.class_if(s.ovf && s.sat == IMAX, "I256 pow positive overflow");
    m.class_if(!s.ovf && e > 1 && s.w == IMIN, "I256 pow exactly MIN");
    ck!(m, "I256::pow", [ai, ex], i(a).pow(e), s.op());
    ck!(m, "I256::wrapping_pow", [ai, ex], i(a).wrapping_pow(e), s.wrapping());
    ck!(m, "I256::checked_pow", [ai, ex], i(a).checked_pow(e), s.checked());
    ck!(m, "I256::overflowing_pow", [ai, ex], i(a).overflowing_pow(e), s.overflowing());
    ck!(m, "I256::saturating_pow", [ai, ex], i(a).saturating_pow(e), s.saturating());
}

fn iter(m: &mut Mon, r: &mut Rng) {
    for _ in 0..4 {
        let (a, b) = mul_pair(r);
        mul(m, a, b);
    }
    let (a, e) = pow_pair(r);
    pow(m, a, e);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    // all power-of-two pairs +-1, both signs; small bases at every exponent
    let p = Int::new(false, Nat::pow2(k as usize));
    for j in 0..=256usize {
        let q = Int::new(false, Nat::pow2(j)).add(&Int::n(r.below(3) as i128 - 1));
        let x = p.add(&Int::n(r.below(3) as i128 - 1));
        mul(m, x.wrap(), q.wrap());
        mul(m, x.wrap(), q.neg().wrap());
        if j as u64 + k >= 254 && j as u64 + k <= 257 {
            for (d, e) in [(0, 0), (-1, 0), (0, -1), (1, 0), (-1, 1), (1, -1)] {
                let x = p.add(&Int::n(d));
                let q = Int::new(false, Nat::pow2(j)).add(&Int::n(e));
                mul(m, x.wrap(), q.wrap());
                mul(m, x.neg().wrap(), q.wrap());
                mul(m, x.wrap(), q.neg().wrap());
                mul(m, x.neg().wrap(), q.neg().wrap());
            }
        }
    }
    for b in [0i128, 1, -1, 2, -2, 3, -3, 4, 5, 7, -7, 10, 16, -16, 255, 256, 257] {
        pow(m, Int::n(b).wrap(), k as u32);
    }
    // bases around every root
    if k >= 2 && k < 257 {
        let mut r2 = Rng::new(k);
        for _ in 0..8 {
            let (a, e) = loop {
                let (a, e) = pow_pair(&mut r2);
                if e as u64 == k || r2.chance(1, 64) {
                    break (a, e);
                }
            };
            pow(m, a, e);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P02", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
