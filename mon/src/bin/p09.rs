//! P09: integer to float.
use mon::*;

fn one(m: &mut Mon, a: W) {
    let (ua, ia) = (Int::u(a), Int::i(a));
    m.case(hash_w(&[a]), ua.mag.bits() > 24 && a.0 != !0);
    let (au, ai) = (A::U(a), A::I(a));
    let (eu32, eu64, ei32, ei64) = (to_f32_bits(&ua), to_f64_bits(&ua), to_f32_bits(&ia), to_f64_bits(&ia));
    // classes
    for (x, p) in [(&ua, 24usize), (&ua, 53), (&ia, 24), (&ia, 53)] {
        let n = x.mag.bits();
        if n > p {
            let s = n - p;
            let rest = x.mag.mask(s);
            m.class_if(rest.is_zero(), "exact, more bits than the significand");
            let c = rest.cmp(&Nat::pow2(s - 1));
            m.class_if(c == std::cmp::Ordering::Equal, "exact tie");
            if c == std::cmp::Ordering::Greater && rest.sub(&Nat::pow2(s - 1)).bits() + 64 < s {
                m.class("just above a tie, deciding bit far below");
            }
            if n > 128 && c == std::cmp::Ordering::Greater && rest.sub(&Nat::pow2(s - 1)).bits() <= 128 {
                m.class("tie broken by the low word only");
            }
        }
    }
    m.class_if(eu32 == f32::INFINITY.to_bits(), "f32 overflow");
    m.class_if(ua.mag.bits() == 128 && a.0 == 0, "f32 boundary region");
    // the oracle itself is cross-checked against the hardware for 128-bit values
    if a.0 == 0 && ((a.1 as f32).to_bits() != eu32 || (a.1 as f64).to_bits() != eu64) {
        panic!("float oracle disagrees with the hardware on {a:x?}");
    }
    ck!(m, "U256::as_f32", [au], u(a).as_f32().to_bits(), Ok(eu32));
    ck!(m, "U256::as_f64", [au], u(a).as_f64().to_bits(), Ok(eu64));
    ck!(m, "I256::as_f32", [ai], i(a).as_f32().to_bits(), Ok(ei32));
    ck!(m, "I256::as_f64", [ai], i(a).as_f64().to_bits(), Ok(ei64));
    ck!(m, "f32::from(U256)", [au], f32::from(u(a)).to_bits(), Ok(eu32));
    ck!(m, "f64::from(U256)", [au], f64::from(u(a)).to_bits(), Ok(eu64));
    ck!(m, "f32::from(I256)", [ai], f32::from(i(a)).to_bits(), Ok(ei32));
    ck!(m, "f64::from(I256)", [ai], f64::from(i(a)).to_bits(), Ok(ei64));
    // monotonicity between neighbours, from observed results only
    if a != UMAX && a != IMAX {
        let b = wadd(a, ONE);
        ck!(m, "monotonic to f64", [au], u(a).as_f64() <= u(b).as_f64(), Ok(true));
        ck!(m, "monotonic to f32", [au], u(a).as_f32() <= u(b).as_f32(), Ok(true));
        ck!(m, "monotonic I256 to f64", [ai], i(a).as_f64() <= i(b).as_f64(), Ok(true));
        ck!(m, "monotonic I256 to f32", [ai], i(a).as_f32() <= i(b).as_f32(), Ok(true));
    }
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let p = if r.bool() { 24 } else { 53 };
    let a = if r.chance(1, 4) { w256(r) } else { rounding_value(r, p) };
    one(m, a);
}

/// For every bit length and both precisions: a significand, half an ulp, and one bit anywhere below it.
fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let len = k as usize + 1;
    for p in [24usize, 53] {
        if len <= p {
            one(m, Nat::pow2(len - 1).low());
            one(m, Nat::pow2(len).sub(&Nat::u(1)).low());
            continue;
        }
        let s = len - p;
        let sig = Nat::u((r.u128() & ((1 << p) - 1)) | (1 << (p - 1)));
        for sig in [sig, Nat::pow2(p - 1), Nat::pow2(p).sub(&Nat::u(1)), Nat::pow2(p).sub(&Nat::u(2))] {
            let half = sig.shl(s).add(&Nat::pow2(s - 1));
            one(m, half.low());
            one(m, wneg(half.low()));
            for j in 0..s - 1 {
                for x in [half.add(&Nat::pow2(j)), half.sub(&Nat::pow2(j))] {
                    one(m, x.low());
                    one(m, wneg(x.low()));
                }
            }
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P09", iter, exhaust, units: 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
