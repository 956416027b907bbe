//! P04: shifts and rotates.
use mon::*;

fn one(m: &mut Mon, a: W, n: u32) {
    m.case(hash_w(&[a, (3, n as u128)]), big(a) && n != 0);
    let (au, ai, x) = (A::U(a), A::I(a), A::N(n as i128));
    let o = n >= 256;
    m.class_if(o, "amount >= 256");
    m.class_if(n == 0, "amount 0");
    m.class_if(n > 0 && n < 128, "amount below one word");
    m.class_if(n == 128, "amount exactly one word");
    m.class_if(n > 128 && n < 256, "amount above one word");
    let f = |w: W| Fam { w, ovf: o, sat: w };
    let (l, r, s) = (f(wshl(a, n)), f(wshr(a, n)), f(wsar(a, n)));
    let back = wrol(a, 256 - n % 256);
    ck!(m, "U256 <<", [au, x], u(a) << n, l.op());
    ck!(m, "U256 >>", [au, x], u(a) >> n, r.op());
    ck!(m, "I256 <<", [ai, x], i(a) << n, l.op());
    ck!(m, "I256 >>", [ai, x], i(a) >> n, s.op());
    ck!(m, "U256 <<=", [au, x], { let mut v = u(a); v <<= n; v }, l.op());
    ck!(m, "U256 >>=", [au, x], { let mut v = u(a); v >>= n; v }, r.op());
    ck!(m, "I256 <<=", [ai, x], { let mut v = i(a); v <<= n; v }, l.op());
    ck!(m, "I256 >>=", [ai, x], { let mut v = i(a); v >>= n; v }, s.op());
    ck!(m, "U256::checked_shl", [au, x], u(a).checked_shl(n), l.checked());
    ck!(m, "U256::checked_shr", [au, x], u(a).checked_shr(n), r.checked());
    ck!(m, "I256::checked_shl", [ai, x], i(a).checked_shl(n), l.checked());
    ck!(m, "I256::checked_shr", [ai, x], i(a).checked_shr(n), s.checked());
    ck!(m, "U256::wrapping_shl", [au, x], u(a).wrapping_shl(n), l.wrapping());
    ck!(m, "U256::wrapping_shr", [au, x], u(a).wrapping_shr(n), r.wrapping());
    ck!(m, "I256::wrapping_shl", [ai, x], i(a).wrapping_shl(n), l.wrapping());
    ck!(m, "I256::wrapping_shr", [ai, x], i(a).wrapping_shr(n), s.wrapping());
    ck!(m, "U256::overflowing_shl", [au, x], u(a).overflowing_shl(n), l.overflowing());
    ck!(m, "U256::overflowing_shr", [au, x], u(a).overflowing_shr(n), r.overflowing());
    ck!(m, "I256::overflowing_shl", [ai, x], i(a).overflowing_shl(n), l.overflowing());
    ck!(m, "I256::overflowing_shr", [ai, x], i(a).overflowing_shr(n), s.overflowing());
    ck!(m, "U256::rotate_left", [au, x], u(a).rotate_left(n), Ok(wrol(a, n)));
    ck!(m, "U256::rotate_right", [au, x], u(a).rotate_right(n), Ok(back));
    ck!(m, "I256::rotate_left", [ai, x], i(a).rotate_left(n), Ok(wrol(a, n)));
    ck!(m, "I256::rotate_right", [ai, x], i(a).rotate_right(n), Ok(back));
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let a = w256(r);
    for _ in 0..4 {
        one(m, a, shift(r));
    }
}

/// Every amount 0..=1023 with fixed and random values.
fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    for n in [k as u32, 256 + k as u32, 512 + k as u32, u32::MAX - k as u32, (1 << 31) + k as u32] {
        for a in [ONE, M1, IMIN, IMAX, (1, 0), (0, !0), (!0, 0), (0x0123456789abcdef0011223344556677, 0x8899aabbccddeeff1032547698badcfe)] {
            one(m, a, n);
        }
        for _ in 0..40 {
            let a = w256(r);
            one(m, a, n);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P04", iter, exhaust, units: 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
