//! P05: bitwise operations, bit counting, byte/bit reversal, powers of two.
use mon::*;
use std::hint::black_box;

/// Uses of the counts that invite the optimiser to exploit wrong range facts.
#[inline(never)]
fn bucket(n: u32) -> u32 {
    match n {
        0 => 0,
        1..=127 => 1,
        128 => 2,
        129..=255 => 3,
        256 => 4,
        _ => 5,
    }
}
#[inline(never)]
fn lz_above_200(x: ethnum::U256) -> bool {
    x.leading_zeros() > 200
}
#[inline(never)]
fn tz_class(x: ethnum::U256) -> u32 {
    match x.trailing_zeros() {
        0 => 0,
        1..=127 => 1,
        128 => 2,
        129..=255 => 3,
        256 => 4,
        _ => 5,
    }
}
#[inline(never)]
fn lz_class(x: ethnum::I256) -> u32 {
    match x.leading_zeros() {
        0 => 0,
        1..=127 => 1,
        128 => 2,
        129..=255 => 3,
        256 => 4,
        _ => 5,
    }
}
#[inline(never)]
fn bits_used(x: ethnum::U256) -> u32 {
    256 - x.leading_zeros()
}

fn unary(m: &mut Mon, a: W) {
    m.case(hash_w(&[a]), big(a));
    let (au, ai) = (A::U(a), A::I(a));
    let bits: Vec<bool> = (0..256).map(|k| wbit(a, k)).collect();
    let ones = bits.iter().filter(|b| **b).count() as u32;
    let lz = bits.iter().rev().take_while(|b| !**b).count() as u32;
    let lo = bits.iter().rev().take_while(|b| **b).count() as u32;
    let tz = bits.iter().take_while(|b| !**b).count() as u32;
    let to = bits.iter().take_while(|b| **b).count() as u32;
    m.class_if(a == ZERO, "zero");
    m.class_if(a.0 == 0 && a.1 != 0, "high word zero");
    m.class_if(a.1 == 0 && a.0 != 0, "low word zero");
    m.class_if(lz > 128 && lz < 256, "leading zeros > 128");
    m.class_if(tz > 128 && tz < 256, "trailing zeros > 128");
    macro_rules! both {
        ($f:ident, $e:expr) => {
            ck!(m, concat!("U256::", stringify!($f)), [au], u(a).$f(), Ok($e));
            ck!(m, concat!("I256::", stringify!($f)), [ai], i(a).$f(), Ok($e));
        };
    }
    both!(count_ones, ones);
    both!(count_zeros, 256 - ones);
    both!(leading_zeros, lz);
    both!(leading_ones, lo);
    both!(trailing_zeros, tz);
    both!(trailing_ones, to);
    ck!(m, "use of U256::leading_zeros", [au], lz_above_200(black_box(u(a))), Ok(lz > 200));
    ck!(m, "use of U256::trailing_zeros", [au], tz_class(black_box(u(a))), Ok(bucket(tz)));
    ck!(m, "use of I256::leading_zeros", [ai], lz_class(black_box(i(a))), Ok(bucket(lz)));
    ck!(m, "bits used", [au], bits_used(black_box(u(a))), Ok(256 - lz));
    ck!(m, "!U256", [au], !u(a), Ok(wnot(a)));
    ck!(m, "!I256", [ai], !i(a), Ok(wnot(a)));
    ck!(m, "!&U256", [au], !&u(a), Ok(wnot(a)));
    ck!(m, "!&I256", [ai], !&i(a), Ok(wnot(a)));
    let sw = from_be(&wle(a));
    let mut rv = (0u128, 0u128);
    for k in 0..256 {
        if bits[k] {
            let j = 255 - k;
            if j < 128 {
                rv.1 |= 1 << j
            } else {
                rv.0 |= 1 << (j - 128)
            }
        }
    }
    both!(swap_bytes, sw);
    both!(reverse_bits, rv);

    let p2 = ones == 1;
    m.class_if(p2, "power of two");
    ck!(m, "U256::is_power_of_two", [au], u(a).is_power_of_two(), Ok(p2));
    let n = if a == ZERO {
        Nat::u(1)
    } else {
        let x = Nat::w(a).sub(&Nat::u(1));
        Nat::pow2(x.bits())
    };
    let f = Fam::unsigned(&Int::new(false, n));
    m.class_if(f.ovf, "next_power_of_two overflow");
    ck!(m, "U256::next_power_of_two", [au], u(a).next_power_of_two(), f.op());
    ck!(m, "U256::checked_next_power_of_two", [au], u(a).checked_next_power_of_two(), f.checked());
}

fn binary(m: &mut Mon, a: W, b: W) {
    m.case(hash_w(&[a, b]), big(a) && big(b));
    macro_rules! op {
        ($n:literal, $t:tt, $ta:tt) => {
            let e = (a.0 $t b.0, a.1 $t b.1);
            ck!(m, concat!("U256 ", $n), [A::U(a), A::U(b)], u(a) $t u(b), Ok(e));
            ck!(m, concat!("I256 ", $n), [A::I(a), A::I(b)], i(a) $t i(b), Ok(e));
            ck!(m, concat!("U256 ", $n, "="), [A::U(a), A::U(b)], { let mut x = u(a); x $ta u(b); x }, Ok(e));
            ck!(m, concat!("I256 ", $n, "="), [A::I(a), A::I(b)], { let mut x = i(a); x $ta i(b); x }, Ok(e));
        };
    }
    op!("&", &, &=);
    op!("|", |, |=);
    op!("^", ^, ^=);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = pair(r);
    unary(m, a);
    binary(m, a, b);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -2..=2 {
        let x = p.add(&Int::n(d));
        unary(m, x.wrap());
        unary(m, x.neg().wrap());
        unary(m, wnot(x.wrap()));
    }
    // every two-bit pattern
    for j in 0..256 {
        let x = wshl(ONE, k as u32);
        let y = wshl(ONE, j);
        unary(m, (x.0 | y.0, x.1 | y.1));
        binary(m, wnot(x), y);
    }
    let y = w256(r);
    binary(m, p.wrap(), y);
}

pub const PLAN: Plan = Plan { prop: "P05", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
