//! P10: float to integer.
use ethnum::{AsI256, AsU256};
use mon::*;

fn sat(t: &Option<Result<Int, bool>>, signed: bool) -> W {
    match t {
        None => ZERO,
        Some(Err(neg)) => match (signed, neg) {
            (false, true) => ZERO,
            (false, false) => UMAX,
            (true, true) => IMIN,
            (true, false) => IMAX,
        },
        Some(Ok(v)) => {
            let f = if signed { Fam::signed(v) } else { Fam::unsigned(v) };
            f.sat
        }
    }
}

fn classes(m: &mut Mon, t: &Option<Result<Int, bool>>) {
    match t {
        None => m.class("NaN"),
        Some(Err(_)) => m.class("infinite or huge"),
        Some(Ok(v)) => {
            m.class_if(v.neg, "negative truncated value");
            m.class_if(v.mag.bits() > 128, "needs the high word");
            m.class_if(v.mag.bits() == 256, "in the top binade of U256");
            m.class_if(v.mag.bits() == 255, "in the top binade of I256");
            m.class_if(v.mag.bits() == 257, "first binade out of range");
        }
    }
}

fn f32_one(m: &mut Mon, b: u32) {
    let t = float_trunc(b as u64, 24, 127, 8);
    classes(m, &t);
    m.case(b as u64, t.is_some() && t != Some(Ok(Int::ZERO)));
    let f = f32::from_bits(b);
    let a = A::X(b as u128);
    ck!(m, "f32.as_u256()", [a], f.as_u256(), Ok(sat(&t, false)));
    ck!(m, "f32.as_i256()", [a], f.as_i256(), Ok(sat(&t, true)));
    // cross-check the oracle against the hardware where 128 bits suffice
    if let Some(Ok(v)) = &t {
        if v.mag.bits() < 127 && Int::n(f as i128) != *v {
            panic!("float oracle disagrees with the hardware on f32 {b:x}");
        }
    }
}
fn f64_one(m: &mut Mon, b: u64) {
    let t = float_trunc(b, 53, 1023, 11);
    classes(m, &t);
    m.case(b ^ 0x5555, t.is_some() && t != Some(Ok(Int::ZERO)));
    let f = f64::from_bits(b);
    let a = A::X(b as u128);
    ck!(m, "f64.as_u256()", [a], f.as_u256(), Ok(sat(&t, false)));
    ck!(m, "f64.as_i256()", [a], f.as_i256(), Ok(sat(&t, true)));
    if let Some(Ok(v)) = &t {
        if v.mag.bits() < 127 && Int::n(f as i128) != *v {
            panic!("float oracle disagrees with the hardware on f64 {b:x}");
        }
    }
}

/// Exactly representable integers survive the round trip (observed results only).
fn round_trip(m: &mut Mon, r: &mut Rng) {
    let e = r.below(256) as usize;
    let s24 = Nat::u(r.next() as u128 >> 40).shl(e);
    let s53 = Nat::u(r.next() as u128 >> 11).shl(e);
    for (s, single) in [(s24, true), (s53, false)] {
        let x = Int::new(r.bool(), s);
        let w = x.wrap();
        if x.fits_u() {
            if single && x.mag.bits() <= 128 {
                ck!(m, "U256 -> f32 -> U256", [A::U(w)], u(w).as_f32().as_u256(), Ok(w));
            }
            ck!(m, "U256 -> f64 -> U256", [A::U(w)], u(w).as_f64().as_u256(), Ok(w));
        }
        if x.fits_i() {
            if single && x.mag.bits() <= 128 {
                ck!(m, "I256 -> f32 -> I256", [A::I(w)], i(w).as_f32().as_i256(), Ok(w));
            }
            ck!(m, "I256 -> f64 -> I256", [A::I(w)], i(w).as_f64().as_i256(), Ok(w));
        }
    }
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (x, y) = (r.next() as u32, r.next());
    f32_one(m, x);
    f64_one(m, y);
    // exponents that matter
    let e = r.below(300) as u64;
    let man = w64(r) & ((1 << 52) - 1);
    let s = (r.bool() as u64) << 63;
    f64_one(m, s | ((1023 + e - 20) << 52) | man);
    let e = r.below(156) as u32;
    f32_one(m, (r.bool() as u32) << 31 | (127 + e - 27).min(255) << 23 | (man as u32 & 0x7fffff));
    // integer +- one ulp
    let w = rounding_value(r, 53);
    let b = to_f64_bits(&Int::i(w));
    for d in [0u64, 1, u64::MAX] {
        f64_one(m, b.wrapping_add(d));
        f32_one(m, to_f32_bits(&Int::i(w)).wrapping_add(d as u32));
    }
    round_trip(m, r);
}

/// Unit k: every sign/exponent/top-mantissa combination, both widths, with extreme low mantissas.
fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    // f32: k selects 8 of the 512 sign/exponent values, each with 128 mantissas
    for se in k * 8..k * 8 + 8 {
        for j in 0..64u32 {
            let man = match j {
                0 => 0,
                1 => 1,
                2 => 0x7fffff,
                3 => 0x7ffffe,
                4 => 0x400000,
                5 => 0x3fffff,
                6..=28 => 1 << (j - 6),
                _ => r.next() as u32 & 0x7fffff,
            };
            f32_one(m, (se as u32) << 23 | man);
        }
    }
    for se in k * 64..k * 64 + 64 {
        for j in 0..64u64 {
            let man = match j {
                0 => 0,
                1 => 1,
                2 => (1 << 52) - 1,
                3 => (1 << 52) - 2,
                4 => 1 << 51,
                5 => (1 << 51) - 1,
                6..=57 => 1 << (j - 6),
                _ => r.next() & ((1 << 52) - 1),
            };
            f64_one(m, se << 52 | man);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P10", iter, exhaust, units: 64 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
