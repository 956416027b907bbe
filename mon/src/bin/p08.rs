//! P08: conversions between integers.
use ethnum::{AsI256, AsU256, I256, U256};
use mon::*;
use std::convert::TryFrom;

fn one(m: &mut Mon, a: W) {
    m.case(hash_w(&[a]), big(a));
    let (ua, ia) = (Int::u(a), Int::i(a));
    let (au, ai) = (A::U(a), A::I(a));
    let (x, y) = (u(a), i(a));
    macro_rules! prim {
        ($($t:ident $m:ident $signed:literal),*) => {$({
            // into the primitive
            let (lo, hi) = if $signed {
                (Int::n($t::MIN as i128), Int::n($t::MAX as i128))
            } else {
                (Int::ZERO, Int::un($t::MAX as u128))
            };
            let low = a.1 as $t;
            ck!(m, concat!("U256::", stringify!($m)), [au], x.$m(), Ok(low));
            ck!(m, concat!("I256::", stringify!($m)), [ai], y.$m(), Ok(low));
            let fu = ua.in_range(&lo, &hi);
            let fi = ia.in_range(&lo, &hi);
            m.class_if(fu, "U256 -> primitive fits");
            m.class_if(!fu && a.0 == 0, "U256 -> primitive does not fit, high word zero");
            m.class_if(!fu && a.1 as $t as u128 == a.1, "U256 -> primitive does not fit, low word fits");
            m.class_if(fi && ia.neg, "I256 -> primitive negative fits");
            m.class_if(!fi && a.1 as $t as i128 == a.1 as i128, "I256 -> primitive does not fit, low word fits");
            ck!(m, concat!(stringify!($t), "::try_from(U256)"), [au], $t::try_from(x).map_err(|_| ()), Ok(if fu { Ok(low) } else { Err(()) }));
            ck!(m, concat!(stringify!($t), "::try_from(I256)"), [ai], $t::try_from(y).map_err(|_| ()), Ok(if fi { Ok(low) } else { Err(()) }));
            // from the primitive
            let v = low;
            let arg = if $signed { A::N(v as i128) } else { A::X(v as u128) };
            let e = if $signed { Int::n(v as i128) } else { Int::un(v as u128) };
            ck!(m, concat!(stringify!($t), ".as_u256()"), [arg], v.as_u256(), Ok(e.wrap()));
            ck!(m, concat!(stringify!($t), ".as_i256()"), [arg], v.as_i256(), Ok(e.wrap()));
            ck!(m, concat!("U256::try_from(", stringify!($t), ")"), [arg], U256::try_from(v).map_err(|_| ()), Ok(if e.neg { Err(()) } else { Ok(e.wrap()) }));
        })*};
    }
    prim!(u8 as_u8 false, u16 as_u16 false, u32 as_u32 false, u64 as_u64 false, u128 as_u128 false, usize as_usize false,
          i8 as_i8 true, i16 as_i16 true, i32 as_i32 true, i64 as_i64 true, i128 as_i128 true, isize as_isize true);
    macro_rules! from {
        ($ty:ident: $($t:ident)*) => {$({
            let v = a.1 as $t;
            let e = if (0 as $t).wrapping_sub(1) < 1 { Int::n(v as i128) } else { Int::un(v as u128) };
            ck!(m, concat!(stringify!($ty), "::from(", stringify!($t), ")"), [A::N(v as i128)], $ty::from(v), Ok(e.wrap()));
        })*};
    }
    from!(U256: u8 u16 u32 u64 u128);
    from!(I256: u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
    for b in [false, true] {
        let e = (0, b as u128);
        ck!(m, "U256::from(bool)", [A::N(b as i128)], U256::from(b), Ok(e));
        ck!(m, "I256::from(bool)", [A::N(b as i128)], I256::from(b), Ok(e));
        ck!(m, "bool.as_u256()", [A::N(b as i128)], b.as_u256(), Ok(e));
        ck!(m, "bool.as_i256()", [A::N(b as i128)], b.as_i256(), Ok(e));
    }
    let top = a.0 >> 127 == 1;
    m.class_if(top, "top bit set");
    ck!(m, "I256::try_from(U256)", [au], I256::try_from(x).map_err(|_| ()), Ok(if top { Err(()) } else { Ok(a) }));
    ck!(m, "U256::try_from(I256)", [ai], U256::try_from(y).map_err(|_| ()), Ok(if top { Err(()) } else { Ok(a) }));
    ck!(m, "U256::as_i256", [au], x.as_i256(), Ok(a));
    ck!(m, "I256::as_u256", [ai], y.as_u256(), Ok(a));
    ck!(m, "AsU256 for U256", [au], AsU256::as_u256(x), Ok(a));
    ck!(m, "AsU256 for I256", [ai], AsU256::as_u256(y), Ok(a));
    ck!(m, "AsI256 for U256", [au], AsI256::as_i256(x), Ok(a));
    ck!(m, "AsI256 for I256", [ai], AsI256::as_i256(y), Ok(a));
}

/// A value near the edge of some primitive type.
fn edge(r: &mut Rng) -> W {
    let k = *r.pick(&[0usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255]);
    let x = Int::new(r.bool(), Nat::pow2(k)).add(&Int::n(r.below(5) as i128 - 2)).wrap();
    match r.below(4) {
        0 => (w128(r), x.1),
        1 => (if r.bool() { 0 } else { !0 }, x.1),
        _ => x,
    }
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let a = if r.bool() { w256(r) } else { edge(r) };
    one(m, a);
}

/// +-3 around +-2^k with every kind of high word.
fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k > 256 {
        // all 16-bit values, in both sign extensions and with garbage above
        for v in (k - 257) * 256..(k - 256) * 256 {
            let v = v as u128;
            one(m, (0, v));
            one(m, Int::n(v as i16 as i128).wrap());
            let g = r.u128();
            one(m, (g, v));
            one(m, (0, (g << 16) | v));
        }
        return;
    }
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -3..=3 {
        let x = p.add(&Int::n(d));
        for y in [x.wrap(), x.neg().wrap()] {
            one(m, y);
            one(m, (0, y.1));
            one(m, (!0, y.1));
            one(m, (1, y.1));
            one(m, (1 << 127, y.1));
            one(m, ((1 << 127) - 1, y.1));
            one(m, (1 << 64, y.1));
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P08", iter, exhaust, units: 257 + 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
