//! P19: public low-level intrinsics.
use ethnum::intrinsics as n;
use ethnum::intrinsics::signed as s;
use ethnum::{I256, U256};
use mon::*;
use std::mem::MaybeUninit;

macro_rules! places {
    ($slot:ident $place:ident $t:ty, $w:ident) => {
        /// Run `f` on an output slot pre-filled with `junk` and return what it holds afterwards;
        /// the memory on both sides of the slot must keep its contents.
        fn $slot<R>(junk: W, f: impl FnOnce(&mut MaybeUninit<$t>) -> R) -> ($t, R) {
            let mut r = [MaybeUninit::new($w((!junk.0, junk.1))), MaybeUninit::new($w(junk)), MaybeUninit::new($w((junk.0, !junk.1)))];
            let x = f(&mut std::hint::black_box(&mut r)[1]);
            let [a, r, b] = r.map(|x| unsafe { x.assume_init() });
            assert!(a.into_words() == $w((!junk.0, junk.1)).into_words() && b.into_words() == $w((junk.0, !junk.1)).into_words(), "memory next to the output slot changed");
            (r, x)
        }
        fn $place(a: W, f: impl FnOnce(&mut $t)) -> $t {
            let mut r = [$w((!a.0, !a.1)), $w(a), $w(a)];
            f(&mut std::hint::black_box(&mut r)[1]);
            assert!(r[0].into_words() == $w((!a.0, !a.1)).into_words() && r[2].into_words() == $w(a).into_words(), "memory next to the destination changed");
            r[1]
        }
    };
}
places!(slot_u place_u U256, u);
places!(slot_i place_i I256, i);

macro_rules! uu3 { ($m:ident, $j:ident, $a:ident, $b:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::U($a), A::U($b)], slot_u($j, |r| $f(r, &u($a), &u($b))), Ok(($e, ())));
)*}; }
macro_rules! uu2 { ($m:ident, $a:ident, $b:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::U($a), A::U($b)], place_u($a, |v| $f(v, &u($b))), Ok($e));
)*}; }
macro_rules! uuc { ($m:ident, $j:ident, $a:ident, $b:ident, $e:expr, $c:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::U($a), A::U($b)], slot_u($j, |r| $f(r, &u($a), &u($b))), Ok(($e, $c)));
)*}; }
macro_rules! ii3 { ($m:ident, $j:ident, $a:ident, $b:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::I($a), A::I($b)], slot_i($j, |r| $f(r, &i($a), &i($b))), Ok(($e, ())));
)*}; }
macro_rules! ii2 { ($m:ident, $a:ident, $b:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::I($a), A::I($b)], place_i($a, |v| $f(v, &i($b))), Ok($e));
)*}; }
macro_rules! iic { ($m:ident, $j:ident, $a:ident, $b:ident, $e:expr, $c:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::I($a), A::I($b)], slot_i($j, |r| $f(r, &i($a), &i($b))), Ok(($e, $c)));
)*}; }
macro_rules! us3 { ($m:ident, $j:ident, $a:ident, $k:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::U($a), A::N($k as i128)], slot_u($j, |r| $f(r, &u($a), $k)), Ok(($e, ())));
)*}; }
macro_rules! us2 { ($m:ident, $a:ident, $k:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::U($a), A::N($k as i128)], place_u($a, |v| $f(v, $k)), Ok($e));
)*}; }
macro_rules! is3 { ($m:ident, $j:ident, $a:ident, $k:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::I($a), A::N($k as i128)], slot_i($j, |r| $f(r, &i($a), $k)), Ok(($e, ())));
)*}; }
macro_rules! is2 { ($m:ident, $a:ident, $k:ident, $e:expr; $($f:path),*) => {$(
    ck!($m, stringify!($f), [A::I($a), A::N($k as i128)], place_i($a, |v| $f(v, $k)), Ok($e));
)*}; }

fn arith(m: &mut Mon, a: W, b: W, j: W) {
    m.case(hash_w(&[a, b]), big(a) || big(b));
    let (ua, ub, ia, ib) = (Int::u(a), Int::u(b), Int::i(a), Int::i(b));
    let (us, is) = (Fam::unsigned(&ua.add(&ub)), Fam::signed(&ia.add(&ib)));
    m.class_if(us.ovf, "uaddc overflow");
    m.class_if(is.ovf, "iaddc overflow");
    uu2!(m, a, b, us.w; n::add2, s::uadd2);
    uu3!(m, j, a, b, us.w; n::add3, s::uadd3);
    uuc!(m, j, a, b, us.w, us.ovf; n::uaddc, s::uaddc);
    ii2!(m, a, b, is.w; s::iadd2);
    ii3!(m, j, a, b, is.w; s::iadd3);
    iic!(m, j, a, b, is.w, is.ovf; n::iaddc, s::iaddc);

    let (us, is) = (Fam::unsigned(&ua.sub(&ub)), Fam::signed(&ia.sub(&ib)));
    m.class_if(us.ovf, "usubc overflow");
    m.class_if(is.ovf, "isubc overflow");
    uu2!(m, a, b, us.w; n::sub2, s::usub2);
    uu3!(m, j, a, b, us.w; n::sub3, s::usub3);
    uuc!(m, j, a, b, us.w, us.ovf; n::usubc, s::usubc);
    ii2!(m, a, b, is.w; s::isub2);
    ii3!(m, j, a, b, is.w; s::isub3);
    iic!(m, j, a, b, is.w, is.ovf; n::isubc, s::isubc);

    ck!(m, "n::ctlz", [A::U(a)], n::ctlz(&u(a)), Ok(256 - Nat::w(a).bits() as u32));
    ck!(m, "s::uctlz", [A::U(a)], s::uctlz(&u(a)), Ok(256 - Nat::w(a).bits() as u32));
    ck!(m, "s::ictlz", [A::I(a)], s::ictlz(&i(a)), Ok(256 - Nat::w(a).bits() as u32));
    let tz = (0..256).find(|k| wbit(a, *k)).unwrap_or(256) as u32;
    m.class_if(a.1 == 0, "low word zero");
    m.class_if(a.0 == 0, "high word zero");
    ck!(m, "n::cttz", [A::U(a)], n::cttz(&u(a)), Ok(tz));
    ck!(m, "s::ucttz", [A::U(a)], s::ucttz(&u(a)), Ok(tz));
    ck!(m, "s::icttz", [A::I(a)], s::icttz(&i(a)), Ok(tz));
}

fn mult(m: &mut Mon, a: W, b: W, j: W) {
    m.case(hash_w(&[a, b, (1, 1)]), big(a) || big(b));
    let us = Fam::unsigned(&Int::u(a).mul(&Int::u(b)));
    let is = Fam::signed(&Int::i(a).mul(&Int::i(b)));
    m.class_if(us.ovf, "umulc overflow");
    m.class_if(is.ovf, "imulc overflow");
    m.class_if(!is.ovf && big(a) && big(b), "imulc exact");
    uu2!(m, a, b, us.w; n::mul2, s::umul2);
    uu3!(m, j, a, b, us.w; n::mul3, s::umul3);
    uuc!(m, j, a, b, us.w, us.ovf; n::umulc, s::umulc);
    ii2!(m, a, b, is.w; s::imul2);
    ii3!(m, j, a, b, is.w; s::imul3);
    iic!(m, j, a, b, is.w, is.ovf; n::imulc, s::imulc);
}

fn divi(m: &mut Mon, a: W, b: W, j: W) {
    if b == ZERO {
        return;
    }
    m.case(hash_w(&[a, b, (2, 2)]), big(a) || big(b));
    m.class_if(b.0 != 0 && b.0 >> 127 == 0 && a.0 >= b.0, "wide divisor");
    m.class_if(b.0 == 0 && a.0 != 0, "one-word divisor");
    let (q, r) = Int::u(a).divrem(&Int::u(b));
    let (q, r) = (q.wrap(), r.wrap());
    uu2!(m, a, b, q; n::udiv2, s::udiv2);
    uu3!(m, j, a, b, q; n::udiv3, s::udiv3);
    uu2!(m, a, b, r; n::urem2, s::urem2);
    uu3!(m, j, a, b, r; n::urem3, s::urem3);
    let (au, bu) = (A::U(a), A::U(b));
    ck!(m, "n::udivmod4", [au, bu], slot_u(j, |x| slot_u(j, |y| n::udivmod4(x, &u(a), &u(b), Some(y))).0), Ok((q, r)));
    ck!(m, "n::udivmod4 without remainder", [au, bu], slot_u(j, |x| n::udivmod4(x, &u(a), &u(b), None)).0, Ok(q));
    let (q, r) = Int::i(a).divrem(&Int::i(b));
    let (q, r) = (q.wrap(), r.wrap());
    m.class_if(a == IMIN && b == M1, "MIN / -1");
    ii2!(m, a, b, q; n::idiv2, s::idiv2);
    ii3!(m, j, a, b, q; n::idiv3, s::idiv3);
    ii2!(m, a, b, r; n::irem2, s::irem2);
    ii3!(m, j, a, b, r; n::irem3, s::irem3);
    let (ai, bi) = (A::I(a), A::I(b));
    ck!(m, "n::idivmod4", [ai, bi], slot_i(j, |x| slot_i(j, |y| n::idivmod4(x, &i(a), &i(b), Some(y))).0), Ok((q, r)));
    ck!(m, "n::idivmod4 without remainder", [ai, bi], slot_i(j, |x| n::idivmod4(x, &i(a), &i(b), None)).0, Ok(q));
}

fn shifts(m: &mut Mon, a: W, k: u32, j: W) {
    m.case(hash_w(&[a, (3, k as u128)]), big(a) && k != 0);
    us2!(m, a, k, wshl(a, k); n::shl2, s::ushl2);
    us3!(m, j, a, k, wshl(a, k); n::shl3, s::ushl3);
    us2!(m, a, k, wshr(a, k); n::shr2, s::ushr2);
    us3!(m, j, a, k, wshr(a, k); n::shr3, s::ushr3);
    is2!(m, a, k, wshl(a, k); s::ishl2);
    is3!(m, j, a, k, wshl(a, k); s::ishl3);
    is2!(m, a, k, wsar(a, k); n::sar2, s::isar2);
    is3!(m, j, a, k, wsar(a, k); n::sar3, s::isar3);
}

fn rots(m: &mut Mon, a: W, k: u32, j: W) {
    m.class_if(k >= 256, "rotate by 256 or more");
    let (l, r) = (wrol(a, k), wrol(a, 256 - k % 256));
    us3!(m, j, a, k, l; n::rol3, s::urol3);
    us3!(m, j, a, k, r; n::ror3, s::uror3);
    is3!(m, j, a, k, l; s::irol3);
    is3!(m, j, a, k, r; s::iror3);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let j = w256(r);
    let (a, b) = pair(r);
    arith(m, a, b, j);
    let (a, b) = mul_pair(r);
    mult(m, a, b, j);
    let (a, b) = div_pair(r);
    divi(m, a, b, j);
    let k = shift(r);
    shifts(m, a, k % 256, j);
    rots(m, a, k, j);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let j = w256(r);
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -1..=1 {
        let x = p.add(&Int::n(d));
        for y in [ZERO, ONE, M1, IMAX, IMIN, (0, !0), (1, 0), (!0, 0), (IMAX.0, 0), (0, 1 << 127)] {
            for (a, b) in [(x.wrap(), y), (y, x.neg().wrap())] {
                arith(m, a, b, j);
                mult(m, a, b, j);
                divi(m, a, b, j);
            }
        }
    }
    for a in [ONE, M1, IMIN, IMAX, (1, 0), (0, !0), w256(r), w256(r)] {
        shifts(m, a, k as u32, j);
        rots(m, a, k as u32, j);
        rots(m, a, 256 + k as u32, j);
        rots(m, a, u32::MAX - k as u32, j);
    }
}

pub const PLAN: Plan = Plan { prop: "P19", iter, exhaust, units: 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
