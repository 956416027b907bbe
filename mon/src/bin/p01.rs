//! P01: addition, subtraction, negation, absolute value.
use mon::*;

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = pair(r);
    one(m, a, b);
}

fn one(m: &mut Mon, a: W, b: W) {
    m.case(hash_w(&[a, b]), big(a) || big(b));
    let (ua, ub, ia, ib) = (Int::u(a), Int::u(b), Int::i(a), Int::i(b));
    let (au, bu, ai, bi) = (A::U(a), A::U(b), A::I(a), A::I(b));

    let s = Fam::unsigned(&ua.add(&ub));
    m.class_if(Nat::u(a.1).add(&Nat::u(b.1)).bits() > 128, "carry between words");
    m.class_if(s.ovf, "U256 add overflow");
    ck!(m, "U256 +", [au, bu], u(a) + u(b), s.op());
    ck!(m, "U256::wrapping_add", [au, bu], u(a).wrapping_add(u(b)), s.wrapping());
    ck!(m, "U256::checked_add", [au, bu], u(a).checked_add(u(b)), s.checked());
    ck!(m, "U256::overflowing_add", [au, bu], u(a).overflowing_add(u(b)), s.overflowing());
    ck!(m, "U256::saturating_add", [au, bu], u(a).saturating_add(u(b)), s.saturating());

    let s = Fam::unsigned(&ua.add(&ib));
    m.class_if(s.ovf && ib.neg, "U256 add_signed underflow");
    m.class_if(s.ovf && !ib.neg, "U256 add_signed overflow");
    ck!(m, "U256::wrapping_add_signed", [au, bi], u(a).wrapping_add_signed(i(b)), s.wrapping());
    ck!(m, "U256::checked_add_signed", [au, bi], u(a).checked_add_signed(i(b)), s.checked());
    ck!(m, "U256::overflowing_add_signed", [au, bi], u(a).overflowing_add_signed(i(b)), s.overflowing());
    ck!(m, "U256::saturating_add_signed", [au, bi], u(a).saturating_add_signed(i(b)), s.saturating());

    let s = Fam::unsigned(&ua.sub(&ub));
    m.class_if(s.ovf, "U256 sub overflow");
    m.class_if(a.1 < b.1, "borrow between words");
    ck!(m, "U256 -", [au, bu], u(a) - u(b), s.op());
    ck!(m, "U256::wrapping_sub", [au, bu], u(a).wrapping_sub(u(b)), s.wrapping());
    ck!(m, "U256::checked_sub", [au, bu], u(a).checked_sub(u(b)), s.checked());
    ck!(m, "U256::overflowing_sub", [au, bu], u(a).overflowing_sub(u(b)), s.overflowing());
    ck!(m, "U256::saturating_sub", [au, bu], u(a).saturating_sub(u(b)), s.saturating());
    ck!(m, "U256::abs_diff", [au, bu], u(a).abs_diff(u(b)), Ok(ua.sub(&ub).abs().wrap()));

    let s = Fam::unsigned(&ua.neg());
    ck!(m, "U256::wrapping_neg", [au], u(a).wrapping_neg(), s.wrapping());
    ck!(m, "U256::checked_neg", [au], u(a).checked_neg(), s.checked());
    ck!(m, "U256::overflowing_neg", [au], u(a).overflowing_neg(), s.overflowing());

    let s = Fam::signed(&ia.add(&ib));
    m.class_if(s.ovf && ia.neg, "I256 add negative overflow");
    m.class_if(s.ovf && !ia.neg, "I256 add positive overflow");
    ck!(m, "I256 +", [ai, bi], i(a) + i(b), s.op());
    ck!(m, "I256::wrapping_add", [ai, bi], i(a).wrapping_add(i(b)), s.wrapping());
    ck!(m, "I256::checked_add", [ai, bi], i(a).checked_add(i(b)), s.checked());
    ck!(m, "I256::overflowing_add", [ai, bi], i(a).overflowing_add(i(b)), s.overflowing());
    ck!(m, "I256::saturating_add", [ai, bi], i(a).saturating_add(i(b)), s.saturating());

    let s = Fam::signed(&ia.add(&ub));
    m.class_if(s.ovf, "I256 add_unsigned overflow");
    ck!(m, "I256::wrapping_add_unsigned", [ai, bu], i(a).wrapping_add_unsigned(u(b)), s.wrapping());
    ck!(m, "I256::checked_add_unsigned", [ai, bu], i(a).checked_add_unsigned(u(b)), s.checked());
    ck!(m, "I256::overflowing_add_unsigned", [ai, bu], i(a).overflowing_add_unsigned(u(b)), s.overflowing());
    ck!(m, "I256::saturating_add_unsigned", [ai, bu], i(a).saturating_add_unsigned(u(b)), s.saturating());

    let s = Fam::signed(&ia.sub(&ib));
    m.class_if(s.ovf && ia.neg, "I256 sub negative overflow");
    m.class_if(s.ovf && !ia.neg, "I256 sub positive overflow");
    ck!(m, "I256 -", [ai, bi], i(a) - i(b), s.op());
    ck!(m, "I256::wrapping_sub", [ai, bi], i(a).wrapping_sub(i(b)), s.wrapping());
    ck!(m, "I256::checked_sub", [ai, bi], i(a).checked_sub(i(b)), s.checked());
    ck!(m, "I256::overflowing_sub", [ai, bi], i(a).overflowing_sub(i(b)), s.overflowing());
    ck!(m, "I256::saturating_sub", [ai, bi], i(a).saturating_sub(i(b)), s.saturating());
    ck!(m, "I256::abs_diff", [ai, bi], i(a).abs_diff(i(b)), Ok(ia.sub(&ib).abs().wrap()));

    let s = Fam::signed(&ia.sub(&ub));
    m.class_if(s.ovf, "I256 sub_unsigned overflow");
    ck!(m, "I256::wrapping_sub_unsigned", [ai, bu], i(a).wrapping_sub_unsigned(u(b)), s.wrapping());
    ck!(m, "I256::checked_sub_unsigned", [ai, bu], i(a).checked_sub_unsigned(u(b)), s.checked());
    ck!(m, "I256::overflowing_sub_unsigned", [ai, bu], i(a).overflowing_sub_unsigned(u(b)), s.overflowing());
    ck!(m, "I256::saturating_sub_unsigned", [ai, bu], i(a).saturating_sub_unsigned(u(b)), s.saturating());

    let s = Fam::signed(&ia.neg());
    m.class_if(s.ovf, "I256 neg overflow");
    ck!(m, "I256 unary -", [ai], -i(a), s.op());
    ck!(m, "&I256 unary -", [ai], -&i(a), s.op());
    ck!(m, "I256::wrapping_neg", [ai], i(a).wrapping_neg(), s.wrapping());
    ck!(m, "I256::checked_neg", [ai], i(a).checked_neg(), s.checked());
    ck!(m, "I256::overflowing_neg", [ai], i(a).overflowing_neg(), s.overflowing());
    ck!(m, "I256::saturating_neg", [ai], i(a).saturating_neg(), s.saturating());

    let s = Fam::signed(&ia.abs());
    ck!(m, "I256::abs", [ai], i(a).abs(), s.op());
    ck!(m, "I256::wrapping_abs", [ai], i(a).wrapping_abs(), s.wrapping());
    ck!(m, "I256::checked_abs", [ai], i(a).checked_abs(), s.checked());
    ck!(m, "I256::overflowing_abs", [ai], i(a).overflowing_abs(), s.overflowing());
    ck!(m, "I256::saturating_abs", [ai], i(a).saturating_abs(), s.saturating());
    ck!(m, "I256::unsigned_abs", [ai], i(a).unsigned_abs(), Ok(ia.abs().wrap()));
    let sg = if ia.neg { -1 } else { !ia.is_zero() as i128 };
    ck!(m, "I256::signum", [ai], i(a).signum(), Ok(Int::n(sg).wrap()));
    ck!(m, "I256::signum128", [ai], i(a).signum128(), Ok(sg));
    ck!(m, "I256::is_positive", [ai], i(a).is_positive(), Ok(sg == 1));
    ck!(m, "I256::is_negative", [ai], i(a).is_negative(), Ok(sg == -1));
}

/// Boundary values +-2 around every power of two, paired with each other on a diagonal.
fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -2..=2 {
        let x = p.add(&Int::n(d));
        for y in [ZERO, ONE, M1, IMAX, IMIN, (0, !0), (1, 0), (!0, 0), (IMAX.0, 0), (0, 1 << 127)] {
            one(m, x.wrap(), y);
            one(m, y, x.neg().wrap());
        }
        let y = related(r, x.wrap());
        one(m, x.wrap(), y);
    }
}

pub const PLAN: Plan = Plan { prop: "P01", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
