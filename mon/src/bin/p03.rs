//! P03: division and remainder.
use mon::*;

fn knuth_classes(m: &mut Mon, n: &Nat, d: &Nat) {
    // Classify, from the model alone, what long division over 128- and 64-bit digits has to handle.
    if d.bits() > 128 && !n.lt(d) {
        m.class("two-word divisor");
        let s = 256 - d.bits();
        let (un, vn) = (n.shl(s), d.shl(s));
        let qh = un.shr(128).divrem(&vn.shr(128)).0;
        let q = n.divrem(d).0;
        let e = qh.sub(&q);
        m.class_if(qh.bits() > 128, "128-bit quotient estimate exceeds the base");
        match e.low().1 {
            0 => m.class("128-bit quotient estimate exact"),
            1 => m.class("128-bit quotient estimate 1 too big"),
            2 => m.class("128-bit quotient estimate 2 too big"),
            _ => m.class("128-bit quotient estimate >2 too big"),
        }
        m.class_if(s == 0, "divisor already normalised");
    } else if d.bits() > 64 && n.bits() > 128 && d.bits() <= 128 {
        m.class("one-word divisor, two-word dividend");
        m.class_if(!n.shr(128).lt(d), "high dividend word >= divisor");
        let s = 128 - d.bits();
        let vn = d.shl(s);
        let mut rem = n.shr(128).divrem(d).1.shl(s);
        let low = n.mask(128).shl(s);
        rem = rem.add(&low.shr(128));
        let v1 = vn.shr(64);
        for k in [64usize, 0] {
            let digit = low.mask(128).shr(k).mask(64);
            let cur = rem.shl(64).add(&digit);
            let qh = rem.divrem(&v1).0;
            let (q, r) = cur.divrem(&vn);
            match qh.sub(&q).low().1 {
                0 => m.class("64-bit quotient estimate exact"),
                1 => m.class("64-bit quotient estimate 1 too big"),
                2 => m.class("64-bit quotient estimate 2 too big"),
                _ => m.class("64-bit quotient estimate >2 too big"),
            }
            m.class_if(qh.bits() > 64, "64-bit quotient estimate exceeds the base");
            rem = r;
        }
    }
}

fn one(m: &mut Mon, a: W, b: W) {
    m.case(hash_w(&[a, b]), big(a));
    let (au, bu, ai, bi) = (A::U(a), A::U(b), A::I(a), A::I(b));
    if b == ZERO {
        m.class("divisor zero");
        macro_rules! z {
            ($t:literal, $c:ident, $x:expr, $($f:ident),*) => {$(
                ck!(m, concat!($t, "::", stringify!($f)), [$x], { let _ = $c(a).$f($c(b)); }, Err(()));
            )*};
        }
        ck!(m, "U256 /", [au, bu], { let _ = u(a) / u(b); }, Err(()));
        ck!(m, "U256 %", [au, bu], { let _ = u(a) % u(b); }, Err(()));
        ck!(m, "I256 /", [ai, bi], { let _ = i(a) / i(b); }, Err(()));
        ck!(m, "I256 %", [ai, bi], { let _ = i(a) % i(b); }, Err(()));
        ck!(m, "U256 /=", [au, bu], { let mut x = u(a); x /= u(b); }, Err(()));
        ck!(m, "U256 %=", [au, bu], { let mut x = u(a); x %= u(b); }, Err(()));
        ck!(m, "I256 /=", [ai, bi], { let mut x = i(a); x /= i(b); }, Err(()));
        ck!(m, "I256 %=", [ai, bi], { let mut x = i(a); x %= i(b); }, Err(()));
        z!("U256", u, au, div_euclid, rem_euclid, div_rem, div_rem_euclid, wrapping_div, wrapping_rem, wrapping_div_euclid, wrapping_rem_euclid, wrapping_div_rem, wrapping_div_rem_euclid, overflowing_div, overflowing_rem, overflowing_div_euclid, overflowing_rem_euclid, overflowing_div_rem, overflowing_div_rem_euclid, saturating_div, saturating_div_rem, saturating_div_rem_euclid);
        z!("I256", i, ai, div_euclid, rem_euclid, div_rem, div_rem_euclid, wrapping_div, wrapping_rem, wrapping_div_euclid, wrapping_rem_euclid, wrapping_div_rem, wrapping_div_rem_euclid, overflowing_div, overflowing_rem, overflowing_div_euclid, overflowing_rem_euclid, overflowing_div_rem, overflowing_div_rem_euclid, saturating_div, saturating_div_rem, saturating_div_rem_euclid);
        ck!(m, "U256::checked_div", [au, bu], u(a).checked_div(u(b)), Ok(None));
        ck!(m, "U256::checked_rem", [au, bu], u(a).checked_rem(u(b)), Ok(None));
        ck!(m, "U256::checked_div_euclid", [au, bu], u(a).checked_div_euclid(u(b)), Ok(None));
        ck!(m, "U256::checked_rem_euclid", [au, bu], u(a).checked_rem_euclid(u(b)), Ok(None));
        ck!(m, "U256::checked_div_rem", [au, bu], u(a).checked_div_rem(u(b)), Ok(None));
        ck!(m, "U256::checked_div_rem_euclid", [au, bu], u(a).checked_div_rem_euclid(u(b)), Ok(None));
        ck!(m, "I256::checked_div", [ai, bi], i(a).checked_div(i(b)), Ok(None));
        ck!(m, "I256::checked_rem", [ai, bi], i(a).checked_rem(i(b)), Ok(None));
        ck!(m, "I256::checked_div_euclid", [ai, bi], i(a).checked_div_euclid(i(b)), Ok(None));
        ck!(m, "I256::checked_rem_euclid", [ai, bi], i(a).checked_rem_euclid(i(b)), Ok(None));
        ck!(m, "I256::checked_div_rem", [ai, bi], i(a).checked_div_rem(i(b)), Ok(None));
        ck!(m, "I256::checked_div_rem_euclid", [ai, bi], i(a).checked_div_rem_euclid(i(b)), Ok(None));
        return;
    }
    let (na, nb) = (Nat::w(a), Nat::w(b));
    knuth_classes(m, &na, &nb);
    let (q, r) = na.divrem(&nb);
    let (q, r) = (q.low(), r.low());
    ck!(m, "U256 /", [au, bu], u(a) / u(b), Ok(q));
    ck!(m, "U256 %", [au, bu], u(a) % u(b), Ok(r));
    ck!(m, "U256 /=", [au, bu], { let mut x = u(a); x /= u(b); x }, Ok(q));
    ck!(m, "U256 %=", [au, bu], { let mut x = u(a); x %= u(b); x }, Ok(r));
    macro_rules! uu {
        ($exp:expr; $($f:ident),*) => {$( ck!(m, concat!("U256::", stringify!($f)), [au, bu], u(a).$f(u(b)), Ok($exp)); )*};
    }
    uu!(q; div_euclid, wrapping_div, wrapping_div_euclid, saturating_div);
    uu!(r; rem_euclid, wrapping_rem, wrapping_rem_euclid);
    uu!(Some(q); checked_div, checked_div_euclid);
    uu!(Some(r); checked_rem, checked_rem_euclid);
    uu!((q, false); overflowing_div, overflowing_div_euclid);
    uu!((r, false); overflowing_rem, overflowing_rem_euclid);
    uu!((q, r); div_rem, div_rem_euclid, wrapping_div_rem, wrapping_div_rem_euclid, saturating_div_rem, saturating_div_rem_euclid);
    uu!(Some((q, r)); checked_div_rem, checked_div_rem_euclid);
    uu!((q, r, false); overflowing_div_rem, overflowing_div_rem_euclid);

    let (ia, ib) = (Int::i(a), Int::i(b));
    let o = a == IMIN && b == M1;
    m.class_if(o, "I256::MIN / -1");
    m.class_if(b == IMIN, "divisor I256::MIN");
    m.class_if(a == IMIN, "dividend I256::MIN");
    let (q, r) = ia.divrem(&ib);
    let (qe, re) = ia.divrem_euclid(&ib);
    m.class_if(re != r && ib.neg, "euclid adjusts, divisor negative");
    m.class_if(re != r && !ib.neg, "euclid adjusts, divisor positive");
    m.class_if(ia.neg && r.is_zero() && !ia.is_zero(), "negative dividend, exact");
    let (q, r, qe, re) = (q.wrap(), r.wrap(), qe.wrap(), re.wrap());
    let p = |x: W| if o { Err(()) } else { Ok(x) };
    let pp = |x: W, y: W| if o { Err(()) } else { Ok((x, y)) };
    let c = |x: W| if o { None } else { Some(x) };
    let sat = |x: W| if o { IMAX } else { x };
    ck!(m, "I256 /", [ai, bi], i(a) / i(b), p(q));
    ck!(m, "I256 %", [ai, bi], i(a) % i(b), p(r));
    ck!(m, "I256 /=", [ai, bi], { let mut x = i(a); x /= i(b); x }, p(q));
    ck!(m, "I256 %=", [ai, bi], { let mut x = i(a); x %= i(b); x }, p(r));
    macro_rules! ii {
        ($exp:expr; $($f:ident),*) => {$( ck!(m, concat!("I256::", stringify!($f)), [ai, bi], i(a).$f(i(b)), $exp); )*};
    }
    ii!(p(qe); div_euclid);
    ii!(p(re); rem_euclid);
    ii!(pp(q, r); div_rem);
    ii!(pp(qe, re); div_rem_euclid);
    ii!(Ok(q); wrapping_div);
    ii!(Ok(r); wrapping_rem);
    ii!(Ok(qe); wrapping_div_euclid);
    ii!(Ok(re); wrapping_rem_euclid);
    ii!(Ok((q, r)); wrapping_div_rem);
    ii!(Ok((qe, re)); wrapping_div_rem_euclid);
    ii!(Ok(c(q)); checked_div);
    ii!(Ok(c(r)); checked_rem);
    ii!(Ok(c(qe)); checked_div_euclid);
    ii!(Ok(c(re)); checked_rem_euclid);
    ii!(Ok(c(q).map(|q| (q, r))); checked_div_rem);
    ii!(Ok(c(qe).map(|q| (q, re))); checked_div_rem_euclid);
    ii!(Ok((q, o)); overflowing_div);
    ii!(Ok((r, o)); overflowing_rem);
    ii!(Ok((qe, o)); overflowing_div_euclid);
    ii!(Ok((re, o)); overflowing_rem_euclid);
    ii!(Ok((q, r, o)); overflowing_div_rem);
    ii!(Ok((qe, re, o)); overflowing_div_rem_euclid);
    ii!(Ok(sat(q)); saturating_div);
    ii!(Ok((sat(q), r)); saturating_div_rem);
    ii!(Ok((sat(qe), re)); saturating_div_rem_euclid);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = div_pair(r);
    one(m, a, b);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let p = Int::new(false, Nat::pow2(k as usize));
    for b in [ZERO, ONE, M1, (0, 2), wneg((0, 2)), (0, 3), IMIN, IMAX, (0, !0), (1, 0), (0, 1 << 64), wneg((1, 0)), (0, 10), wneg((0, 10000)), (0, u64::MAX as u128), (0, 1 << 127)] {
        for d in -1..=1 {
            let x = p.add(&Int::n(d));
            one(m, x.wrap(), b);
            one(m, x.neg().wrap(), b);
            one(m, b, x.wrap());
            one(m, b, x.neg().wrap());
        }
    }
    for j in 0..=256usize {
        let q = Int::new(false, Nat::pow2(j)).add(&Int::n(r.below(3) as i128 - 1));
        one(m, p.add(&Int::n(r.below(3) as i128 - 1)).wrap(), q.wrap());
    }
    one(m, IMIN, M1);
}

pub const PLAN: Plan = Plan { prop: "P03", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
