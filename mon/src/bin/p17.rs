//! P17: all operand forms of an operator agree.
use ethnum::{I256, U256};
use mon::*;

/// The plain operation on exact operands; None = the operator has no value (division by zero).
fn plain(op: &str, a: W, b: W, signed: bool) -> Result<W, ()> {
    let int = |w| if signed { Int::i(w) } else { Int::u(w) };
    let fam = |x: Int| if signed { Fam::signed(&x).op() } else { Fam::unsigned(&x).op() };
    let (x, y) = (int(a), int(b));
    match op {
        "+" => fam(x.add(&y)),
        "-" => fam(x.sub(&y)),
        "*" => fam(x.mul(&y)),
        "/" | "%" => {
            if b == ZERO || (signed && a == IMIN && b == M1) {
                Err(())
            } else {
                let (q, r) = x.divrem(&y);
                Ok(if op == "/" { q.wrap() } else { r.wrap() })
            }
        }
        "&" => Ok((a.0 & b.0, a.1 & b.1)),
        "|" => Ok((a.0 | b.0, a.1 | b.1)),
        _ => Ok((a.0 ^ b.0, a.1 ^ b.1)),
    }
}

macro_rules! binops {
    ($m:ident, $a:ident, $b:ident, $p:ident, $T:ident, $P:ident, $mk:ident, $arg:expr, $pw:expr, $signed:literal; $($op:tt $as:tt)*) => {$({
        let (x, y) = ($mk($a), $mk($b));
        let n: $P = $p;
        let pw: W = $pw;
        let t = stringify!($op);
        let e = plain(t, $a, $b, $signed);
        let en = plain(t, $a, pw, $signed);
        let ne = plain(t, pw, $a, $signed);
        let (aa, bb, nn) = ($arg($a), $arg($b), $arg(pw));
        $m.class_if(e.is_err() || en.is_err() || ne.is_err(), "panicking operands");
        ck!($m, concat!(stringify!($T), " ", stringify!($op), " ", stringify!($T)), [aa, bb], x $op y, e);
        ck!($m, concat!(stringify!($T), " ", stringify!($op), " &", stringify!($T)), [aa, bb], x $op &y, e);
        ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " ", stringify!($T)), [aa, bb], &x $op y, e);
        ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " &", stringify!($T)), [aa, bb], &x $op &y, e);
        ck!($m, concat!(stringify!($T), " ", stringify!($op), " ", stringify!($P)), [aa, nn], x $op n, en);
        ck!($m, concat!(stringify!($T), " ", stringify!($op), " &", stringify!($P)), [aa, nn], x $op &n, en);
        ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " ", stringify!($P)), [aa, nn], &x $op n, en);
        ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " &", stringify!($P)), [aa, nn], &x $op &n, en);
        ck!($m, concat!(stringify!($P), " ", stringify!($op), " ", stringify!($T)), [nn, aa], n $op x, ne);
        ck!($m, concat!(stringify!($P), " ", stringify!($op), " &", stringify!($T)), [nn, aa], n $op &x, ne);
        ck!($m, concat!("&", stringify!($P), " ", stringify!($op), " ", stringify!($T)), [nn, aa], &n $op x, ne);
        ck!($m, concat!("&", stringify!($P), " ", stringify!($op), " &", stringify!($T)), [nn, aa], &n $op &x, ne);
        ck!($m, concat!(stringify!($T), " ", stringify!($as), " ", stringify!($T)), [aa, bb], { let mut v = x; v $as y; v }, e);
        ck!($m, concat!(stringify!($T), " ", stringify!($as), " &", stringify!($T)), [aa, bb], { let mut v = x; v $as &y; v }, e);
        ck!($m, concat!(stringify!($T), " ", stringify!($as), " ", stringify!($P)), [aa, nn], { let mut v = x; v $as n; v }, en);
        ck!($m, concat!(stringify!($T), " ", stringify!($as), " &", stringify!($P)), [aa, nn], { let mut v = x; v $as &n; v }, en);
    })*};
}

fn shifted(left: bool, a: W, n: u32, signed: bool) -> W {
    match (left, signed) {
        (true, _) => wshl(a, n),
        (false, false) => wshr(a, n),
        (false, true) => wsar(a, n),
    }
}

macro_rules! shifts {
    ($m:ident, $a:ident, $x:expr, $T:ident, $signed:literal, $arg:expr, $n:expr, $N:ident, $exact:expr; $($op:tt $as:tt $left:literal)*) => {{
        let n: $N = $n;
        let exact: Int = $exact;
        let oor = exact.neg || exact.mag.bits() > 8;
        let amt = (exact.wrap().1 & 0xff) as u32;
        $m.class_if(oor && exact.neg, "negative amount");
        $m.class_if(oor && !exact.neg, "amount above 255");
        $m.class_if(!oor, "amount in range");
        let aa = $arg($a);
        let nn = A::I(exact.wrap());
        $({
            let e = if oor && DEBUG { Err(()) } else { Ok(shifted($left, $a, amt, $signed)) };
            ck!($m, concat!(stringify!($T), " ", stringify!($op), " ", stringify!($N)), [aa, nn], $x $op n, e);
            ck!($m, concat!(stringify!($T), " ", stringify!($op), " &", stringify!($N)), [aa, nn], $x $op &n, e);
            ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " ", stringify!($N)), [aa, nn], &$x $op n, e);
            ck!($m, concat!("&", stringify!($T), " ", stringify!($op), " &", stringify!($N)), [aa, nn], &$x $op &n, e);
            ck!($m, concat!(stringify!($T), " ", stringify!($as), " ", stringify!($N)), [aa, nn], { let mut v = $x; v $as n; v }, e);
            ck!($m, concat!(stringify!($T), " ", stringify!($as), " &", stringify!($N)), [aa, nn], { let mut v = $x; v $as &n; v }, e);
        })*
    }};
}

fn amounts(m: &mut Mon, a: W, n: W) {
    m.case(hash_w(&[a, n, (17, 17)]), big(a) && n != ZERO);
    macro_rules! ty {
        ($n:expr, $N:ident, $exact:expr) => {
            shifts!(m, a, u(a), U256, false, A::U, $n, $N, $exact; << <<= true >> >>= false);
            shifts!(m, a, i(a), I256, true, A::I, $n, $N, $exact; << <<= true >> >>= false);
        };
        (s $($N:ident)*) => {$(ty!(n.1 as $N, $N, Int::n((n.1 as $N) as i128));)*};
        (u $($N:ident)*) => {$(ty!(n.1 as $N, $N, Int::un((n.1 as $N) as u128));)*};
    }
    ty!(s i8 i16 i32 i64 i128 isize);
    ty!(u u8 u16 u32 u64 u128 usize);
    ty!(u(n), U256, Int::u(n));
    ty!(i(n), I256, Int::i(n));
}

fn ops(m: &mut Mon, a: W, b: W, p: u128) {
    m.case(hash_w(&[a, b, (18, p)]), big(a) || big(b));
    let ip = p as i128;
    binops!(m, a, b, p, U256, u128, u, A::U, (0, p), false; + += - -= * *= / /= % %= & &= | |= ^ ^=);
    binops!(m, a, b, ip, I256, i128, i, A::I, ((ip >> 127) as u128, p), true; + += - -= * *= / /= % %= & &= | |= ^ ^=);
    ck!(m, "!U256", [A::U(a)], !u(a), Ok(wnot(a)));
    ck!(m, "!&U256", [A::U(a)], !&u(a), Ok(wnot(a)));
    ck!(m, "!I256", [A::I(a)], !i(a), Ok(wnot(a)));
    ck!(m, "!&I256", [A::I(a)], !&i(a), Ok(wnot(a)));
    let e = Fam::signed(&Int::i(a).neg()).op();
    ck!(m, "-I256", [A::I(a)], -i(a), e);
    ck!(m, "-&I256", [A::I(a)], -&i(a), e);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = match r.below(4) {
        0 => mul_pair(r),
        1 => div_pair(r),
        _ => pair(r),
    };
    // a primitive operand near the other operand or near a result boundary
    let p = match r.below(5) {
        0 => b.1,
        1 => related(r, a).1,
        2 => (Int::u(UMAX).divrem(&if a == ZERO { Int::n(1) } else { Int::u(a) }).0.wrap().1).wrapping_add(r.below(3) as u128).wrapping_sub(1),
        _ => w128(r),
    };
    ops(m, a, b, p);
    let n = match r.below(6) {
        0 => w256(r),
        1 => (0, shift(r) as u128),
        2 => wneg((0, shift(r) as u128)),
        3 => (0, w128(r)),
        // equal to an in-range amount in the low byte or word only
        4 => {
            let k = wshl(ONE, 8 + r.below(248) as u32);
            (k.0, k.1 | r.below(256) as u128)
        }
        _ => (0, r.below(256) as u128),
    };
    amounts(m, a, n);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let a = w256(r);
    for n in [(0, k as u128), (0, 256 + k as u128), wneg((0, k as u128)), (1, k as u128), (1 << 127, k as u128)] {
        amounts(m, a, n);
        amounts(m, if k & 1 == 0 { M1 } else { IMIN }, n);
    }
    let v = [ZERO, ONE, M1, IMIN, IMAX, (1, 0), (0, !0), (0, 2), (0, 1 << 127), (!0, 1 << 127)];
    if k < 100 {
        let (x, y) = (v[k as usize / 10], v[k as usize % 10]);
        for p in [0, 1, 2, !0, 1 << 127, (1 << 127) - 1] {
            ops(m, x, y, p);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P17", iter, exhaust, units: 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
