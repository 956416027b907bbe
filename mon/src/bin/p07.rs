//! P07: comparison, equality, hashing.
use ethnum::{I256, U256};
use mon::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Hasher recording everything written to it.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(0xA5);
    }
}
fn tape<T: Hash>(x: T) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}
fn sip<T: Hash>(x: T) -> u64 {
    let mut t = DefaultHasher::new();
    x.hash(&mut t);
    t.finish()
}

/// All six comparison operators and partial_cmp as bits.
macro_rules! rel {
    ($a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let bits = (a == b) as u8 | ((a != b) as u8) << 1 | ((a < b) as u8) << 2 | ((a <= b) as u8) << 3 | ((a > b) as u8) << 4 | ((a >= b) as u8) << 5;
        (bits, PartialOrd::partial_cmp(&a, &b))
    }};
}
fn exp(o: Ordering) -> Result<(u8, Option<Ordering>), ()> {
    let bits = match o {
        Ordering::Equal => 0b101001,
        Ordering::Less => 0b001110,
        Ordering::Greater => 0b110010,
    };
    Ok((bits, Some(o)))
}

fn one(m: &mut Mon, a: W, b: W, c: W) {
    m.case(hash_w(&[a, b, c]), big(a) && big(b));
    macro_rules! ty {
        ($t:ident, $f:ident, $k:ident, $iv:path, $name:literal) => {{
            let (aa, ab, ac) = (A::$k(a), A::$k(b), A::$k(c));
            let (x, y, z) = ($f(a), $f(b), $f(c));
            let (ia, ib, ic) = ($iv(a), $iv(b), $iv(c));
            let o = ia.cmp(&ib);
            m.class_if(o == Ordering::Equal, concat!($name, " equal"));
            m.class_if(o != Ordering::Equal && a.0 == b.0, concat!($name, " differ in the low word only"));
            m.class_if(o != Ordering::Equal && a.1 == b.1, concat!($name, " differ in the high word only"));
            m.class_if(o == Ordering::Less && a.1 > b.1, concat!($name, " words order oppositely"));
            m.class_if((a.0 >> 127) != (b.0 >> 127), concat!($name, " top bits differ"));
            ck!(m, concat!($name, " comparison operators"), [aa, ab], rel!(x, y), exp(o));
            ck!(m, concat!("&", $name, " comparison operators"), [aa, ab], rel!(&x, &y), exp(o));
            ck!(m, concat!($name, "::cmp"), [aa, ab], Ord::cmp(&x, &y), Ok(o));
            let (mn, mx) = if o == Ordering::Greater { (b, a) } else { (a, b) };
            ck!(m, concat!($name, "::min"), [aa, ab], Ord::min(x, y), Ok(mn));
            ck!(m, concat!($name, "::max"), [aa, ab], Ord::max(x, y), Ok(mx));
            // clamp(z, min(x,y), max(x,y))
            let (l, h) = (mn, mx);
            let e = if ic.cmp(&$iv(l)) == Ordering::Less { l } else if ic.cmp(&$iv(h)) == Ordering::Greater { h } else { c };
            ck!(m, concat!($name, "::clamp"), [ac, A::$k(l), A::$k(h)], z.clamp($f(l), $f(h)), Ok(e));
            if o != Ordering::Equal {
                ck!(m, concat!($name, "::clamp reversed bounds"), [ac, A::$k(h), A::$k(l)], z.clamp($f(h), $f(l)), Err(()));
            }
            // sorting three values
            let mut s = [(ia, a), (ib, b), (ic, c)];
            s.sort_by(|p, q| p.0.cmp(&q.0));
            ck!(m, concat!($name, " sort"), [aa, ab, ac], { let mut v = [x, y, z]; v.sort(); (v[0], v[1], v[2]) }, Ok((s[0].1, s[1].1, s[2].1)));
            // values built along different routes hash identically when equal
            let x2 = $t::from_le_bytes(wle(a));
            ck!(m, concat!($name, " hash of equal values"), [aa], (tape(x) == tape(x2), sip(x) == sip(x2), tape(&x) == tape(x)), Ok((true, true, true)));
            if o == Ordering::Equal {
                ck!(m, concat!($name, " hash of equal values 2"), [aa, ab], tape(x) == tape(y), Ok(true));
            }
        }};
    }
    ty!(U256, u, U, Int::u, "U256");
    ty!(I256, i, I, Int::i, "I256");

    // primitives on either side
    for p in [b.1, b.0, a.1, a.1.wrapping_add(1), a.1.wrapping_sub(1)] {
        let o = Int::u(a).cmp(&Int::un(p));
        m.class_if(a.0 != 0 && a.1 == p, "U256 vs u128 equal low word only");
        ck!(m, "U256 vs u128", [A::U(a), A::X(p)], rel!(u(a), p), exp(o));
        ck!(m, "u128 vs U256", [A::X(p), A::U(a)], rel!(p, u(a)), exp(o.reverse()));
        let q = p as i128;
        let o = Int::i(a).cmp(&Int::n(q));
        m.class_if(o != Ordering::Equal && a.1 == p, "I256 vs i128 equal low word only");
        m.class_if(o == Ordering::Equal && q < 0, "I256 vs negative i128 equal");
        ck!(m, "I256 vs i128", [A::I(a), A::N(q)], rel!(i(a), q), exp(o));
        ck!(m, "i128 vs I256", [A::N(q), A::I(a)], rel!(q, i(a)), exp(o.reverse()));
    }
    let _ = (U256::ZERO, I256::ZERO);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = pair(r);
    let c = if r.bool() { related(r, a) } else { w256(r) };
    one(m, a, b, c);
    // the low word alone, sign-extended
    let s = Int::n(a.1 as i128).wrap();
    one(m, s, b, a);
    one(m, (0, a.1), s, b);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    let p = wshl(ONE, k as u32);
    let base = w256(r);
    // flip every bit k of fixed and random values
    for x in [ZERO, M1, IMIN, IMAX, base] {
        let y = (x.0 ^ p.0, x.1 ^ p.1);
        one(m, x, y, base);
        one(m, y, x, wneg(p));
        one(m, x, x, y);
    }
}

pub const PLAN: Plan = Plan { prop: "P07", iter, exhaust, units: 256 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
