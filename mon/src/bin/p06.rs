//! P06: words, bytes, endianness conversions, memory layout, constants.
use ethnum::{I256, U256};
use mon::*;

fn image<T: Copy>(x: &T) -> Vec<u8> {
    assert_eq!(std::mem::size_of::<T>(), 32);
    let mut v = vec![0u8; 32];
    // SAFETY: T is a 32-byte plain integer type.
    unsafe { std::ptr::copy_nonoverlapping(x as *const T as *const u8, v.as_mut_ptr(), 32) };
    v
}
fn ne(a: W) -> [u8; 32] {
    if cfg!(target_endian = "little") {
        wle(a)
    } else {
        wbe(a)
    }
}

fn one(m: &mut Mon, a: W, b: W) {
    m.case(hash_w(&[a, b]), big(a) && a.0 != a.1);
    let (au, ai) = (A::U(a), A::I(a));
    let (x, y) = (u(a), i(a));
    let (h, l) = a;
    m.class_if(h >> 127 == 1 && l >> 127 == 0, "sign only in the high word");
    m.class_if(h >> 127 == 0 && l >> 127 == 1, "top bit of the low word only");
    m.class_if(wle(a) != wbe(a), "asymmetric bytes");
    ck!(m, "U256::into_words", [au], x.into_words(), Ok((h, l)));
    ck!(m, "I256::into_words", [ai], y.into_words(), Ok((h as i128, l as i128)));
    ck!(m, "U256::low/high", [au], (*x.low(), *x.high()), Ok((l, h)));
    ck!(m, "I256::low/high", [ai], (*y.low(), *y.high()), Ok((l as i128, h as i128)));
    ck!(m, "U256::low_mut", [au, A::X(b.1)], { let mut z = x; *z.low_mut() = b.1; z }, Ok((h, b.1)));
    ck!(m, "U256::high_mut", [au, A::X(b.0)], { let mut z = x; *z.high_mut() = b.0; z }, Ok((b.0, l)));
    ck!(m, "I256::low_mut", [ai, A::X(b.1)], { let mut z = y; *z.low_mut() = b.1 as i128; z }, Ok((h, b.1)));
    ck!(m, "I256::high_mut", [ai, A::X(b.0)], { let mut z = y; *z.high_mut() = b.0 as i128; z }, Ok((b.0, l)));
    ck!(m, "U256::new", [A::X(l)], U256::new(l), Ok((0, l)));
    ck!(m, "I256::new", [A::N(l as i128)], I256::new(l as i128), Ok(Int::n(l as i128).wrap()));

    let (le, be) = (wle(a), wbe(a));
    ck!(m, "U256::to_le_bytes", [au], x.to_le_bytes(), Ok(le));
    ck!(m, "U256::to_be_bytes", [au], x.to_be_bytes(), Ok(be));
    ck!(m, "U256::to_ne_bytes", [au], x.to_ne_bytes(), Ok(ne(a)));
    ck!(m, "I256::to_le_bytes", [ai], y.to_le_bytes(), Ok(le));
    ck!(m, "I256::to_be_bytes", [ai], y.to_be_bytes(), Ok(be));
    ck!(m, "I256::to_ne_bytes", [ai], y.to_ne_bytes(), Ok(ne(a)));
    ck!(m, "U256::from_le_bytes", [A::B(&le)], U256::from_le_bytes(le), Ok(a));
    ck!(m, "U256::from_be_bytes", [A::B(&be)], U256::from_be_bytes(be), Ok(a));
    ck!(m, "U256::from_ne_bytes", [A::B(&ne(a))], U256::from_ne_bytes(ne(a)), Ok(a));
    ck!(m, "I256::from_le_bytes", [A::B(&le)], I256::from_le_bytes(le), Ok(a));
    ck!(m, "I256::from_be_bytes", [A::B(&be)], I256::from_be_bytes(be), Ok(a));
    ck!(m, "I256::from_ne_bytes", [A::B(&ne(a))], I256::from_ne_bytes(ne(a)), Ok(a));

    // to_be(x) is the value whose native memory image is x's big-endian bytes.
    let sw = from_be(&le);
    let (eb, el) = if cfg!(target_endian = "little") { (sw, a) } else { (a, sw) };
    ck!(m, "U256::to_be", [au], x.to_be(), Ok(eb));
    ck!(m, "U256::to_le", [au], x.to_le(), Ok(el));
    ck!(m, "U256::from_be", [au], U256::from_be(x), Ok(eb));
    ck!(m, "U256::from_le", [au], U256::from_le(x), Ok(el));
    ck!(m, "I256::to_be", [ai], y.to_be(), Ok(eb));
    ck!(m, "I256::to_le", [ai], y.to_le(), Ok(el));
    ck!(m, "I256::from_be", [ai], I256::from_be(y), Ok(eb));
    ck!(m, "I256::from_le", [ai], I256::from_le(y), Ok(el));

    ck!(m, "U256 memory image", [au], image(&x), Ok(ne(a).to_vec()));
    ck!(m, "I256 memory image", [ai], image(&y), Ok(ne(a).to_vec()));
    ck!(m, "[U256; 2] memory image", [au, A::U(b)], {
        let v = [x, u(b)];
        assert_eq!(std::mem::size_of_val(&v), 64);
        (image(&v[0]), image(&v[1]))
    }, Ok((ne(a).to_vec(), ne(b).to_vec())));
    ck!(m, "U256::as_i256", [au], x.as_i256(), Ok(a));
    ck!(m, "I256::as_u256", [ai], y.as_u256(), Ok(a));
    ck!(m, "transmute U256 -> I256", [au], unsafe { std::mem::transmute::<U256, I256>(x) }, Ok(a));
    ck!(m, "transmute I256 -> U256", [ai], unsafe { std::mem::transmute::<I256, U256>(y) }, Ok(a));
    ck!(m, "native image -> U256", [A::B(&ne(a))], unsafe { std::mem::transmute::<[u8; 32], U256>(ne(a)) }, Ok(a));
    ck!(m, "native image -> I256", [A::B(&ne(a))], unsafe { std::mem::transmute::<[u8; 32], I256>(ne(a)) }, Ok(a));
    ck!(m, "Clone/Copy", [au], { let z = x; #[allow(clippy::clone_on_copy)] (z.clone(), y.clone()) }, Ok((a, a)));
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (a, b) = pair(r);
    one(m, a, b);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k == 256 {
        ck!(m, "U256::ZERO", [], U256::ZERO, Ok(ZERO));
        ck!(m, "U256::ONE", [], U256::ONE, Ok(ONE));
        ck!(m, "U256::MIN", [], U256::MIN, Ok(ZERO));
        ck!(m, "U256::MAX", [], U256::MAX, Ok(UMAX));
        ck!(m, "U256::BITS", [], U256::BITS, Ok(256));
        ck!(m, "U256::default", [], U256::default(), Ok(ZERO));
        ck!(m, "I256::ZERO", [], I256::ZERO, Ok(ZERO));
        ck!(m, "I256::ONE", [], I256::ONE, Ok(ONE));
        ck!(m, "I256::MINUS_ONE", [], I256::MINUS_ONE, Ok(M1));
        ck!(m, "I256::MIN", [], I256::MIN, Ok(IMIN));
        ck!(m, "I256::MAX", [], I256::MAX, Ok(IMAX));
        ck!(m, "I256::BITS", [], I256::BITS, Ok(256));
        ck!(m, "I256::default", [], I256::default(), Ok(ZERO));
        ck!(m, "size_of", [], (std::mem::size_of::<U256>(), std::mem::size_of::<I256>()), Ok((32, 32)));
        ck!(m, "align_of", [], (std::mem::align_of::<U256>() == std::mem::align_of::<I256>(), 32 % std::mem::align_of::<U256>()), Ok((true, 0)));
        ck!(m, "lower-case aliases", [], { let x: ethnum::u256 = U256::MAX; let y: ethnum::i256 = I256::MIN; (x, y) }, Ok((UMAX, IMIN)));
        return;
    }
    // every single bit, its complement, and every single byte position
    let p = wshl(ONE, k as u32);
    one(m, p, wnot(p));
    one(m, wnot(p), p);
    let q = wshl((0, 0x80 | (k as u128 & 0x7f)), (k as u32 & 31) * 8);
    one(m, q, p);
    let x = w256(r);
    one(m, x, q);
}

pub const PLAN: Plan = Plan { prop: "P06", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
