//! Calls over the whole safe API, with digests of what they return, for the monitors of P21 and P22.
use crate::ser::{Rec, E};
use crate::*;
use ethnum::serde as es;
use ethnum::{AsI256, AsU256, I256, U256};
use serde::de::value::{BytesDeserializer, Error, SeqDeserializer};
use serde::de::IntoDeserializer;

#[derive(Clone, Debug)]
pub struct In {
    pub a: U256,
    pub b: U256,
    pub p: I256,
    pub q: I256,
    pub n: u32,
    pub e: u32,
    pub f: f64,
    pub s: String,
    pub bytes: Vec<u8>,
}

pub fn words(i: &In) -> ([W; 4], u32, u32, u64, &str, &[u8]) {
    ([uw(i.a), uw(i.b), iw(i.p), iw(i.q)], i.n, i.e, i.f.to_bits(), &i.s, &i.bytes)
}

/// A digest of everything observed, without going through the library's own formatting.
pub trait Obs {
    fn put(&self, h: &mut u64);
}
fn eat(h: &mut u64, x: u64) {
    *h = mix(*h ^ x).wrapping_add(0x9e37_79b9_7f4a_7c15);
}
macro_rules! obs_num { ($($t:ty)*) => {$(impl Obs for $t { fn put(&self, h: &mut u64) { eat(h, *self as u64); eat(h, (*self as u128 >> 64) as u64) } })*}; }
obs_num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool);
impl Obs for U256 {
    fn put(&self, h: &mut u64) {
        let w = uw(*self);
        w.0.put(h);
        w.1.put(h);
    }
}
impl Obs for I256 {
    fn put(&self, h: &mut u64) {
        let w = iw(*self);
        w.0.put(h);
        w.1.put(h);
    }
}
impl Obs for f64 {
    fn put(&self, h: &mut u64) {
        eat(h, self.to_bits())
    }
}
impl Obs for f32 {
    fn put(&self, h: &mut u64) {
        eat(h, self.to_bits() as u64)
    }
}
impl Obs for std::cmp::Ordering {
    fn put(&self, h: &mut u64) {
        eat(h, *self as i8 as u64)
    }
}
impl Obs for String {
    fn put(&self, h: &mut u64) {
        eat(h, hash_bytes(self.as_bytes()))
    }
}
impl Obs for [u8; 32] {
    fn put(&self, h: &mut u64) {
        eat(h, hash_bytes(self))
    }
}
impl Obs for crate::ser::Ev {
    fn put(&self, h: &mut u64) {
        eat(h, hash_bytes(format!("{self:?}").as_bytes()))
    }
}
impl Obs for () {
    fn put(&self, h: &mut u64) {
        eat(h, 9)
    }
}
macro_rules! obs_err { ($($t:ty)*) => {$(impl Obs for $t { fn put(&self, h: &mut u64) { eat(h, hash_bytes(self.to_string().as_bytes())) } })*}; }
obs_err!(std::num::ParseIntError std::num::TryFromIntError Error E serde_json::Error);
impl<T: Obs> Obs for Option<T> {
    fn put(&self, h: &mut u64) {
        eat(h, self.is_some() as u64);
        if let Some(x) = self {
            x.put(h)
        }
    }
}
impl<T: Obs, F: Obs> Obs for Result<T, F> {
    fn put(&self, h: &mut u64) {
        eat(h, self.is_ok() as u64);
        match self {
            Ok(x) => x.put(h),
            Err(x) => x.put(h),
        }
    }
}
macro_rules! obs_tup { ($($($x:ident)*;)*) => {$(impl<$($x: Obs),*> Obs for ($($x,)*) { #[allow(non_snake_case)] fn put(&self, h: &mut u64) { let ($($x,)*) = self; $($x.put(h);)* } })*}; }
obs_tup!(A B; A B C; A B C D; A B C D F; A B C D F G; A B C D F G H; A B C D F G H I; A B C D F G H I J; A B C D F G H I J K;);

pub type Call = (&'static str, fn(&In) -> u64);
macro_rules! calls {
    ($($name:literal => |$i:ident| $($e:expr),+;)*) => {
        pub const CALLS: &[Call] = &[$(($name, |$i| { let mut h = 1u64; $( { let r = obs(|| $e); r.put(&mut h); } )+ h })),*];
    };
}
fn js<T: serde::Serialize>(x: &T) -> Result<String, serde_json::Error> {
    serde_json::to_string(x)
}
macro_rules! de {
    ($T:ident, $m:ident $(:: $k:ident)*, $src:expr) => {{
        let r: Result<$T, Error> = es::$m$(::$k)*::deserialize($src);
        r
    }};
}
calls! {
    "add" => |i| i.a + i.b, i.p + i.q, (i.a.wrapping_add(i.b), i.p.wrapping_add(i.q), i.a.checked_add(i.b), i.p.checked_add(i.q), i.a.overflowing_add(i.b), i.p.overflowing_add(i.q), i.a.saturating_add(i.b), i.p.saturating_add(i.q));
    "add mixed" => |i| (i.a.wrapping_add_signed(i.p), i.a.checked_add_signed(i.p), i.a.overflowing_add_signed(i.p), i.a.saturating_add_signed(i.p)), (i.p.wrapping_add_unsigned(i.a), i.p.checked_add_unsigned(i.a), i.p.overflowing_add_unsigned(i.a), i.p.saturating_add_unsigned(i.a));
    "sub" => |i| i.a - i.b, i.p - i.q, (i.a.wrapping_sub(i.b), i.p.wrapping_sub(i.q), i.a.checked_sub(i.b), i.p.checked_sub(i.q), i.a.overflowing_sub(i.b), i.p.overflowing_sub(i.q), i.a.saturating_sub(i.b), i.p.saturating_sub(i.q)), (i.p.wrapping_sub_unsigned(i.a), i.p.checked_sub_unsigned(i.a), i.p.overflowing_sub_unsigned(i.a), i.p.saturating_sub_unsigned(i.a));
    "neg, abs" => |i| -i.p, i.p.abs(), (i.p.wrapping_neg(), i.p.checked_neg(), i.p.overflowing_neg(), i.p.saturating_neg(), i.a.wrapping_neg(), i.a.checked_neg(), i.a.overflowing_neg()), (i.p.wrapping_abs(), i.p.checked_abs(), i.p.overflowing_abs(), i.p.saturating_abs(), i.p.unsigned_abs(), i.a.abs_diff(i.b), i.p.abs_diff(i.q), i.p.signum(), i.p.is_negative(), i.p.is_positive());
    "mul" => |i| i.a * i.b, i.p * i.q, (i.a.wrapping_mul(i.b), i.p.wrapping_mul(i.q), i.a.checked_mul(i.b), i.p.checked_mul(i.q), i.a.overflowing_mul(i.b), i.p.overflowing_mul(i.q), i.a.saturating_mul(i.b), i.p.saturating_mul(i.q));
    "pow" => |i| i.a.pow(i.e), i.p.pow(i.e), (i.a.wrapping_pow(i.e), i.p.wrapping_pow(i.e), i.a.checked_pow(i.e), i.p.checked_pow(i.e), i.a.overflowing_pow(i.e), i.p.overflowing_pow(i.e), i.a.saturating_pow(i.e), i.p.saturating_pow(i.e));
    "div" => |i| i.a / i.b, i.p / i.q, i.a.wrapping_div(i.b), i.p.overflowing_div(i.q), i.p.saturating_div(i.q), (i.a.checked_div(i.b), i.p.checked_div(i.q), i.a.checked_div_euclid(i.b), i.p.checked_div_euclid(i.q));
    "rem" => |i| i.a % i.b, i.p % i.q, i.a.wrapping_rem(i.b), i.p.overflowing_rem(i.q), (i.a.checked_rem(i.b), i.p.checked_rem(i.q), i.a.checked_rem_euclid(i.b), i.p.checked_rem_euclid(i.q));
    "euclid" => |i| i.a.div_euclid(i.b), i.p.div_euclid(i.q), i.a.rem_euclid(i.b), i.p.rem_euclid(i.q), i.p.wrapping_div_euclid(i.q), i.p.overflowing_rem_euclid(i.q);
    "div_rem" => |i| i.a.div_rem(i.b), i.p.div_rem(i.q), i.a.div_rem_euclid(i.b), i.p.div_rem_euclid(i.q), i.p.overflowing_div_rem(i.q), i.p.saturating_div_rem(i.q), (i.a.checked_div_rem(i.b), i.p.checked_div_rem_euclid(i.q));
    "shift" => |i| i.a << i.n, i.a >> i.n, i.p << i.n, i.p >> i.n, i.a << i.b, i.p >> i.q, (i.a.wrapping_shl(i.n), i.p.wrapping_shr(i.n), i.a.checked_shl(i.n), i.p.checked_shr(i.n), i.a.overflowing_shr(i.n), i.p.overflowing_shl(i.n));
    "rotate" => |i| (i.a.rotate_left(i.n), i.a.rotate_right(i.n), i.p.rotate_left(i.n), i.p.rotate_right(i.n));
    "bits" => |i| (i.a & i.b, i.p | i.q, i.a ^ i.b, !i.p), (i.a.count_ones(), i.p.count_zeros(), i.a.leading_zeros(), i.p.leading_ones(), i.a.trailing_zeros(), i.p.trailing_ones(), i.a.swap_bytes(), i.p.reverse_bits()), i.a.next_power_of_two(), (i.a.checked_next_power_of_two(), i.a.is_power_of_two());
    "bytes" => |i| (i.a.to_be_bytes(), i.p.to_le_bytes(), i.a.to_ne_bytes(), U256::from_be_bytes(i.p.to_ne_bytes()), I256::from_le_bytes(i.a.to_ne_bytes()), i.a.to_be(), i.p.to_le(), *i.a.low(), *i.p.high()), (U256::from_words(*i.b.low(), *i.a.high()), I256::new(*i.p.low()), U256::default(), I256::default());
    "compare" => |i| (i.a.cmp(&i.b), i.p.cmp(&i.q), i.a == i.b, i.p < i.q, i.a >= i.b, i.a.max(i.b), i.p.min(i.q)), (i.a == *i.b.low(), *i.q.low() < i.p, i.a.partial_cmp(i.b.low()));
    "clamp" => |i| i.a.clamp(i.b, i.b.max(U256::from_words(1, 0))), i.p.clamp(i.q, I256::ZERO);
    "hash" => |i| { use std::hash::*; let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| { let mut s = std::collections::hash_map::DefaultHasher::new(); x(&mut s); s.finish() }; (h(&|s| i.a.hash(s)), h(&|s| i.p.hash(s))) };
    "as" => |i| (i.a.as_u8(), i.p.as_i16(), i.a.as_i64(), i.p.as_u128(), i.a.as_usize(), i.p.as_isize(), i.a.as_i256(), i.p.as_u256(), (*i.p.low()).as_u256(), i.n.as_i256());
    "try" => |i| (u8::try_from(i.a), i16::try_from(i.p), u64::try_from(i.a), i128::try_from(i.p), i128::try_from(i.a), usize::try_from(i.p), U256::try_from(i.p), I256::try_from(i.a), U256::try_from(*i.p.low()));
    "to float" => |i| (i.a.as_f64(), i.p.as_f64(), i.a.as_f32(), i.p.as_f32(), f64::from(i.a), f32::from(i.p));
    "from float" => |i| (i.f.as_u256(), i.f.as_i256(), (i.f as f32).as_u256(), (i.f as f32).as_i256());
    "parse" => |i| (i.s.parse::<U256>(), i.s.parse::<I256>(), U256::from_str_hex(&i.s), I256::from_str_hex(&i.s), U256::from_str_prefixed(&i.s), I256::from_str_prefixed(&i.s)), (U256::from_str_radix(&i.s, 2 + i.n % 35), I256::from_str_radix(&i.s, 36)), U256::from_str_radix(&i.s, i.n);
    "literal" => |i| U256::const_from_str_prefixed(&i.s), I256::const_from_str_prefixed(&i.s);
    "decimal" => |i| format!("{}|{:?}", i.a, i.p), format!("{:+9}|{:<#90}|{:e}", i.p, i.a, i.q);
    "radix" => |i| format!("{:x}|{:#X}|{:o}", i.a, i.p, i.b), format!("{:#b}|{:-x}|{:x?}", i.p, i.q, i.a);
    "serialize text" => |i| js(&i.a), js(&i.p), (es::decimal::serialize(&i.a, Rec { human: true }), es::prefixed::serialize(&i.p, Rec { human: false }), es::permissive::serialize(&i.q, Rec { human: true }));
    "serialize bytes" => |i| (es::bytes::le::serialize(&i.a, Rec { human: true }), es::bytes::be::serialize(&i.p, Rec { human: true }), es::compressed_bytes::le::serialize(&i.p, Rec { human: true }), es::compressed_bytes::be::serialize(&i.a, Rec { human: true }));
    "deserialize text" => |i| (de!(U256, decimal, i.s.as_str().into_deserializer()), de!(I256, prefixed, i.s.as_str().into_deserializer()), de!(I256, permissive, i.s.as_str().into_deserializer()), de!(U256, permissive, i.f.into_deserializer())), (de!(U256, permissive, (*i.p.low()).into_deserializer()), de!(I256, permissive, (*i.a.low()).into_deserializer())), serde_json::from_str::<U256>(&i.s);
    "deserialize bytes" => |i| (de!(U256, bytes::le, BytesDeserializer::new(&i.bytes)), de!(I256, compressed_bytes::be, BytesDeserializer::new(&i.bytes)), de!(I256, compressed_bytes::le, SeqDeserializer::new(i.bytes.iter().copied())), de!(U256, bytes::be, SeqDeserializer::new(i.bytes.iter().copied())));
    "sum, product" => |i| [i.a, i.b, i.a].iter().sum::<U256>(), [i.p, i.q].into_iter().sum::<I256>(), [i.a, i.b].into_iter().product::<U256>(), [i.p, i.q, i.p].iter().product::<I256>();
}

/// Inputs sharing halves with each other, so that anything remembered under part of an operand would be mistaken.
pub fn inputs(r: &mut Rng, n: usize) -> Vec<In> {
    let (x, y) = match r.below(4) {
        0 => mul_pair(r),
        1 => div_pair(r),
        _ => pair(r),
    };
    let z = w256(r);
    let halves = [x.0, x.1, y.0, y.1, z.0, z.1, 0, !0];
    let limb = |r: &mut Rng| match r.below(10) {
        0 => 0,
        1 => !0u64,
        k => (halves[(k - 2) as usize % 6] >> (64 * r.below(2))) as u64,
    };
    let val = |r: &mut Rng| match r.below(8) {
        0 => x,
        1 => y,
        2 => (0, limb(r) as u128),
        3 | 4 => (((limb(r) as u128) << 64) | limb(r) as u128, ((limb(r) as u128) << 64) | limb(r) as u128),
        _ => (*r.pick(&halves), *r.pick(&halves)),
    };
    let radix = *r.pick(&[2u128, 8, 10, 16]);
    let base: String = if radix == 10 { Int::u(y).to_string() } else { format!("{:x}{:x}", y.0, y.1) };
    let mut v: Vec<In> = Vec::new();
    for k in 0..n {
        let (a, b, p, q) = (u(val(r)), u(val(r)), i(val(r)), i(val(r)));
        let mut s = base.clone();
        match r.below(6) {
            0 => s.insert_str(0, "0x"),
            1 => s.insert(0, '-'),
            2 => s.truncate(r.below(s.len() as u64 + 1) as usize),
            3 => s.push(*r.pick(&['0', 'g', '_', ' ', '\u{e9}'])),
            _ => {}
        }
        let mut bytes = uw(a).0.to_be_bytes().to_vec();
        bytes.extend(uw(b).1.to_le_bytes());
        match r.below(3) {
            0 => bytes.truncate(r.below(33) as usize),
            1 => bytes.push(1),
            _ => {}
        }
        let f = if r.bool() { f64::from_bits((uw(a).0 >> 64) as u64) } else { f64::from_bits(((1022 + r.below(260)) << 52) | (w64(r) >> 12)) };
        let mut new = In { a, b, p, q, n: shift(r), e: exponent(r), f, s, bytes };
        // sometimes the same input as before with one field exchanged
        if k > 0 && r.bool() {
            let old = v[r.below(k as u64) as usize].clone();
            new = match r.below(6) {
                0 => In { a: new.a, ..old },
                1 => In { b: new.b, q: new.q, ..old },
                2 => In { p: new.p, ..old },
                3 => In { n: new.n, e: new.e, ..old },
                4 => In { s: new.s, f: new.f, ..old },
                _ => In { bytes: new.bytes, q: new.q, ..old },
            };
        }
        v.push(new);
    }
    v
}

