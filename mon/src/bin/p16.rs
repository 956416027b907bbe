//! P16: random register-machine histories, recorded as an event log for the offline checker.
//!
//! This program decides nothing. Each line is `<op> <dst> <a> <b> <imm> <outcome>`; the checker
//! (tools/p16_replay.py) re-executes the history on Python integers, one log per build configuration.
use ethnum::{AsI256, AsU256, I256, U256};
use mon::*;
use std::cmp::Ordering;
use std::fmt::Write;
use std::str::FromStr;

const N: usize = 6;
const STEPS: usize = 160;

struct Vm<'a> {
    u: [U256; N],
    i: [I256; N],
    m: &'a mut Mon,
    line: String,
}

fn hx(w: W) -> String {
    format!("{:032x}{:032x}", w.0, w.1)
}
trait Out {
    fn out(&self) -> String;
}
impl Out for U256 {
    fn out(&self) -> String {
        hx(uw(*self))
    }
}
impl Out for I256 {
    fn out(&self) -> String {
        hx(iw(*self))
    }
}
macro_rules! out_num { ($($t:ty)*) => {$(impl Out for $t { fn out(&self) -> String { format!("{self}") } })*}; }
out_num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool);
impl Out for String {
    fn out(&self) -> String {
        self.replace(' ', "~")
    }
}
impl Out for Ordering {
    fn out(&self) -> String {
        format!("{}", *self as i8)
    }
}
impl<T: Out> Out for Option<T> {
    fn out(&self) -> String {
        self.as_ref().map(Out::out).unwrap_or("none".into())
    }
}
impl<T: Out, E> Out for Result<T, E> {
    fn out(&self) -> String {
        self.as_ref().map(Out::out).unwrap_or("err".into())
    }
}
impl<A: Out, B: Out> Out for (A, B) {
    fn out(&self) -> String {
        format!("{},{}", self.0.out(), self.1.out())
    }
}
impl<A: Out, B: Out, C: Out> Out for (A, B, C) {
    fn out(&self) -> String {
        format!("{},{},{}", self.0.out(), self.1.out(), self.2.out())
    }
}
impl Out for [u8; 32] {
    fn out(&self) -> String {
        self.iter().map(|b| format!("{b:02x}")).collect()
    }
}
impl Out for Vec<u8> {
    fn out(&self) -> String {
        format!("b{}", self.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}

impl Vm<'_> {
    fn rec<T: Out>(&mut self, o: &Result<T, ()>) {
        match o {
            Ok(x) => self.line.push_str(&x.out()),
            Err(()) => {
                self.m.panics += 1;
                self.line.push_str("PANIC")
            }
        }
    }
    /// Log a value-producing call; on a panic the register takes `or`.
    fn set_u(&mut self, d: usize, f: impl FnOnce() -> U256, or: impl FnOnce() -> U256) {
        let r = obs(f);
        self.rec(&r);
        self.u[d] = r.unwrap_or_else(|_| or());
    }
    fn set_i(&mut self, d: usize, f: impl FnOnce() -> I256, or: impl FnOnce() -> I256) {
        let r = obs(f);
        self.rec(&r);
        self.i[d] = r.unwrap_or_else(|_| or());
    }
    fn opt_u(&mut self, d: usize, f: impl FnOnce() -> Option<U256>) {
        let r = obs(f);
        self.rec(&r);
        if let Ok(Some(v)) = r {
            self.u[d] = v;
        }
    }
    fn opt_i(&mut self, d: usize, f: impl FnOnce() -> Option<I256>) {
        let r = obs(f);
        self.rec(&r);
        if let Ok(Some(v)) = r {
            self.i[d] = v;
        }
    }
    fn ovf_u(&mut self, d: usize, f: impl FnOnce() -> (U256, bool)) {
        let r = obs(f);
        self.rec(&r);
        if let Ok((v, _)) = r {
            self.u[d] = v;
        }
    }
    fn ovf_i(&mut self, d: usize, f: impl FnOnce() -> (I256, bool)) {
        let r = obs(f);
        self.rec(&r);
        if let Ok((v, _)) = r {
            self.i[d] = v;
        }
    }
    fn see<T: Out>(&mut self, f: impl FnOnce() -> T) {
        let r = obs(f);
        self.rec(&r);
    }
}

macro_rules! ops {
    ($($name:literal => |$v:ident, $d:ident, $a:ident, $b:ident, $k:ident| $e:expr;)*) => {
        const NAMES: &[&str] = &[$($name),*];
        fn exec(v: &mut Vm, op: usize, d: usize, a: usize, b: usize, k: u64) {
            #[allow(unused_variables)]
            let t: &[fn(&mut Vm, usize, usize, usize, u64)] = &[$(|$v, $d, $a, $b, $k| $e),*];
            t[op](v, d, a, b, k)
        }
    };
}

ops! {
    // operators; debug builds may panic
    "u+" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x + y, || x.wrapping_add(y)) };
    "u-" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || &x - y, || x.wrapping_sub(y)) };
    "u*" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x * &y, || x.wrapping_mul(y)) };
    "u/" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x / y, || x) };
    "u%" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || &x % &y, || U256::ZERO) };
    "u+=" => |v, d, a, b, k| { let (x, y) = (v.u[d], v.u[b]); v.set_u(d, || { let mut t = x; t += y; t }, || x.wrapping_add(y)) };
    "u-=" => |v, d, a, b, k| { let (x, y) = (v.u[d], v.u[b]); v.set_u(d, || { let mut t = x; t -= y; t }, || x.wrapping_sub(y)) };
    "u*=" => |v, d, a, b, k| { let (x, y) = (v.u[d], v.u[b]); v.set_u(d, || { let mut t = x; t *= &y; t }, || x.wrapping_mul(y)) };
    "u/=" => |v, d, a, b, k| { let (x, y) = (v.u[d], v.u[b]); v.set_u(d, || { let mut t = x; t /= y; t }, || x) };
    "u%=" => |v, d, a, b, k| { let (x, y) = (v.u[d], v.u[b]); v.set_u(d, || { let mut t = x; t %= y; t }, || U256::ZERO) };
    "u<<" => |v, d, a, b, k| { let x = v.u[a]; let k = k as u32; v.set_u(d, || x << k, || x.wrapping_shl(k)) };
    "u>>" => |v, d, a, b, k| { let x = v.u[a]; let k = k as u32; v.set_u(d, || x >> k, || x.wrapping_shr(k)) };
    "u<<=" => |v, d, a, b, k| { let x = v.u[d]; let k = k as u32; v.set_u(d, || { let mut t = x; t <<= k; t }, || x.wrapping_shl(k)) };
    "u>>=" => |v, d, a, b, k| { let x = v.u[d]; let k = k as u32; v.set_u(d, || { let mut t = x; t >>= k; t }, || x.wrapping_shr(k)) };
    "u<<u" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x << y, || x.wrapping_shl(y.as_u32())) };
    "u>>i" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.i[b]); v.set_u(d, || x >> y, || x.wrapping_shr(y.as_u32())) };
    "u&" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x & y, || x) };
    "u|" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x | y, || x) };
    "u^" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x ^ y, || x) };
    "u!" => |v, d, a, b, k| { let x = v.u[a]; v.set_u(d, || !x, || x) };
    "upow" => |v, d, a, b, k| { let x = v.u[a]; let k = k as u32; v.set_u(d, || x.pow(k), || x.wrapping_pow(k)) };
    "u+p" => |v, d, a, b, k| { let x = v.u[a]; v.set_u(d, || x + k as u128, || x.wrapping_add(U256::from(k))) };
    "p-u" => |v, d, a, b, k| { let x = v.u[a]; v.set_u(d, || k as u128 - x, || U256::from(k).wrapping_sub(x)) };
    "usum" => |v, d, a, b, k| { let t = v.u; v.set_u(d, || t[..=b].iter().sum(), || t[..=b].iter().fold(U256::ZERO, |s, x| s.wrapping_add(*x))) };
    "uprod" => |v, d, a, b, k| { let t = v.u; v.set_u(d, || t[..=b].iter().copied().product(), || t[..=b].iter().fold(U256::ONE, |s, x| s.wrapping_mul(*x))) };
    "i+" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x + y, || x.wrapping_add(y)) };
    "i-" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || &x - y, || x.wrapping_sub(y)) };
    "i*" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x * &y, || x.wrapping_mul(y)) };
    "i/" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x / y, || x) };
    "i%" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || &x % &y, || I256::ZERO) };
    "i+=" => |v, d, a, b, k| { let (x, y) = (v.i[d], v.i[b]); v.set_i(d, || { let mut t = x; t += y; t }, || x.wrapping_add(y)) };
    "i-=" => |v, d, a, b, k| { let (x, y) = (v.i[d], v.i[b]); v.set_i(d, || { let mut t = x; t -= y; t }, || x.wrapping_sub(y)) };
    "i*=" => |v, d, a, b, k| { let (x, y) = (v.i[d], v.i[b]); v.set_i(d, || { let mut t = x; t *= &y; t }, || x.wrapping_mul(y)) };
    "i/=" => |v, d, a, b, k| { let (x, y) = (v.i[d], v.i[b]); v.set_i(d, || { let mut t = x; t /= y; t }, || x) };
    "i%=" => |v, d, a, b, k| { let (x, y) = (v.i[d], v.i[b]); v.set_i(d, || { let mut t = x; t %= y; t }, || I256::ZERO) };
    "i<<" => |v, d, a, b, k| { let x = v.i[a]; let k = k as u32; v.set_i(d, || x << k, || x.wrapping_shl(k)) };
    "i>>" => |v, d, a, b, k| { let x = v.i[a]; let k = k as u32; v.set_i(d, || x >> k, || x.wrapping_shr(k)) };
    "i<<=" => |v, d, a, b, k| { let x = v.i[d]; let k = k as u32; v.set_i(d, || { let mut t = x; t <<= k; t }, || x.wrapping_shl(k)) };
    "i>>=" => |v, d, a, b, k| { let x = v.i[d]; let k = k as u32; v.set_i(d, || { let mut t = x; t >>= k; t }, || x.wrapping_shr(k)) };
    "i<<i" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x << y, || x.wrapping_shl(y.as_u32())) };
    "i>>u" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.u[b]); v.set_i(d, || x >> y, || x.wrapping_shr(y.as_u32())) };
    "i&" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x & y, || x) };
    "i|" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x | y, || x) };
    "i^" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x ^ y, || x) };
    "i!" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || !x, || x) };
    "ineg" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || -x, || x.wrapping_neg()) };
    "iabs" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || x.abs(), || x.wrapping_abs()) };
    "ipow" => |v, d, a, b, k| { let x = v.i[a]; let k = k as u32; v.set_i(d, || x.pow(k), || x.wrapping_pow(k)) };
    "i*p" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || x * k as i64 as i128, || x.wrapping_mul(I256::from(k as i64))) };
    "isum" => |v, d, a, b, k| { let t = v.i; v.set_i(d, || t[..=b].iter().copied().sum(), || t[..=b].iter().fold(I256::ZERO, |s, x| s.wrapping_add(*x))) };
    "iprod" => |v, d, a, b, k| { let t = v.i; v.set_i(d, || t[..=b].iter().product(), || t[..=b].iter().fold(I256::ONE, |s, x| s.wrapping_mul(*x))) };
    // wrapping, checked, overflowing, saturating
    "u.wadd" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.wrapping_add(y), || x) };
    "u.wsub" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.wrapping_sub(y), || x) };
    "u.wmul" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.wrapping_mul(y), || x) };
    "i.wadd" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.wrapping_add(y), || x) };
    "i.wsub" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.wrapping_sub(y), || x) };
    "i.wmul" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.wrapping_mul(y), || x) };
    "u.cadd" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.opt_u(d, || x.checked_add(y)) };
    "u.csub" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.opt_u(d, || x.checked_sub(y)) };
    "u.cmul" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.opt_u(d, || x.checked_mul(y)) };
    "u.cdiv" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.opt_u(d, || x.checked_div(y)) };
    "u.crem" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.opt_u(d, || x.checked_rem(y)) };
    "u.cpow" => |v, d, a, b, k| { let x = v.u[a]; v.opt_u(d, || x.checked_pow(k as u32)) };
    "i.cadd" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.opt_i(d, || x.checked_add(y)) };
    "i.csub" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.opt_i(d, || x.checked_sub(y)) };
    "i.cmul" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.opt_i(d, || x.checked_mul(y)) };
    "i.cdiv" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.opt_i(d, || x.checked_div(y)) };
    "i.crem" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.opt_i(d, || x.checked_rem(y)) };
    "i.cpow" => |v, d, a, b, k| { let x = v.i[a]; v.opt_i(d, || x.checked_pow(k as u32)) };
    "u.oadd" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.ovf_u(d, || x.overflowing_add(y)) };
    "u.osub" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.ovf_u(d, || x.overflowing_sub(y)) };
    "u.omul" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.ovf_u(d, || x.overflowing_mul(y)) };
    "i.oadd" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.ovf_i(d, || x.overflowing_add(y)) };
    "i.osub" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.ovf_i(d, || x.overflowing_sub(y)) };
    "i.omul" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.ovf_i(d, || x.overflowing_mul(y)) };
    "u.ushl" => |v, d, a, b, k| { let x = v.u[a]; v.ovf_u(d, || x.overflowing_shl(k as u32)) };
    "u.ushr" => |v, d, a, b, k| { let x = v.u[a]; v.ovf_u(d, || x.overflowing_shr(k as u32)) };
    "i.ushl" => |v, d, a, b, k| { let x = v.i[a]; v.ovf_i(d, || x.overflowing_shl(k as u32)) };
    "i.ushr" => |v, d, a, b, k| { let x = v.i[a]; v.ovf_i(d, || x.overflowing_shr(k as u32)) };
    "u.sadd" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.saturating_add(y), || x) };
    "u.ssub" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.saturating_sub(y), || x) };
    "u.smul" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.saturating_mul(y), || x) };
    "i.sadd" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.saturating_add(y), || x) };
    "i.ssub" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.saturating_sub(y), || x) };
    "i.smul" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.saturating_mul(y), || x) };
    "i.spow" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || x.saturating_pow(k as u32), || x) };
    // division families
    "u.dive" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.div_euclid(y), || x) };
    "i.dive" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.div_euclid(y), || x) };
    "i.reme" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.rem_euclid(y), || I256::ZERO) };
    "u.divrem" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.see(|| x.div_rem(y)) };
    "i.divrem" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.see(|| x.div_rem(y)) };
    "i.divreme" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.see(|| x.div_rem_euclid(y)) };
    "i.cdivrem" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.see(|| x.checked_div_rem(y)) };
    "i.odivreme" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.see(|| x.overflowing_div_rem_euclid(y)) };
    // bits
    "u.rotl" => |v, d, a, b, k| { let x = v.u[a]; v.set_u(d, || x.rotate_left(k as u32), || x) };
    "i.rotr" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || x.rotate_right(k as u32), || x) };
    "u.swap" => |v, d, a, b, k| { let x = v.u[a]; v.set_u(d, || x.swap_bytes(), || x) };
    "i.rev" => |v, d, a, b, k| { let x = v.i[a]; v.set_i(d, || x.reverse_bits(), || x) };
    "u.counts" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| (x.count_ones(), x.leading_zeros(), x.trailing_zeros())) };
    "i.counts" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| (x.count_zeros(), x.leading_ones(), x.trailing_ones())) };
    "u.npow2" => |v, d, a, b, k| { let x = v.u[a]; v.opt_u(d, || x.checked_next_power_of_two()) };
    "u.lebytes" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| x.to_le_bytes()) };
    "i.bebytes" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| x.to_be_bytes()) };
    // comparison
    "u.cmp" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.see(|| (x.cmp(&y), x == y)) };
    "i.cmp" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.see(|| (x.cmp(&y), x == y)) };
    "u.max" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.max(y), || x) };
    "i.min" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_i(d, || x.min(y), || x) };
    "u.diff" => |v, d, a, b, k| { let (x, y) = (v.u[a], v.u[b]); v.set_u(d, || x.abs_diff(y), || x) };
    "i.diff" => |v, d, a, b, k| { let (x, y) = (v.i[a], v.i[b]); v.set_u(d, || x.abs_diff(y), || U256::ZERO) };
    // conversions
    "u<-i" => |v, d, a, b, k| { let x = v.i[a]; v.set_u(d, || x.as_u256(), || U256::ZERO) };
    "i<-u" => |v, d, a, b, k| { let x = v.u[a]; v.set_i(d, || x.as_i256(), || I256::ZERO) };
    "u<=i" => |v, d, a, b, k| { let x = v.i[a]; v.opt_u(d, || U256::try_from(x).ok()) };
    "i<=u" => |v, d, a, b, k| { let x = v.u[a]; v.opt_i(d, || I256::try_from(x).ok()) };
    "u.prims" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| (x.as_u8(), x.as_i64(), x.as_u128())) };
    "i.prims" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| (x.as_i16(), x.as_u32(), x.as_i128())) };
    "u.try" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| (u64::try_from(x), i8::try_from(x), u128::try_from(x))) };
    "i.try" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| (i64::try_from(x), u16::try_from(x), i128::try_from(x))) };
    "u.f64" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| (x.as_f64().to_bits(), x.as_f32().to_bits())) };
    "i.f64" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| (x.as_f64().to_bits(), x.as_f32().to_bits())) };
    "u<-f" => |v, d, a, b, k| v.set_u(d, || f64::from_bits(k).as_u256(), || U256::ZERO);
    "i<-f" => |v, d, a, b, k| v.set_i(d, || f64::from_bits(k).as_i256(), || I256::ZERO);
    "i<-f32" => |v, d, a, b, k| v.set_i(d, || f32::from_bits(k as u32).as_i256(), || I256::ZERO);
    "i<-p" => |v, d, a, b, k| v.set_i(d, || (k as i32).as_i256(), || I256::ZERO);
    // text
    "u.fmt" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| format!("{x}|{x:#x}|{x:#o}|{x:b}")) };
    "i.fmt" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| format!("{x:+}|{x:-#x}|{x:o}|{x:0>9}")) };
    "u.json" => |v, d, a, b, k| { let x = v.u[a]; v.see(|| serde_json::to_string(&x).unwrap()) };
    "i.json" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| serde_json::to_string(&x).unwrap()) };
    "i.cbytes" => |v, d, a, b, k| { let x = v.i[a]; v.see(|| mon::ser::compressed_be(&x)) };
    // identities evaluated by the implementation itself
    "id.addsub" => |v, d, a, b, k| { let (x, y, p, q) = (v.u[a], v.u[b], v.i[a], v.i[b]); v.see(|| (x.wrapping_add(y).wrapping_sub(y) == x, p.wrapping_sub(q).wrapping_add(q) == p, p.wrapping_neg().wrapping_add(p) == 0)) };
    "id.divmul" => |v, d, a, b, k| { let (x, y, p, q) = (v.u[a], v.u[b] | 1, v.i[a], v.i[b] | 1); v.see(|| (x / y * y + x % y == x, p.wrapping_div(q).wrapping_mul(q).wrapping_add(p.wrapping_rem(q)) == p, p.wrapping_rem_euclid(q) >= 0)) };
    "id.mul" => |v, d, a, b, k| { let (x, y, p, q) = (v.u[a], v.u[b], v.i[a], v.i[b]); v.see(|| (x.wrapping_mul(y) == y.wrapping_mul(x), p.wrapping_mul(q).as_u256() == p.as_u256().wrapping_mul(q.as_u256()), x.wrapping_mul(y).wrapping_add(x) == x.wrapping_mul(y.wrapping_add(U256::ONE)))) };
    "id.text" => |v, d, a, b, k| { let (x, p) = (v.u[a], v.i[b]); v.see(|| (U256::from_str(&x.to_string()) == Ok(x), I256::from_str(&p.to_string()) == Ok(p), I256::from_str_hex(&format!("{p:-#x}")) == Ok(p))) };
    "id.radix" => |v, d, a, b, k| { let (x, p) = (v.u[a], v.i[b]); v.see(|| (U256::from_str_radix(&format!("{x:b}"), 2) == Ok(x), U256::from_str_radix(&format!("{x:o}"), 8) == Ok(x), U256::from_str_radix(&format!("{:X}", p), 16) == Ok(p.as_u256()))) };
    "id.bytes" => |v, d, a, b, k| { let (x, p) = (v.u[a], v.i[b]); v.see(|| (U256::from_be_bytes(x.to_be_bytes()) == x, I256::from_le_bytes(p.to_le_bytes()) == p, x.swap_bytes().swap_bytes() == x)) };
    "id.shift" => |v, d, a, b, k| { let (x, p) = (v.u[a], v.i[b]); let n = (k & 0xff) as u32; v.see(|| (((x >> n) << n) == (x & (U256::MAX << n)), x.rotate_left(n).rotate_right(n) == x, (p >> n) == p.div_euclid(I256::ONE.wrapping_shl(n)) || n == 255)) };
    "id.serde" => |v, d, a, b, k| { let (x, p) = (v.u[a], v.i[b]); v.see(|| (serde_json::from_str::<U256>(&serde_json::to_string(&x).unwrap()).ok() == Some(x), serde_json::from_str::<I256>(&serde_json::to_string(&p).unwrap()).ok() == Some(p))) };
    "id.order" => |v, d, a, b, k| { let (x, y, p, q) = (v.u[a], v.u[b], v.i[a], v.i[b]); v.see(|| ((x < y) == (y > x), (x <= y) == !(y < x), (p < q) == (p.checked_sub(q).map(|t| t < 0).unwrap_or(p < 0)))) };
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let head = format!("H {}\n", m.unit);
    let mut log = head;
    let mut h = 0u64;
    {
        let mut v = Vm { u: [U256::ZERO; N], i: [I256::ZERO; N], m: &mut *m, line: String::new() };
        for step in 0..STEPS {
            // operands: fresh hostile pairs now and then, otherwise results of earlier steps
            if step == 0 || r.chance(1, 4) {
                let (x, y) = match r.below(4) {
                    0 => mul_pair(r),
                    1 => div_pair(r),
                    2 => (w256(r), (0, r.below(300) as u128)),
                    _ => pair(r),
                };
                let (d, e) = (r.below(N as u64) as usize, r.below(N as u64) as usize);
                if r.bool() {
                    (v.u[d], v.u[e]) = (u(x), u(y));
                    if d == e {
                        v.u[d] = u(x);
                    }
                    let _ = writeln!(log, "lu {d} {e} 0 0 {},{}", hx(x), hx(y));
                } else {
                    (v.i[d], v.i[e]) = (i(x), i(y));
                    if d == e {
                        v.i[d] = i(x);
                    }
                    let _ = writeln!(log, "li {d} {e} 0 0 {},{}", hx(x), hx(y));
                }
            }
            let op = r.below(NAMES.len() as u64) as usize;
            let (d, a, b) = (r.below(N as u64) as usize, r.below(N as u64) as usize, r.below(N as u64) as usize);
            let name = NAMES[op];
            let k = match name {
                "upow" | "ipow" | "u.cpow" | "i.cpow" | "i.spow" => exponent(r) as u64,
                "u<-f" | "i<-f" => {
                    // exponents across the whole 256-bit range, and any bit pattern
                    if r.chance(1, 6) {
                        r.next()
                    } else {
                        ((r.bool() as u64) << 63) | ((1022 + r.below(260)) << 52) | (w64(r) >> 12)
                    }
                }
                "i<-f32" => {
                    if r.chance(1, 4) {
                        r.next() as u32 as u64
                    } else {
                        ((r.bool() as u64) << 31) | ((126 + r.below(130)) << 23) | (w64(r) & 0x7fffff)
                    }
                }
                "u+p" | "p-u" | "i*p" | "i<-p" => w64(r),
                _ => shift(r) as u64,
            };
            v.m.count(name);
            exec(&mut v, op, d, a, b, k);
            let _ = writeln!(log, "{name} {d} {a} {b} {k} {}", v.line);
            h = mix(h ^ hash_bytes(v.line.as_bytes()));
            v.line.clear();
        }
        let _ = writeln!(log, "E {} {}", v.u.iter().map(Out::out).collect::<Vec<_>>().join(","), v.i.iter().map(Out::out).collect::<Vec<_>>().join(","));
    }
    m.case(h, true);
    m.log.push_str(&log);
}

fn exhaust(_: &mut Mon, _: u64, _: &mut Rng) {}

pub const PLAN: Plan = Plan { prop: "P16", iter, exhaust, units: 0 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
