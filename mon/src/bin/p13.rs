//! P13: formatting under every format specification.
use ethnum::{I256, U256};
use mon::*;
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerExp, LowerHex, Octal, UpperExp, UpperHex, Write};

/// What a primitive integer would print: sign, prefix and minimal digits handed to std's padding rules.
struct Ref {
    nonneg: bool,
    prefix: &'static str,
    digits: String,
}
macro_rules! ref_fmt {
    ($($t:ident)*) => {$(impl $t for Ref {
        fn fmt(&self, f: &mut Formatter) -> fmt::Result {
            f.pad_integral(self.nonneg, self.prefix, &self.digits)
        }
    })*};
}
ref_fmt!(Display LowerHex UpperHex Octal Binary);

/// `f!(kind, "flags")`: apply one format spec to `x`.
macro_rules! one_fmt {
    ($out:expr, $x:expr, $w:expr, $p:expr, $ty:literal, $fl:literal) => {
        match $p {
            Some(p) => write!($out, concat!("{:", $fl, "w$.p$", $ty, "}"), $x, w = $w, p = p),
            None => write!($out, concat!("{:", $fl, "w$", $ty, "}"), $x, w = $w),
        }
    };
}
include!("../p13_flags.rs");
table!(f_display, Display, "");
table!(f_debug, Debug, "?");
table!(f_lx, LowerHex, "x");
table!(f_ux, UpperHex, "X");
table!(f_o, Octal, "o");
table!(f_b, Binary, "b");
table!(f_dlx, Debug, "x?");
table!(f_dux, Debug, "X?");
table!(f_le, LowerExp, "e");
table!(f_ue, UpperExp, "E");

/// A writer that fails after `left` bytes.
struct Short {
    left: usize,
    got: String,
}
impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

const KINDS: [&str; 10] = ["Display", "Debug", "{:x}", "{:X}", "{:o}", "{:b}", "{:x?}", "{:X?}", "{:e}", "{:E}"];
const UOPS: [&str; 10] = ["U256 Display", "U256 Debug", "U256 {:x}", "U256 {:X}", "U256 {:o}", "U256 {:b}", "U256 {:x?}", "U256 {:X?}", "U256 {:e}", "U256 {:E}"];
const IOPS: [&str; 10] = ["I256 Display", "I256 Debug", "I256 {:x}", "I256 {:X}", "I256 {:o}", "I256 {:b}", "I256 {:x?}", "I256 {:X?}", "I256 {:e}", "I256 {:E}"];

trait All: Display + Debug + LowerHex + UpperHex + Octal + Binary + LowerExp + UpperExp {}
impl All for U256 {}
impl All for I256 {}

fn run<T: All>(out: &mut dyn Write, kind: usize, k: usize, x: &T, w: usize, p: Option<usize>) -> fmt::Result {
    match kind {
        0 => f_display(out, k, x, w, p),
        1 => f_debug(out, k, x, w, p),
        2 => f_lx(out, k, x, w, p),
        3 => f_ux(out, k, x, w, p),
        4 => f_o(out, k, x, w, p),
        5 => f_b(out, k, x, w, p),
        6 => f_dlx(out, k, x, w, p),
        7 => f_dux(out, k, x, w, p),
        8 => f_le(out, k, x, w, p),
        _ => f_ue(out, k, x, w, p),
    }
}

/// Expected text, or None where nothing is specified.
fn expect(a: W, signed: bool, kind: usize, k: usize, w: usize, p: Option<usize>) -> Option<String> {
    let fl = FLAGS[k];
    let v = if signed { Int::i(a) } else { Int::u(a) };
    let mut s = String::new();
    let (radix, prefix, upper) = match kind {
        2 | 6 => (16, "0x", false),
        3 | 7 => (16, "0x", true),
        4 => (8, "0o", false),
        5 => (2, "0b", false),
        8 | 9 => {
            let f = f64::from_bits(to_f64_bits(&v));
            if kind == 8 {
                f_le(&mut s, k, &f, w, p).unwrap()
            } else {
                f_ue(&mut s, k, &f, w, p).unwrap()
            }
            return Some(s);
        }
        _ => {
            let r = Ref { nonneg: !v.neg, prefix: "", digits: v.mag.to_radix(10, false) };
            f_display(&mut s, k, &r, w, p).unwrap();
            return Some(s);
        }
    };
    let minus = fl.contains('-') && v.neg;
    if minus && kind >= 6 {
        return None;
    }
    let r = if minus {
        Ref { nonneg: false, prefix, digits: v.mag.to_radix(radix, upper) }
    } else {
        Ref { nonneg: true, prefix, digits: Nat::w(a).to_radix(radix, upper) }
    };
    f_lx(&mut s, k, &r, w, p).unwrap();
    Some(s)
}

fn spec<T: All>(m: &mut Mon, x: T, a: W, signed: bool, kind: usize, k: usize, w: usize, p: Option<usize>) {
    let op = if signed { IOPS[kind] } else { UOPS[kind] };
    let Some(e) = expect(a, signed, kind, k, w, p) else { return };
    m.case(hash_w(&[a, (kind as u128, k as u128), (w as u128, p.map_or(999, |p| p as u128))]), a.0 != 0);
    m.class_if(FLAGS[k].contains('-') && signed && a.0 >> 127 == 1 && kind >= 2 && kind < 6, "minus flag on a negative radix format");
    m.class_if(FLAGS[k].contains('0') && w > e.len().saturating_sub(3), "zero padding in effect");
    m.class_if(e.len() == 256, "256 characters");
    let sp = format!("{{:{}{w}{}}} of {}", FLAGS[k], p.map_or(String::new(), |p| format!(".{p}")), KINDS[kind]);
    let arg = [if signed { A::I(a) } else { A::U(a) }, A::S(&sp)];
    let o = obs(|| {
        let mut s = String::new();
        run(&mut s, kind, k, &x, w, p).map(|_| s).map_err(|_| ())
    });
    m.check(op, &arg, o, Ok(Ok(e.clone())));
    // a writer that runs out of room must see an error, never a panic or different text
    if (a.1 ^ w as u128) % 7 == 0 && !e.is_empty() {
        let left = (a.1 as usize ^ k) % e.len();
        let o = obs(|| {
            let mut s = Short { left, got: String::new() };
            let r = run(&mut s, kind, k, &x, w, p).map_err(|_| ());
            (r, s.got)
        });
        m.check_that("formatting into a failing writer", &arg, o, "Err and a prefix of the text", |r| matches!(r, Ok((Err(()), g)) if e.starts_with(g.as_str())));
        m.class("failing writer");
    }
}

fn one(m: &mut Mon, r: &mut Rng, a: W) {
    let kind = r.below(10) as usize;
    let k = r.below(FLAGS.len() as u64) as usize;
    let w = match r.below(5) {
        0 => 0,
        1 => r.below(20) as usize,
        2 => 60 + r.below(25) as usize,
        3 => 250 + r.below(20) as usize,
        _ => r.below(90) as usize,
    };
    let p = if r.chance(1, 3) { Some(r.below(30) as usize) } else { None };
    spec(m, u(a), a, false, kind, k, w, p);
    spec(m, i(a), a, true, kind, k, w, p);
}

fn plain(m: &mut Mon, a: W) {
    for kind in 0..10 {
        for k in [0, FLAGS.iter().position(|f| *f == "#").unwrap(), FLAGS.iter().position(|f| *f == "-#").unwrap()] {
            spec(m, u(a), a, false, kind, k, 0, None);
            spec(m, i(a), a, true, kind, k, 0, None);
        }
    }
    ck!(m, "U256 to_string", [A::U(a)], u(a).to_string(), Ok(Int::u(a).to_string()));
    ck!(m, "I256 to_string", [A::I(a)], i(a).to_string(), Ok(Int::i(a).to_string()));
    ck!(m, "U256 parse(to_string)", [A::U(a)], u(a).to_string().parse::<U256>().map_err(|_| ()), Ok(Ok(a)));
    ck!(m, "I256 parse(to_string)", [A::I(a)], i(a).to_string().parse::<I256>().map_err(|_| ()), Ok(Ok(a)));
}

/// A value with interesting decimal digits.
fn decimal(r: &mut Rng) -> W {
    let n = 1 + r.below(78);
    let style = r.below(5);
    let mut v = Nat::ZERO;
    for j in 0..n {
        let d = match style {
            0 => 9,
            1 => (j == 0) as u32,
            2 => if r.chance(1, 5) { r.below(10) as u32 } else { 0 },
            3 => if r.chance(1, 5) { r.below(10) as u32 } else { 9 },
            _ => r.below(10) as u32,
        };
        v = v.mul_small(10).add(&Nat::u(d as u128));
    }
    let w = v.low();
    if r.bool() {
        wneg(w)
    } else {
        w
    }
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let a = if r.bool() { decimal(r) } else { w256(r) };
    one(m, r, a);
    one(m, r, a);
    if r.chance(1, 4) {
        plain(m, a);
    }
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k < 257 {
        let p = Int::new(false, Nat::pow2(k as usize));
        for d in -1..=1 {
            plain(m, p.add(&Int::n(d)).wrap());
            plain(m, p.add(&Int::n(d)).neg().wrap());
        }
        if k < 78 {
            let mut p = Nat::u(1);
            for _ in 0..k {
                p = p.mul_small(10);
            }
            for w in [p.low(), p.add(&Nat::u(1)).low(), p.sub(&Nat::u(1)).low(), wneg(p.low()), p.mul_small(9).low()] {
                plain(m, w);
            }
        }
        return;
    }
    // every flag set of every kind, at lengths around the text's own
    let f = (k - 257) as usize;
    for kind in 0..10 {
        for a in [ZERO, ONE, M1, IMIN, IMAX, (0, 0xabcdef), w256(r)] {
            for signed in [false, true] {
                let len = expect(a, signed, kind, 0, 0, None).unwrap().len();
                for w in [0, 1, len - 1, len, len + 1, len + 2, len + 3, len + 7] {
                    for p in [None, Some(0), Some(3)] {
                        if signed {
                            spec(m, i(a), a, true, kind, f, w, p);
                        } else {
                            spec(m, u(a), a, false, kind, f, w, p);
                        }
                    }
                }
            }
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P13", iter, exhaust, units: 257 + FLAGS.len() as u64 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
