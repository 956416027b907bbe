//! P11: run-time parsing.
use ethnum::{I256, U256};
use mon::*;
use std::num::IntErrorKind::{self, *};
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Exp {
    Val(W),
    Kind(u8),
    AnyErr,
}
const EMPTY: u8 = 1;
const DIGIT: u8 = 2;
const POS: u8 = 3;
const NEG: u8 = 4;
fn kind(k: &IntErrorKind) -> u8 {
    match k {
        Empty => EMPTY,
        InvalidDigit => DIGIT,
        PosOverflow => POS,
        NegOverflow => NEG,
        _ => 9,
    }
}

/// The documented language, read off the documentation: [+|-] [prefix] digits.
fn spec(s: &str, radix: u32, prefix: &str, signed: bool) -> Exp {
    if s.is_empty() {
        return Exp::Kind(EMPTY);
    }
    let (neg, rest) = if let Some(t) = s.strip_prefix('+') {
        (false, t)
    } else if signed && s.starts_with('-') {
        (true, &s[1..])
    } else {
        (false, s)
    };
    let Some(digits) = rest.strip_prefix(prefix) else { return Exp::Kind(DIGIT) };
    if digits.is_empty() {
        return Exp::Kind(DIGIT);
    }
    let mut v = Nat::ZERO;
    let mut huge = false;
    let mut bad = false;
    for c in digits.chars() {
        let d = match c {
            '0'..='9' => c as u32 - '0' as u32,
            'a'..='z' => c as u32 - 'a' as u32 + 10,
            'A'..='Z' => c as u32 - 'A' as u32 + 10,
            _ => 99,
        };
        if d >= radix {
            bad = true;
            break;
        }
        if v.bits() > 500 {
            huge = true;
            v = Nat::pow2(400);
        } else {
            v = v.mul_small(radix).add(&Nat::u(d as u128));
        }
    }
    let x = Int::new(neg, v);
    let out = huge || if signed { !x.fits_i() } else { !x.fits_u() };
    if bad {
        // a malformed string whose valid head already overflows may be reported either way
        return if out { Exp::AnyErr } else { Exp::Kind(DIGIT) };
    }
    if out {
        return Exp::Kind(if neg { NEG } else { POS });
    }
    Exp::Val(x.wrap())
}
fn spec_prefixed(s: &str, signed: bool) -> Exp {
    for (r, p) in [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")] {
        if let Exp::Val(v) = spec(s, r, p, signed) {
            return Exp::Val(v);
        }
    }
    Exp::AnyErr
}

fn cmp(m: &mut Mon, op: &'static str, args: &[A], o: Result<Result<W, u8>, ()>, e: Exp) {
    match e {
        Exp::Val(v) => m.check(op, args, o, Ok(Ok(v))),
        Exp::Kind(k) => {
            m.class(match k {
                EMPTY => "kind Empty",
                DIGIT => "kind InvalidDigit",
                POS => "kind PosOverflow",
                _ => "kind NegOverflow",
            });
            m.check(op, args, o, Ok(Err(k)))
        }
        Exp::AnyErr => m.check(op, args, o.map(|r| r.map_err(|_| 0)), Ok(Err(0))),
    }
}

fn radix(m: &mut Mon, s: &str, rx: u32) {
    let a = [A::S(s), A::N(rx as i128)];
    let (eu, ei) = (spec(s, rx, "", false), spec(s, rx, "", true));
    m.class_if(matches!(eu, Exp::Val(_)), "accepted by U256");
    m.class_if(matches!(ei, Exp::Val(v) if v.0 >> 127 == 1), "accepted as negative I256");
    m.case(hash_bytes(s.as_bytes()) ^ rx as u64, s.len() > 4);
    let o = obs(|| U256::from_str_radix(s, rx).map(uw).map_err(|e| kind(e.kind())));
    cmp(m, "U256::from_str_radix", &a, o, eu);
    let o = obs(|| I256::from_str_radix(s, rx).map(iw).map_err(|e| kind(e.kind())));
    cmp(m, "I256::from_str_radix", &a, o, ei);
}
fn others(m: &mut Mon, s: &str) {
    let a = [A::S(s)];
    let o = obs(|| U256::from_str(s).map(uw).map_err(|e| kind(e.kind())));
    cmp(m, "U256::from_str", &a, o, spec(s, 10, "", false));
    let o = obs(|| I256::from_str(s).map(iw).map_err(|e| kind(e.kind())));
    cmp(m, "I256::from_str", &a, o, spec(s, 10, "", true));
    let o = obs(|| s.parse::<I256>().map(iw).map_err(|e| kind(e.kind())));
    cmp(m, "parse::<I256>", &a, o, spec(s, 10, "", true));
    let (eu, ei) = (spec(s, 16, "0x", false), spec(s, 16, "0x", true));
    m.class_if(matches!(eu, Exp::Val(_)), "accepted by from_str_hex");
    let o = obs(|| U256::from_str_hex(s).map(uw).map_err(|e| kind(e.kind())));
    cmp(m, "U256::from_str_hex", &a, o, eu);
    let o = obs(|| I256::from_str_hex(s).map(iw).map_err(|e| kind(e.kind())));
    cmp(m, "I256::from_str_hex", &a, o, ei);
    let (eu, ei) = (spec_prefixed(s, false), spec_prefixed(s, true));
    m.class_if(matches!(eu, Exp::Val(_)), "accepted by U256::from_str_prefixed");
    m.class_if(matches!(ei, Exp::Val(_)), "accepted by I256::from_str_prefixed");
    let o = obs(|| U256::from_str_prefixed(s).map(uw).map_err(|e| kind(e.kind())));
    cmp(m, "U256::from_str_prefixed", &a, o, eu);
    let o = obs(|| I256::from_str_prefixed(s).map(iw).map_err(|e| kind(e.kind())));
    cmp(m, "I256::from_str_prefixed", &a, o, ei);
}

const ODD: &[&str] = &["_", " ", "\t", "\n", "-", "+", ".", ",", "g", "G", "z", "Z", "/", ":", "@", "[", "`", "{", "\0", "\u{7f}", "\u{80}", "\u{ff}", "\u{0663}", "\u{ff11}", "x", "X", "0x", "0X", "0b", "0B", "0o", "0O", "e5", "'", "é", "𝟙"];

/// Digits of a value of interest in the radix.
fn digits(r: &mut Rng, rx: u32) -> String {
    let n = match r.below(8) {
        0 => Nat::u(r.below(40) as u128),
        1 => Nat::w(w256(r)),
        2 => Nat::w(UMAX).add(&Nat::u(r.below(3) as u128)),
        3 => Nat::w(IMAX).add(&Nat::u(r.below(4) as u128)),
        4 => Nat::w(UMAX).sub(&Nat::u(r.below(3) as u128)),
        5 => Nat::w(w256(r)).shl(r.below(70) as usize),
        6 => {
            // power of the radix +- 1, so that every digit is extreme
            let mut p = Nat::u(1);
            for _ in 0..r.below(70) {
                if p.bits() > 520 {
                    break;
                }
                p = p.mul_small(rx);
            }
            match r.below(3) {
                0 => p,
                1 => p.sub(&Nat::u(1)),
                _ => p.add(&Nat::u(1)),
            }
        }
        _ => Nat::u(w128(r)),
    };
    let mut s = n.to_radix(rx, false);
    if r.chance(1, 8) && s.len() < 50 {
        s.push_str(&s.clone());
    }
    match r.below(3) {
        0 => s = s.to_uppercase(),
        1 => s = s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
        _ => {}
    }
    s
}
fn gen(r: &mut Rng, rx: u32, prefixes: bool) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 | 1 => s.push('-'),
        2 => s.push('+'),
        _ => {}
    }
    if prefixes {
        s.push_str(match rx {
            2 => "0b",
            8 => "0o",
            16 => "0x",
            _ => "",
        });
    }
    if r.chance(1, 4) {
        let n = *r.pick(&[1usize, 2, 20, 63, 64, 65, 100, 300]);
        s.push_str(&"0".repeat(n));
    }
    s.push_str(&digits(r, rx));
    if r.chance(2, 5) {
        for _ in 0..1 + r.below(2) {
            let cuts: Vec<usize> = s.char_indices().map(|(k, _)| k).chain([s.len()]).collect();
            let at = *r.pick(&cuts);
            match r.below(5) {
                0 | 1 => s.insert_str(at, ODD[r.below(ODD.len() as u64) as usize]),
                2 => s.truncate(at),
                3 => {
                    s = s[at..].to_string();
                }
                _ => {
                    if at < s.len() {
                        let c = s.remove(at);
                        if r.bool() {
                            s.insert_str(at, ODD[r.below(ODD.len() as u64) as usize]);
                        } else if c.is_ascii() {
                            s.insert(at, (c as u8 ^ (1 << r.below(7))) as char);
                        }
                    }
                }
            }
        }
    }
    s
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let rx = if r.chance(1, 3) { *r.pick(&[2, 8, 10, 16, 36]) } else { 2 + r.below(35) as u32 };
    let s = gen(r, rx, false);
    radix(m, &s, rx);
    let other = 2 + r.below(35) as u32;
    radix(m, &s, other);
    let rx = *r.pick(&[2, 8, 10, 16]);
    let p = !r.chance(1, 5);
    let s = gen(r, rx, p);
    others(m, &s);
    radix(m, &s, rx);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k < 35 {
        let rx = k as u32 + 2;
        for base in [Nat::w(UMAX), Nat::w(IMAX), Nat::w(IMIN), Nat::u(u128::MAX), Nat::u(0)] {
            for d in 0..5u128 {
                let n = base.add(&Nat::u(d));
                let n = if n.cmp(&Nat::u(2)) == std::cmp::Ordering::Less { n } else { n.sub(&Nat::u(2)) };
                for up in [false, true] {
                    for sign in ["", "+", "-"] {
                        for z in 0..4 {
                            let s = format!("{sign}{}{}", "0".repeat(z * z * 9), n.to_radix(rx, up));
                            radix(m, &s, rx);
                        }
                    }
                }
            }
        }
        // repeated extreme digit and "1000..0" of every length up to 300
        for len in 1..300 {
            let d = std::char::from_digit(rx - 1, rx).unwrap().to_string().repeat(len);
            radix(m, &d, rx);
            let o = format!("-1{}", "0".repeat(len));
            radix(m, &o, rx);
            // invalid digit at a position
            let c = std::char::from_digit(rx, 36).unwrap_or('?');
            let mut b = "1".repeat(len);
            let at = r.below(len as u64 + 1) as usize;
            b.insert(at, c);
            radix(m, &b, rx);
        }
        return;
    }
    if k == 35 {
        for rx in [0u32, 1, 37, 38, 64, 100, 255, 256, 258, 266, 1 << 16, u32::MAX, 1 << 31] {
            for s in ["", "0", "1", "-1", "zz", "?"] {
                ck!(m, "U256::from_str_radix bad radix", [A::S(s), A::N(rx as i128)], U256::from_str_radix(s, rx).map_err(|_| ()), Err(()));
                ck!(m, "I256::from_str_radix bad radix", [A::S(s), A::N(rx as i128)], I256::from_str_radix(s, rx).map_err(|_| ()), Err(()));
            }
        }
        for s in ["", "+", "-", "0x", "+0x", "-0x", "0b", "0o", "-0b", "+0o", "0", "00", "0x0", "-0", "+0", "-0x0", "0X1", "0B1", "0O7", "x1", "0x-1", "0x+1", "--1", "++1", "+-1", "-+1", "0x0x1", "0b0x1", "0b2", "0o8", "0xg", " 1", "1 ", "1_0", "0x_1"] {
            others(m, s);
            for rx in 2..=36 {
                radix(m, s, rx);
            }
        }
        return;
    }
    // every string of length 1..3 over an alphabet of digits, signs, prefixes and strangers; unit = first symbol
    let al: Vec<char> = "01279abfgoxzABFGOXZ+-_ .:/@[`{\u{e9}\u{0663}".chars().collect();
    let c0 = al[(k - 36) as usize % al.len()];
    let try_all = |s: &str, m: &mut Mon| {
        others(m, s);
        for rx in [2, 3, 8, 10, 11, 16, 17, 35, 36] {
            radix(m, s, rx);
        }
    };
    try_all(&c0.to_string(), m);
    for &c1 in &al {
        try_all(&format!("{c0}{c1}"), m);
        for &c2 in &al {
            try_all(&format!("{c0}{c1}{c2}"), m);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P11", iter, exhaust, units: 36 + 32 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
