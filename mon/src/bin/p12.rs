//! P12 (run-time half): the parser behind int!/uint!.
use ethnum::{I256, U256};
use mon::*;

/// None: unspecified (no digit at all). Some(None): must fail. Some(Some(w)): must yield w.
fn spec(s: &str, signed: bool) -> Option<Option<W>> {
    let (neg, rest) = match s.as_bytes().first() {
        None => return Some(None),
        Some(b'+') => (false, &s[1..]),
        Some(b'-') if signed => (true, &s[1..]),
        _ => (false, s),
    };
    let (rx, body) = match rest.get(..2) {
        Some("0b") => (2, &rest[2..]),
        Some("0o") => (8, &rest[2..]),
        Some("0x") => (16, &rest[2..]),
        _ => (10, rest),
    };
    let mut v = Nat::ZERO;
    let mut n = 0;
    for c in body.chars() {
        if c == '_' || matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') {
            continue;
        }
        let Some(d) = (if c.is_ascii() { c.to_digit(rx) } else { None }) else { return Some(None) };
        n += 1;
        if v.bits() < 500 {
            v = v.mul_small(rx).add(&Nat::u(d as u128));
        }
    }
    if n == 0 {
        return if body.is_empty() { Some(None) } else { None };
    }
    let x = Int::new(neg, v);
    Some(if if signed { x.fits_i() } else { x.fits_u() } { Some(x.wrap()) } else { None })
}

fn one(m: &mut Mon, s: &str) {
    let a = [A::S(s)];
    let (eu, ei) = (spec(s, false), spec(s, true));
    m.case(hash_bytes(s.as_bytes()), s.len() > 4);
    m.class_if(matches!(eu, Some(Some(_))), "accepted by uint!");
    m.class_if(matches!(ei, Some(Some(v)) if v.0 >> 127 == 1), "accepted as negative by int!");
    m.class_if(eu == Some(None), "rejected by uint!");
    m.class_if(ei == Some(None), "rejected by int!");
    m.class_if(matches!(eu, Some(Some(v)) if v.0 >> 127 == 1), "uint! with top bit");
    m.class_if(matches!(eu, Some(Some(_))) && s.contains('_'), "accepted with underscore");
    m.class_if(matches!(eu, Some(Some(_))) && s.contains(char::is_whitespace), "accepted with whitespace");
    let o = obs(|| U256::const_from_str_prefixed(s));
    match eu {
        None => m.class("no digits (unspecified)"),
        Some(e) => m.check("U256::const_from_str_prefixed", &a, o, e.ok_or(())),
    }
    let o = obs(|| I256::const_from_str_prefixed(s));
    match ei {
        None => m.class("no digits (unspecified)"),
        Some(e) => m.check("I256::const_from_str_prefixed", &a, o, e.ok_or(())),
    }
}

const ODD: &[&str] = &["-", "+", ".", "g", "G", "z", "/", ":", "@", "[", "`", "{", "\0", "\u{b}", "\u{7f}", "\u{a0}", "\u{663}", "x", "X", "0x", "0b", "0o", "b", "o", "e5", "é", "2", "8", "a", "F"];
const SEP: &[&str] = &["_", " ", "\t", "\n", "\r\n", "\x0c", "__", " _ ", "\n            "];

fn gen(r: &mut Rng) -> String {
    let (rx, p) = *r.pick(&[(2, "0b"), (8, "0o"), (16, "0x"), (10, ""), (10, ""), (16, "0x")]);
    let n = match r.below(8) {
        0 => Nat::u(r.below(300) as u128),
        1 | 2 => Nat::w(w256(r)),
        3 => Nat::w(UMAX).sub(&Nat::u(r.below(3) as u128)),
        4 => Nat::w(UMAX).add(&Nat::u(1 + r.below(3) as u128)),
        5 => Nat::w(IMAX).add(&Nat::u(r.below(4) as u128)),
        6 => {
            // values whose 64-bit limbs are extreme, so that carries cross limbs while parsing
            let mut v = Nat::ZERO;
            for _ in 0..4 {
                v = v.shl(64).add(&Nat::u(w64(r) as u128));
            }
            let k = r.below(3) as u128;
            if v.bits() > 20 { v.sub(&Nat::u(k)) } else { v }
        }
        _ => Nat::w(w256(r)).shl(r.below(20) as usize),
    };
    let mut d: String = n.to_radix(rx, r.bool());
    if r.chance(1, 5) {
        d = format!("{}{d}", "0".repeat(*r.pick(&[1usize, 3, 64, 200])));
    }
    if r.chance(1, 2) {
        let mut o = String::new();
        if r.chance(1, 4) {
            o.push_str(*r.pick(SEP));
        }
        let k = 1 + r.below(8);
        for c in d.chars() {
            o.push(c);
            if r.below(k) == 0 {
                o.push_str(*r.pick(SEP));
            }
        }
        d = o;
    }
    let sign = *r.pick(&["", "", "+", "-"]);
    let mut s = format!("{sign}{p}{d}");
    if r.chance(1, 4) {
        let cuts: Vec<usize> = s.char_indices().map(|(k, _)| k).chain([s.len()]).collect();
        let at = *r.pick(&cuts);
        match r.below(4) {
            0 => s.truncate(at),
            1 => s = s[at..].to_string(),
            2 => s.insert_str(at, *r.pick(SEP)),
            _ => s.insert_str(at, *r.pick(ODD)),
        }
    }
    s
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let s = gen(r);
    one(m, &s);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k < 256 {
        // around every power of two in every radix
        let p = Nat::pow2(k as usize + 1);
        for d in 0..4u128 {
            let n = if k == 0 { Nat::u(d) } else { p.add(&Nat::u(d)).sub(&Nat::u(2)) };
            for (rx, pre) in [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")] {
                for sg in ["", "-", "+"] {
                    let s = format!("{sg}{pre}{}", n.to_radix(rx, r.bool()));
                    one(m, &s);
                }
            }
        }
        return;
    }
    let al: Vec<char> = "0127389abfgoxABFGOX+-_ \n\t\u{b}./:@[`{é".chars().collect();
    let c0 = al[(k - 256) as usize % al.len()];
    let mut b = vec![String::from(c0)];
    for _ in 0..2 {
        let mut n = vec![];
        for s in &b {
            one(m, s);
            for c in &al {
                n.push(format!("{s}{c}"));
            }
        }
        b = n;
    }
    for s in &b {
        one(m, s);
        let t = format!("0x{s}");
        one(m, &t);
    }
    one(m, "");
}

pub const PLAN: Plan = Plan { prop: "P12", iter, exhaust, units: 256 + 34 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
