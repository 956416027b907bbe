//! The documented string languages.
use crate::model::*;

/// [+|-] prefix digits, as a value if in range.
pub fn parse(s: &str, radix: u32, prefix: &str, signed: bool) -> Option<W> {
    let (neg, rest) = if let Some(t) = s.strip_prefix('+') {
        (false, t)
    } else if signed && s.starts_with('-') {
        (true, &s[1..])
    } else {
        (false, s)
    };
    let digits = rest.strip_prefix(prefix)?;
    if digits.is_empty() {
        return None;
    }
    let mut v = Nat::ZERO;
    for c in digits.chars() {
        let d = if c.is_ascii() { c.to_digit(radix)? } else { return None };
        if v.bits() <= 500 {
            v = v.mul_small(radix).add(&Nat::u(d as u128));
        }
    }
    let x = Int::new(neg, v);
    if if signed { x.fits_i() } else { x.fits_u() } {
        Some(x.wrap())
    } else {
        None
    }
}
pub fn parse_prefixed(s: &str, signed: bool) -> Option<W> {
    [(2, "0b"), (8, "0o"), (16, "0x"), (10, "")].iter().find_map(|(r, p)| parse(s, *r, p, signed))
}
