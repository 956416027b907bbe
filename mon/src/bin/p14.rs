//! P14: textual serde formats.
use ethnum::{I256, U256};
use mon::ser::{Ev, Rec, Typed, E};
use mon::spec::{parse, parse_prefixed};
use mon::*;
use serde::de::value::*;
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};

with_type!(DecU, U256, ethnum::serde::decimal);
with_type!(DecI, I256, ethnum::serde::decimal);
with_type!(PreU, U256, ethnum::serde::prefixed);
with_type!(PreI, I256, ethnum::serde::prefixed);
with_type!(PerU, U256, ethnum::serde::permissive);
with_type!(PerI, I256, ethnum::serde::permissive);

trait Get {
    fn get(&self) -> W;
    fn put(w: W) -> Self;
}
impl Get for U256 {
    fn get(&self) -> W {
        uw(*self)
    }
    fn put(w: W) -> Self {
        u(w)
    }
}
impl Get for I256 {
    fn get(&self) -> W {
        iw(*self)
    }
    fn put(w: W) -> Self {
        i(w)
    }
}
macro_rules! get {
    ($($t:ident $f:ident $g:ident),*) => {$(impl Get for $t {
        fn get(&self) -> W { $g(self.0) }
        fn put(w: W) -> Self { $t($f(w)) }
    })*};
}
get!(DecU u uw, DecI i iw, PreU u uw, PreI i iw, PerU u uw, PerI i iw);

#[derive(Clone, Copy, PartialEq)]
enum Lang {
    Hex,
    Dec,
    Pre,
    Per,
}
fn lang(l: Lang, s: &str, signed: bool) -> Option<W> {
    match l {
        Lang::Hex => parse(s, 16, "0x", signed),
        Lang::Dec => parse(s, 10, "", signed),
        Lang::Pre | Lang::Per => parse_prefixed(s, signed),
    }
}

/// Everything observable about one format and type.
macro_rules! formats {
    ($mac:ident) => {
        $mac!("U256", U256, Lang::Hex, false);
        $mac!("I256", I256, Lang::Hex, true);
        $mac!("decimal U256", DecU, Lang::Dec, false);
        $mac!("decimal I256", DecI, Lang::Dec, true);
        $mac!("prefixed U256", PreU, Lang::Pre, false);
        $mac!("prefixed I256", PreI, Lang::Pre, true);
        $mac!("permissive U256", PerU, Lang::Per, false);
        $mac!("permissive I256", PerI, Lang::Per, true);
    };
}

fn value(m: &mut Mon, a: W) {
    m.case(hash_w(&[a]), big(a));
    macro_rules! one {
        ($n:literal, $t:ident, $l:expr, $s:expr) => {{
            let v = if $s { Int::i(a) } else { Int::u(a) };
            let text = if $l == Lang::Dec { v.to_string() } else { format!("{}0x{}", if v.neg { "-" } else { "" }, v.mag.to_radix(16, false)) };
            let arg = [if $s { A::I(a) } else { A::U(a) }];
            m.class_if(v.neg, "negative value");
            for human in [true, false] {
                ck!(m, concat!($n, " serialize"), arg, $t::put(a).serialize(Rec { human }).map_err(|_| ()), Ok(Ok(Ev::Str(text.clone()))));
            }
            ck!(m, concat!($n, " to JSON"), arg, serde_json::to_string(&$t::put(a)).map_err(|_| ()), Ok(Ok(format!("\"{text}\""))));
            ck!(m, concat!($n, " JSON round trip"), arg, {
                let s = serde_json::to_string(&$t::put(a)).unwrap();
                serde_json::from_str::<$t>(&s).map(|x| x.get()).map_err(|_| ()).map(|w| w)
            }, Ok(Ok(a)));
            if $l != Lang::Per {
                for owned in [false, true] {
                    ck!(m, concat!($n, " round trip through a non-self-describing format"), arg, {
                        let ev = $t::put(a).serialize(Rec { human: false }).unwrap();
                        $t::deserialize(Typed { ev, owned }).map(|x| x.get()).map_err(|_| ())
                    }, Ok(Ok(a)));
                }
            }
            ck!(m, concat!($n, " JSON value round trip"), arg, {
                let s = serde_json::to_value(&$t::put(a)).unwrap();
                serde_json::from_value::<$t>(s).map(|x| x.get()).map_err(|_| ())
            }, Ok(Ok(a)));
        }};
    }
    macro_rules! ck {
        ($m:expr, $op:expr, $arg:ident, $e:expr, $x:expr) => {{
            let o = obs(|| $e);
            $m.check($op, &$arg, o, $x);
        }};
    }
    formats!(one);
}

fn text(m: &mut Mon, s: &str) {
    m.case(hash_bytes(s.as_bytes()), s.len() > 4);
    macro_rules! one {
        ($n:literal, $t:ident, $l:expr, $s:expr) => {{
            let e = lang($l, s, $s).ok_or(());
            m.class_if(e.is_ok(), "string accepted");
            m.class_if(e.is_err(), "string rejected");
            let arg = [A::S(s)];
            let g = |r: Result<$t, E>| r.map(|x| x.get()).map_err(|_| ());
            let o = obs(|| g($t::deserialize(IntoDeserializer::<E>::into_deserializer(s))));
            m.check(concat!($n, " from str"), &arg, o, Ok(e));
            let o = obs(|| g($t::deserialize(BorrowedStrDeserializer::<E>::new(s))));
            m.check(concat!($n, " from borrowed str"), &arg, o, Ok(e));
            let o = obs(|| g($t::deserialize(IntoDeserializer::<E>::into_deserializer(s.to_string()))));
            m.check(concat!($n, " from String"), &arg, o, Ok(e));
            if $l != Lang::Per {
                let o = obs(|| g($t::deserialize(BytesDeserializer::<E>::new(s.as_bytes()))));
                m.check(concat!($n, " from UTF-8 bytes"), &arg, o, Ok(e));
                let o = obs(|| g($t::deserialize(BorrowedBytesDeserializer::<E>::new(s.as_bytes()))));
                m.check(concat!($n, " from borrowed UTF-8 bytes"), &arg, o, Ok(e));
            } else {
                let o = obs(|| g($t::deserialize(BytesDeserializer::<E>::new(s.as_bytes()))));
                m.check_that(concat!($n, " from UTF-8 bytes"), &arg, o, "the value or an error", |r| *r == Ok(Err(())) || *r == Ok(e));
            }
            let j = serde_json::to_string(s).unwrap();
            let o = obs(|| serde_json::from_str::<$t>(&j).map(|x| x.get()).map_err(|_| ()));
            m.check(concat!($n, " from JSON string"), &arg, o, Ok(e));
            let mut cs = s.chars();
            if let (Some(c), None) = (cs.next(), cs.next()) {
                let o = obs(|| g($t::deserialize(IntoDeserializer::<E>::into_deserializer(c))));
                m.check(concat!($n, " from char"), &arg, o, Ok(e));
            }
        }};
    }
    formats!(one);
}

/// Invalid UTF-8 must be an error.
fn bad_utf8(m: &mut Mon, b: &[u8]) {
    if std::str::from_utf8(b).is_ok() {
        return;
    }
    m.class("invalid UTF-8");
    macro_rules! one {
        ($n:literal, $t:ident, $l:expr, $s:expr) => {{
            let o = obs(|| $t::deserialize(BytesDeserializer::<E>::new(b)).map(|x| x.get()).map_err(|_| ()));
            m.check(concat!($n, " from invalid UTF-8"), &[A::B(b)], o, Ok(Err(())));
        }};
    }
    formats!(one);
}

/// Numbers: only `permissive` takes them.
fn number(m: &mut Mon, x: u128) {
    macro_rules! width {
        ($($p:ident)*) => {$({
            let v = x as $p;
            let n = if $p::MIN != 0 { Int::n(v as i128) } else { Int::un(v as u128) };
            m.class_if(n.neg, "negative number");
            macro_rules! one {
                ($n:literal, $t:ident, $l:expr, $s:expr) => {{
                    let e = if $l == Lang::Per && ($s || !n.neg) { Ok(n.wrap()) } else { Err(()) };
                    let o = obs(|| $t::deserialize(IntoDeserializer::<E>::into_deserializer(v)).map(|x| x.get()).map_err(|_| ()));
                    m.check(concat!($n, " from ", stringify!($p)), &[A::N(v as i128)], o, Ok(e));
                }};
            }
            formats!(one);
        })*};
    }
    width!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize);
    for txt in [(x as u64).to_string(), (x as i64).to_string()] {
        let n: i128 = txt.parse().unwrap();
        macro_rules! one {
            ($n:literal, $t:ident, $l:expr, $s:expr) => {{
                let e = if $l == Lang::Per && ($s || n >= 0) { Ok(Int::n(n).wrap()) } else { Err(()) };
                let o = obs(|| serde_json::from_str::<$t>(&txt).map(|x| x.get()).map_err(|_| ()));
                m.check(concat!($n, " from JSON number"), &[A::S(&txt)], o, Ok(e));
            }};
        }
        formats!(one);
    }
}
fn float(m: &mut Mon, f: f64, single: bool) {
    // exactly at +-2^53 (or 2^24) the documentation and the error text disagree: value or error
    let lim = if single { (1u64 << 24) as f64 } else { (1u64 << 53) as f64 };
    let int = f.is_finite() && f.trunc() == f && f.abs() <= lim;
    m.class_if(int, "integral float in range");
    m.class_if(f.is_finite() && !int && f.abs() < lim, "fractional float");
    m.class_if(!f.is_finite(), "non-finite float");
    m.class_if(f.is_finite() && f.abs() > lim, "float beyond the exact range");
    let n = if int { Some(Int::n(f as i128)) } else { None };
    macro_rules! one {
        ($n:literal, $t:ident, $l:expr, $s:expr) => {{
            let e = match n {
                Some(n) if $l == Lang::Per && ($s || !n.neg) => Ok(n.wrap()),
                _ => Err(()),
            };
            let arg = [A::X(f.to_bits() as u128)];
            let o = if single {
                obs(|| $t::deserialize(IntoDeserializer::<E>::into_deserializer(f as f32)).map(|x| x.get()).map_err(|_| ()))
            } else {
                obs(|| $t::deserialize(IntoDeserializer::<E>::into_deserializer(f)).map(|x| x.get()).map_err(|_| ()))
            };
            let op = if single { concat!($n, " from f32") } else { concat!($n, " from f64") };
            if f.abs() == lim {
                m.check_that(op, &arg, o, "the value or an error", |r| *r == Ok(Err(())) || *r == Ok(e));
            } else {
                m.check(op, &arg, o, Ok(e));
            }
        }};
    }
    formats!(one);
}
/// Anything else is an error.
fn others(m: &mut Mon) {
    macro_rules! one {
        ($n:literal, $t:ident, $l:expr, $s:expr) => {{
            for j in ["null", "true", "[]", "[1]", "{}", "{\"a\":1}", "1.5", "1e400", "-1e400", "1e300", "", "\"", "nan", "\"0x1\" 2", "1e17", "0.1", "1e-5"] {
                let o = obs(|| serde_json::from_str::<$t>(j).map(|x| x.get()).map_err(|_| ()));
                m.check(concat!($n, " from other JSON"), &[A::S(j)], o, Ok(Err(())));
            }
            let g = |r: Result<$t, E>| r.map(|x| x.get()).map_err(|_| ());
            let o = obs(|| g($t::deserialize(IntoDeserializer::<E>::into_deserializer(true))));
            m.check(concat!($n, " from bool"), &[], o, Ok(Err(())));
            let o = obs(|| g($t::deserialize(IntoDeserializer::<E>::into_deserializer(()))));
            m.check(concat!($n, " from unit"), &[], o, Ok(Err(())));
            let o = obs(|| g($t::deserialize(SeqDeserializer::<_, E>::new(vec![1u8; 32].into_iter()))));
            m.check(concat!($n, " from seq"), &[], o, Ok(Err(())));
        }};
    }
    formats!(one);
}

const ODD: &[&str] = &["_", " ", "-", "+", ".", "g", "G", "\0", "é", "\u{663}", "x", "0x", "0X", "0b", "0o", "e5", "\n", "\"", "\\"];
fn gen(r: &mut Rng) -> String {
    let (rx, p) = *r.pick(&[(2, "0b"), (8, "0o"), (16, "0x"), (16, "0x"), (16, "0x"), (10, ""), (10, ""), (10, ""), (16, "")]);
    let n = match r.below(6) {
        0 => Nat::u(r.below(300) as u128),
        1 => Nat::w(UMAX).sub(&Nat::u(r.below(3) as u128)),
        2 => Nat::w(UMAX).add(&Nat::u(1 + r.below(3) as u128)),
        3 => Nat::w(IMAX).add(&Nat::u(r.below(4) as u128)),
        4 => Nat::w(w256(r)).shl(r.below(9) as usize),
        _ => Nat::w(w256(r)),
    };
    let sign = *r.pick(&["", "", "+", "-", "-"]);
    let zeros = if r.chance(1, 5) { r.below(80) as usize } else { 0 };
    let up = r.chance(1, 4);
    let mut s = format!("{sign}{p}{}{}", "0".repeat(zeros), n.to_radix(rx, up));
    if r.chance(1, 3) {
        let cuts: Vec<usize> = s.char_indices().map(|(k, _)| k).chain([s.len()]).collect();
        let at = *r.pick(&cuts);
        match r.below(4) {
            0 => s.truncate(at),
            1 => s = s[at..].to_string(),
            _ => s.insert_str(at, *r.pick(ODD)),
        }
    }
    s
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let a = w256(r);
    value(m, a);
    let s = gen(r);
    text(m, &s);
    if r.chance(1, 2) {
        let x = w128(r);
        number(m, x);
        let f = match r.below(5) {
            0 => f64::from_bits(r.next()),
            1 => (r.next() as i64 >> r.below(64)) as f64,
            2 => ((r.next() as i64 >> r.below(64)) as f64) / 2f64.powi(r.below(20) as i32),
            3 => {
                let l = *r.pick(&[(1u64 << 53) as f64, (1u64 << 24) as f64, 0.0, 1.0, f64::MAX, f64::INFINITY, f64::NAN, 1e77, 2f64.powi(63), 2f64.powi(64), 2f64.powi(127), 2f64.powi(255)]);
                let l = f64::from_bits(l.to_bits().wrapping_add(r.below(5)).wrapping_sub(2));
                if r.bool() {
                    -l
                } else {
                    l
                }
            }
            _ => r.below(1 << 54) as f64 * if r.bool() { -0.5 } else { 0.5 },
        };
        float(m, f, false);
        float(m, f as f32 as f64, true);
    }
    if r.chance(1, 8) {
        let mut b = s.into_bytes();
        let at = r.below(b.len() as u64 + 1) as usize;
        b.insert(at, 0x80 | r.next() as u8);
        bad_utf8(m, &b);
    }
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k == 256 {
        others(m);
        for s in ["", "+", "-", "0x", "-0x", "+0x", "0", "-0", "+0", "0x0", "-0x0", "0X0", "0b", "0o", "00", "0x00", " 0x1", "0x1 ", "0x_1", "0b2", "0o9", "0xg", "x", "1", "9", "a"] {
            text(m, s);
        }
        return;
    }
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -1..=1 {
        let x = p.add(&Int::n(d));
        value(m, x.wrap());
        value(m, x.neg().wrap());
        if k < 128 {
            number(m, x.wrap().1);
            number(m, x.neg().wrap().1);
        }
    }
    for d in [-1.0, -0.5, 0.0, 0.5, 1.0] {
        let f = 2f64.powi(k as i32 % 80) + d;
        for f in [f, -f] {
            float(m, f, false);
            float(m, f as f32 as f64, true);
        }
    }
    let s = gen(r);
    text(m, &s);
}

pub const PLAN: Plan = Plan { prop: "P14", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
