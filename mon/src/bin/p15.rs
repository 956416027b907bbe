//! P15: binary serde formats.
use ethnum::{I256, U256};
use mon::ser::{Ev, Loose, Rec, Typed, E};
use mon::*;
use serde::de::value::*;
use serde::{Deserialize, Serialize};

with_type!(BLeU, U256, ethnum::serde::bytes::le);
with_type!(BLeI, I256, ethnum::serde::bytes::le);
with_type!(BBeU, U256, ethnum::serde::bytes::be);
with_type!(BBeI, I256, ethnum::serde::bytes::be);
with_type!(BNeU, U256, ethnum::serde::bytes::ne);
with_type!(BNeI, I256, ethnum::serde::bytes::ne);
with_type!(CLeU, U256, ethnum::serde::compressed_bytes::le);
with_type!(CLeI, I256, ethnum::serde::compressed_bytes::le);
with_type!(CBeU, U256, ethnum::serde::compressed_bytes::be);
with_type!(CBeI, I256, ethnum::serde::compressed_bytes::be);
with_type!(CNeU, U256, ethnum::serde::compressed_bytes::ne);
with_type!(CNeI, I256, ethnum::serde::compressed_bytes::ne);

const LE: bool = cfg!(target_endian = "little");
macro_rules! formats {
    ($mac:ident) => {
        $mac!("bytes::le U256", BLeU, u, uw, false, false, true);
        $mac!("bytes::le I256", BLeI, i, iw, true, false, true);
        $mac!("bytes::be U256", BBeU, u, uw, false, false, false);
        $mac!("bytes::be I256", BBeI, i, iw, true, false, false);
        $mac!("bytes::ne U256", BNeU, u, uw, false, false, LE);
        $mac!("bytes::ne I256", BNeI, i, iw, true, false, LE);
        $mac!("compressed_bytes::le U256", CLeU, u, uw, false, true, true);
        $mac!("compressed_bytes::le I256", CLeI, i, iw, true, true, true);
        $mac!("compressed_bytes::be U256", CBeU, u, uw, false, true, false);
        $mac!("compressed_bytes::be I256", CBeI, i, iw, true, true, false);
        $mac!("compressed_bytes::ne U256", CNeU, u, uw, false, true, LE);
        $mac!("compressed_bytes::ne I256", CNeI, i, iw, true, true, LE);
    };
}

/// Fewest little-endian bytes that extend back to the value.
fn minimal(a: W, signed: bool) -> Vec<u8> {
    let b = wle(a);
    for n in 0..=32 {
        let v = extend(&b[..n], signed);
        if v == a {
            return b[..n].to_vec();
        }
    }
    unreachable!()
}
fn extend(le: &[u8], signed: bool) -> W {
    let fill = if signed && le.last().map_or(false, |b| b >> 7 == 1) { 0xff } else { 0 };
    let mut b = [fill; 32];
    b[..le.len()].copy_from_slice(le);
    from_le(&b)
}

fn value(m: &mut Mon, a: W) {
    m.case(hash_w(&[a]), big(a));
    macro_rules! one {
        ($n:literal, $t:ident, $f:ident, $g:ident, $s:expr, $c:expr, $le:expr) => {{
            let mut e = if $c { minimal(a, $s) } else { wle(a).to_vec() };
            if $c {
                m.class_if(e.is_empty(), "compressed to nothing");
                m.class_if(e.len() == 32, "compressed to 32 bytes");
                m.class_if($s && a.0 >> 127 == 0 && e.last() == Some(&0), "positive I256 needing a zero byte");
                m.class_if($s && a.0 >> 127 == 1 && e.len() < 32, "negative I256 compressed");
            }
            if !$le {
                e.reverse();
            }
            let arg = [if $s { A::I(a) } else { A::U(a) }];
            for human in [true, false] {
                let o = obs(|| $t($f(a)).serialize(Rec { human }).map_err(|_| ()));
                m.check(concat!($n, " serialize"), &arg, o, Ok(Ok(Ev::Bytes(e.clone()))));
            }
            let o = obs(|| match $t($f(a)).serialize(Rec { human: false }) {
                Ok(Ev::Bytes(b)) => $t::deserialize(BytesDeserializer::<E>::new(&b)).map(|x| $g(x.0)).map_err(|_| ()),
                _ => Err(()),
            });
            m.check(concat!($n, " round trip"), &arg, o, Ok(Ok(a)));
            for owned in [false, true] {
                let o = obs(|| match $t($f(a)).serialize(Rec { human: false }) {
                    Ok(ev) => $t::deserialize(Typed { ev, owned }).map(|x| $g(x.0)).map_err(|_| ()),
                    _ => Err(()),
                });
                m.check(concat!($n, " round trip through a non-self-describing format"), &arg, o, Ok(Ok(a)));
            }
            let o = obs(|| {
                let s = serde_json::to_string(&$t($f(a))).unwrap();
                serde_json::from_str::<$t>(&s).map(|x| $g(x.0)).map_err(|_| ())
            });
            m.check(concat!($n, " JSON round trip"), &arg, o, Ok(Ok(a)));
        }};
    }
    formats!(one);
}

fn input(m: &mut Mon, b: &[u8]) {
    m.case(hash_bytes(b), b.len() > 1);
    m.class(match b.len() {
        0 => "empty input",
        1..=31 => "short input",
        32 => "32 bytes",
        _ => "long input",
    });
    macro_rules! one {
        ($n:literal, $t:ident, $f:ident, $g:ident, $s:expr, $c:expr, $le:expr) => {{
            let mut v = b.to_vec();
            if !$le {
                v.reverse();
            }
            let e = if b.len() > 32 || (!$c && b.len() != 32) { Err(()) } else { Ok(extend(&v, $s)) };
            let arg = [A::B(b)];
            let g = |r: Result<$t, E>| r.map(|x| $g(x.0)).map_err(|_| ());
            let o = obs(|| g($t::deserialize(BytesDeserializer::<E>::new(b))));
            m.check(concat!($n, " from bytes"), &arg, o, Ok(e));
            let o = obs(|| g($t::deserialize(BorrowedBytesDeserializer::<E>::new(b))));
            m.check(concat!($n, " from borrowed bytes"), &arg, o, Ok(e));
            // a sequence with an exact size hint, and one without any
            let o = obs(|| g($t::deserialize(SeqDeserializer::<_, E>::new(b.to_vec().into_iter()))));
            m.check(concat!($n, " from sized seq"), &arg, o, Ok(e));
            let o = obs(|| g($t::deserialize(SeqDeserializer::<_, E>::new(b.to_vec().into_iter().filter(|_| true)))));
            m.check(concat!($n, " from unsized seq"), &arg, o, Ok(e));
            let j = serde_json::to_string(b).unwrap();
            let o = obs(|| serde_json::from_str::<$t>(&j).map(|x| $g(x.0)).map_err(|_| ()));
            m.check(concat!($n, " from JSON array"), &arg, o, Ok(e));
            // a format that leaves all length checks to the visitor
            for hint in [None, Some(b.len())] {
                let o = obs(|| g($t::deserialize(Loose { data: b, hint, fail_at: None })));
                m.check(concat!($n, " from unchecked seq"), &arg, o, Ok(e));
            }
            // a wrong size hint must not lead to a wrong value
            let hint = Some((b.len() * 7 + b.first().map_or(5, |x| *x as usize)) % 41);
            let o = obs(|| g($t::deserialize(Loose { data: b, hint, fail_at: None })));
            m.check_that(concat!($n, " from seq with an inexact hint"), &arg, o, "the value or an error", |r| *r == Ok(Err(())) || *r == Ok(e));
            if !b.is_empty() {
                let at = (b[b.len() / 2] as usize) % b.len().min(32);
                let o = obs(|| g($t::deserialize(Loose { data: b, hint: if at % 2 == 0 { None } else { Some(b.len()) }, fail_at: Some(at) })));
                m.check(concat!($n, " from seq failing part-way"), &arg, o, Ok(Err(())));
            }
            // an element that is not a byte
            if !b.is_empty() && b.len() <= 32 {
                let mut w: Vec<u64> = b.iter().map(|x| *x as u64).collect();
                let at = b[0] as usize % w.len();
                w[at] += 256;
                let o = obs(|| g($t::deserialize(SeqDeserializer::<_, E>::new(w.clone().into_iter()))));
                m.check(concat!($n, " from seq with a non-byte"), &arg, o, Ok(Err(())));
            }
        }};
    }
    formats!(one);
}

fn others(m: &mut Mon) {
    macro_rules! one {
        ($n:literal, $t:ident, $f:ident, $g:ident, $s:expr, $c:expr, $le:expr) => {{
            for j in ["null", "true", "1", "-1", "{}", "1.5", "[1.5]", "[-1]", "[256]", "[null]", "[\"a\"]", "[[1]]", ""] {
                let o = obs(|| serde_json::from_str::<$t>(j).map(|x| $g(x.0)).map_err(|_| ()));
                m.check(concat!($n, " from other JSON"), &[A::S(j)], o, Ok(Err(())));
            }
        }};
    }
    formats!(one);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let a = w256(r);
    value(m, a);
    let len = match r.below(6) {
        0 => 32,
        1 => 31,
        2 => 33,
        3 => 33 + r.below(40),
        _ => r.below(33),
    } as usize;
    let style = r.below(4);
    let mut b: Vec<u8> = (0..len).map(|_| match style { 0 => 0xff, 1 => 0, _ => r.next() as u8 }).collect();
    if !b.is_empty() && r.bool() {
        let v = *r.pick(&[0x7f, 0x80, 0, 0xff, 1, 0x81]);
        let at = if r.bool() { 0 } else { b.len() - 1 };
        b[at] = v;
    }
    input(m, &b);
}

fn exhaust(m: &mut Mon, k: u64, r: &mut Rng) {
    if k == 256 {
        others(m);
        input(m, &[]);
        return;
    }
    let p = Int::new(false, Nat::pow2(k as usize));
    for d in -1..=1 {
        value(m, p.add(&Int::n(d)).wrap());
        value(m, p.add(&Int::n(d)).neg().wrap());
    }
    // every one-byte input, and every length with this byte at either end
    input(m, &[k as u8]);
    let len = 1 + (k as usize % 36);
    let mut b: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    b[0] = k as u8;
    input(m, &b);
    b.reverse();
    input(m, &b);
    // a shift of every byte through every position
    for pos in 0..32u32 {
        value(m, wshl((0, k as u128), pos * 8));
    }
}

pub const PLAN: Plan = Plan { prop: "P15", iter, exhaust, units: 257 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
