//! P21: every operation is a pure function of its operands; failing operations leave no trace.
//!
//! Oracle: agreement between executions. A batch of calls is observed once, and again in other orders,
//! after a storm of other (also panicking and failing) calls, and on other threads at the same time; each
//! outcome must be the one first observed. Values the library only borrows must not change, a compound
//! assignment that panics must leave its destination alone, and an error raised by a sink or a source
//! must come back with the output so far a prefix of the full text.
use ethnum::serde as es;
use ethnum::{AsI256, I256, U256};
use mon::ser::E;
use mon::calls::*;
use mon::*;
use serde::de::value::{BytesDeserializer, Error};
use serde::de::IntoDeserializer;
use std::fmt::{self, Write};

struct Full<'a> {
    text: &'a mut String,
    left: usize,
    calls_after: u32,
    failed: bool,
}
impl Write for Full<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.calls_after += 1;
            return Err(fmt::Error);
        }
        for c in s.chars() {
            if self.left == 0 {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.left -= 1;
            self.text.push(c);
        }
        Ok(())
    }
}

/// Formatting into a sink that fails after every possible number of characters.
fn failing_sinks(m: &mut Mon, r: &mut Rng, x: &In) {
    let (w, pr) = (r.below(90) as usize, r.below(12) as usize);
    macro_rules! spec {
        ($($s:literal, $v:expr $(, $a:expr)*;)*) => {{$({
            let v = $v;
            let before = iw(v.as_i256());
            let full = format!($s, v $(, $a)*);
            let n = full.chars().count();
            for cut in [0, n / 2, n.saturating_sub(1), r.below(n as u64 + 1) as usize, n] {
                let mut text = String::new();
                let mut sink = Full { text: &mut text, left: cut, calls_after: 0, failed: false };
                let o = obs(|| write!(sink, $s, v $(, $a)*).is_ok());
                let after = sink.calls_after;
                m.check(concat!("write ", $s), &[A::I(before), A::N(cut as i128)], o.map(|o| (o, after == 0, text)), Ok((cut >= n, true, full.chars().take(cut).collect::<String>())));
                m.class_if(cut < n, "sink failed");
            }
            m.check(concat!("format again ", $s), &[A::I(before)], obs(|| format!($s, v $(, $a)*)), Ok(full));
        })*}};
    }
    match r.below(4) {
        0 => spec!("{:1$.2$}", x.a, w, pr; "{:?}", x.p;),
        1 => spec!("{:+#1$x}", x.p, w; "{:#b}", x.a;),
        2 => spec!("{:~^1$}", x.p, w; "{:-#o}", x.q;),
        _ => spec!("{:01$X}", x.b, w; "{:1$.2$e}", x.q, w, pr;),
    }
}

/// A serializer, and sources, that only fail.
struct Refuse(bool);
macro_rules! refuse {
    ($($f:ident $t:ty),*) => {$(fn $f(self, _: $t) -> Result<(), E> { Err(E("refused".into())) })*};
}
type X = serde::ser::Impossible<(), E>;
impl serde::Serializer for Refuse {
    type Ok = ();
    type Error = E;
    type SerializeSeq = X;
    type SerializeTuple = X;
    type SerializeTupleStruct = X;
    type SerializeTupleVariant = X;
    type SerializeMap = X;
    type SerializeStruct = X;
    type SerializeStructVariant = X;
    refuse!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<(), E> {
        Err(E("refused".into()))
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E("refused".into()))
    }
    fn serialize_some<T: serde::Serialize + ?Sized>(self, _: &T) -> Result<(), E> {
        Err(E("refused".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E("refused".into()))
    }
    fn serialize_newtype_struct<T: serde::Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: serde::Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E("refused".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<X, E> {
        Err(E("refused".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.0
    }
}
/// A sequence that yields some bytes and then an error.
struct Broken(u32);
impl<'de> serde::de::SeqAccess<'de> for Broken {
    type Error = E;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0 == 0 {
            return Err(E("broken".into()));
        }
        self.0 -= 1;
        seed.deserialize((self.0 as u8 | 0x80).into_deserializer()).map(Some)
    }
}
impl<'de> serde::Deserializer<'de> for Broken {
    type Error = E;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Down;
impl<'de> serde::Deserializer<'de> for Down {
    type Error = E;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("broken".into()))
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn failing_serde(m: &mut Mon, r: &mut Rng, x: &In) {
    let (h, cut) = (r.bool(), r.below(32) as u32);
    macro_rules! modes { ($k:path, $name:expr) => {{
        use $k as k;
        m.check(concat!("refused ", $name), &[A::U(uw(x.a))], obs(|| (k::serialize(&x.a, Refuse(h)).map_err(|e| e.0), k::serialize(&x.p, Refuse(h)).map_err(|e| e.0))), Ok((Err("refused".into()), Err("refused".into()))));
        m.check(concat!("source down ", $name), &[], obs(|| {
            let (a, p): (Result<U256, E>, Result<I256, E>) = (k::deserialize(Down), k::deserialize(Down));
            (a.map_err(|e| e.0), p.map_err(|e| e.0))
        }), Ok((Err("broken".into()), Err("broken".into()))));
        m.class("failing serializers and sources");
    }}; }
    macro_rules! sequence { ($k:path, $name:expr) => {{
        use $k as k;
        m.check(concat!("sequence breaks off ", $name), &[A::N(cut as i128)], obs(|| {
            let (a, p): (Result<U256, E>, Result<I256, E>) = (k::deserialize(Broken(cut)), k::deserialize(Broken(cut)));
            (a.map_err(|e| e.0), p.map_err(|e| e.0))
        }), Ok((Err("broken".into()), Err("broken".into()))));
        modes!($k, $name);
    }}; }
    match r.below(7) {
        0 => modes!(es::decimal, "decimal"),
        1 => modes!(es::prefixed, "prefixed"),
        2 => modes!(es::permissive, "permissive"),
        3 => sequence!(es::bytes::le, "bytes::le"),
        4 => sequence!(es::bytes::be, "bytes::be"),
        5 => sequence!(es::compressed_bytes::le, "compressed_bytes::le"),
        _ => sequence!(es::compressed_bytes::be, "compressed_bytes::be"),
    }
}

/// Operands of by-reference operators stay as they are; compound assignment is all or nothing.
fn atomic(m: &mut Mon, x: &In) {
    macro_rules! assign {
        ($T:ident, $P:ident, $x:expr, $y:expr, $n:expr, $w:ident, $arg:expr; $($op:tt $as:tt)*) => {$({
            let (a, b): ($T, $T) = ($x, $y);
            let n: $P = $n;
            let (aw, bw) = ($w(a), $w(b));
            let plain = obs(|| a $op b);
            let (mut d, mut c) = (a, b);
            let o = obs(|| d $as c);
            m.check(concat!(stringify!($T), " ", stringify!($as)), &[$arg(aw), $arg(bw)], Ok(($w(d), $w(c))).map(|(d, c)| (u(d), u(c))), Ok((plain.as_ref().map(|v| $w(*v)).unwrap_or(aw), bw)));
            m.class_if(o.is_err(), "panicking compound assignment");
            d = a;
            c = b;
            let o = obs(|| d $as &c);
            m.check(concat!(stringify!($T), " ", stringify!($as), " &"), &[$arg(aw), $arg(bw)], Ok(($w(d), $w(c))).map(|(d, c)| (u(d), u(c))), Ok((if o.is_ok() { plain.as_ref().map(|v| $w(*v)).unwrap_or(aw) } else { aw }, bw)));
            let mut d = a;
            let o = obs(|| d $as &n);
            let by = obs(|| a $op n);
            m.check(concat!(stringify!($T), " ", stringify!($as), " ", stringify!($P)), &[$arg(aw), A::X(n as u128)], Ok((o.is_ok(), u($w(d)))), Ok((by.is_ok(), by.map(|v| $w(v)).unwrap_or(aw))));
            let (c, d) = (a, b);
            let _ = std::hint::black_box(obs(|| &c $op &d));
            m.check(concat!("&", stringify!($T), " ", stringify!($op), " &"), &[$arg(aw), $arg(bw)], Ok((u($w(c)), u($w(d)))), Ok((aw, bw)));
        })*};
    }
    assign!(U256, u128, x.a, x.b, *x.b.low(), uw, A::U; + += - -= * *= / /= % %= & &= | |= ^ ^=);
    assign!(I256, i128, x.p, x.q, *x.q.low(), iw, A::I; + += - -= * *= / /= % %= & &= | |= ^ ^=);
    macro_rules! shift {
        ($($N:ident $e:expr;)*) => {$({
            let n: $N = $e;
            let (mut a, mut p) = (x.a, x.p);
            let (oa, op) = (obs(|| a <<= n), obs(|| p >>= &n));
            let (ea, ep) = (obs(|| x.a << &n), obs(|| x.p >> n));
            m.check(concat!("<<= ", stringify!($N)), &[A::U(uw(x.a))], Ok((oa.is_ok(), a)), Ok((ea.is_ok(), ea.map(uw).unwrap_or(uw(x.a)))));
            m.check(concat!(">>= ", stringify!($N)), &[A::I(iw(x.p))], Ok((op.is_ok(), p)), Ok((ep.is_ok(), ep.map(iw).unwrap_or(iw(x.p)))));
            m.class_if(oa.is_err(), "panicking compound shift");
        })*};
    }
    shift!(u32 x.n; i8 x.n as i8; u8 x.n as u8; i16 x.n as i16; u16 x.n as u16; i32 x.n as i32; i64 x.e as i64; u64 (*x.b.low() >> 64) as u64; i128 *x.q.low(); u128 *x.b.low(); isize x.n as isize; usize x.e as usize; U256 x.b; I256 x.q;);
}

fn call(m: &mut Mon, what: &'static str, c: usize, x: &In, want: u64) {
    let got = CALLS[c].1(x);
    if m.count(CALLS[c].0) {
        m.sample(format!("{} {what} {:?} -> digest {got:x}", CALLS[c].0, words(x)));
    }
    if got != want {
        m.violation(CALLS[c].0, &[A::U(uw(x.a)), A::U(uw(x.b)), A::I(iw(x.p)), A::I(iw(x.q)), A::N(x.n as i128), A::N(x.e as i128), A::S(&x.s), A::B(&x.bytes)],
            format!("the outcome first observed (digest {want:x})"), format!("another outcome {what} (digest {got:x})"));
    }
}

fn batch(m: &mut Mon, r: &mut Rng, ncalls: usize, nin: usize, threaded: bool) {
    let ins = inputs(r, nin);
    let before: Vec<_> = ins.iter().map(|x| hash_bytes(format!("{:?}", words(x)).as_bytes())).collect();
    for (x, h) in ins.iter().zip(&before) {
        m.case(*h, big(uw(x.a)) || big(iw(x.p)));
    }
    let cs: Vec<usize> = (0..ncalls).map(|_| r.below(CALLS.len() as u64) as usize).collect();
    // first observation, call by call over all inputs
    let mut plan: Vec<(usize, usize, u64)> = Vec::new();
    for &c in &cs {
        for k in 0..nin {
            m.count(CALLS[c].0);
            plan.push((c, k, CALLS[c].1(&ins[k])));
        }
    }
    let shuffled = |r: &mut Rng| {
        let mut p = plan.clone();
        for k in (1..p.len()).rev() {
            p.swap(k, r.below(k as u64 + 1) as usize);
        }
        p
    };
    // another order
    for (c, k, want) in shuffled(r) {
        call(m, "in another order", c, &ins[k], want);
    }
    // the same call twice in a row, with operations that fail in between
    for &(c, k, want) in plan.iter().take(8) {
        let x = &ins[k];
        match r.below(4) {
            0 => {
                let _ = obs(|| x.a / U256::ZERO);
            }
            1 => {
                let _ = "\u{20ac}".parse::<I256>();
            }
            2 => {
                let _ = es::bytes::be::deserialize::<U256, _>(BytesDeserializer::<Error>::new(&[1, 2]));
            }
            _ => {
                let _ = obs(|| I256::MIN.pow(3) - 1);
            }
        }
        call(m, "after a failed call", c, x, want);
    }
    // other threads at the same time
    if threaded && !cfg!(feature = "guided") {
        let plans: Vec<_> = (0..3).map(|_| shuffled(r)).collect();
        let gate = std::sync::Barrier::new(3);
        let bad: Vec<Mon> = std::thread::scope(|s| {
            let hs: Vec<_> = plans
                .iter()
                .map(|p| {
                    let (gate, ins, unit) = (&gate, &ins, m.unit.clone());
                    s.spawn(move || {
                        let mut t = Mon::new();
                        t.unit = unit;
                        gate.wait();
                        for &(c, k, want) in p {
                            call(&mut t, "on another thread", c, &ins[k], want);
                        }
                        t
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        for t in bad {
            merge(m, t);
        }
        m.class("three threads at once");
    }
    // two threads making a few calls over and over
    if threaded && !cfg!(feature = "guided") {
        let rounds = if m.miri { 4 } else { 200 };
        let few: Vec<(usize, usize, u64)> = {
            let c = *r.pick(&cs);
            plan.iter().filter(|p| p.0 == c).take(3).copied().collect()
        };
        let gate = std::sync::Barrier::new(2);
        let (gate, ins, few) = (&gate, &ins, &few);
        let bad: Vec<Mon> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2)
                .map(|t| {
                    let unit = m.unit.clone();
                    s.spawn(move || {
                        let mut mon = Mon::new();
                        mon.unit = unit;
                        gate.wait();
                        for k in 0..rounds {
                            let (c, i, want) = few[(k * (t + 1) + t) % few.len()];
                            call(&mut mon, "while the same call runs on another thread", c, &ins[i], want);
                        }
                        mon
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        for t in bad {
            merge(m, t);
        }
        m.class("two threads repeating a call");
    }
    let after: Vec<_> = ins.iter().map(|x| hash_bytes(format!("{:?}", words(x)).as_bytes())).collect();
    m.check("operands afterwards", &[], Ok(before == after), Ok(true));
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let (nc, ni) = match () {
        _ if m.miri => (2, 2),
        _ if r.chance(1, 50) => (CALLS.len(), 8),
        _ => (5, 5),
    };
    let threaded = r.chance(1, 16);
    batch(m, r, nc, ni, threaded);
    let x = inputs(r, 2).pop().unwrap();
    atomic(m, &x);
    if r.chance(1, 2) {
        failing_sinks(m, r, &x);
    } else {
        failing_serde(m, r, &x);
    }
}

fn exhaust(m: &mut Mon, _: u64, r: &mut Rng) {
    let (nc, ni) = if m.miri { (2, 2) } else { (CALLS.len(), 4) };
    batch(m, r, nc, ni, true);
}

pub const PLAN: Plan = Plan { prop: "P21", iter, exhaust, units: 16 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
