//! P18: broad workload over the whole safe API for the memory-error and undefined-behaviour oracles.
//!
//! Run under Miri, AddressSanitizer and valgrind; those decide. Values computed here are judged by the
//! other properties, so a mismatch is only counted. The part below adds what the other monitors lack:
//! values shared by and moved between threads, reborrows, slices and collections of values.
#![allow(dead_code)]
use ethnum::{AsI256, AsU256, I256, U256};
use mon::ser::Rec;
use mon::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::sync::{mpsc, Arc, Mutex};

mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p19;
mod p20;
mod p21;
mod p22;

const PLANS: [&Plan; 21] = [
    &p01::PLAN, &p02::PLAN, &p03::PLAN, &p04::PLAN, &p05::PLAN, &p06::PLAN, &p07::PLAN, &p08::PLAN, &p09::PLAN, &p10::PLAN,
    &p11::PLAN, &p12::PLAN, &p13::PLAN, &p14::PLAN, &p15::PLAN, &p16::PLAN, &p17::PLAN, &p19::PLAN, &p20::PLAN,
    &p21::PLAN, &p22::PLAN,
];

fn send_sync<T: Send + Sync + Unpin + Copy + 'static>() {}

/// A digest that touches most of the API.
fn digest(a: U256, b: I256) -> u64 {
    let mut s = String::new();
    let d = b | 1;
    let _ = write!(s, "{a}{b:?}{a:#x}{b:#o}{a:b}{:X}{:e}", b, a);
    let _ = write!(s, "{}", a.wrapping_mul(b.as_u256()).wrapping_add(a / d.as_u256()).rotate_left(77));
    let _ = write!(s, "{}", b.wrapping_mul(a.as_i256()).wrapping_sub(b.wrapping_rem(d)).swap_bytes());
    let _ = write!(s, "{:?}{:?}", a.as_f64(), b.as_f32());
    let _ = write!(s, "{:?}", U256::from_str_radix(&a.to_string(), 10));
    let _ = write!(s, "{:?}", I256::from_str_prefixed(&format!("{b:#x}")));
    let _ = write!(s, "{:?}", serde_json::to_string(&(a, b)));
    let _ = write!(s, "{:?}", (a.checked_pow(3), b.overflowing_mul(d), a << 3, b >> 131, a.leading_zeros(), b.trailing_zeros(), a.swap_bytes(), b.to_be_bytes()));
    let _ = write!(s, "{:?}", (a.as_f32(), (b.as_f64()).as_i256(), U256::try_from(b).is_ok(), u64::try_from(a).is_err(), a.cmp(&b.as_u256()), [b, d].iter().map(|x| x >> 2).sum::<I256>()));
    let _ = write!(s, "{:?}", (I256::from_str_hex("0xzz"), U256::from_str_radix("", 7), "-5".parse::<U256>(), std::panic::catch_unwind(|| a / U256::ZERO).is_err()));
    let _ = write!(s, "{:?}", (ethnum::serde::compressed_bytes::le::serialize(&b, Rec { human: false }), ethnum::serde::decimal::serialize(&a, Rec { human: true }), ethnum::serde::bytes::be::serialize(&b, Rec { human: true })));
    let _ = write!(s, "{:?}", ethnum::serde::permissive::deserialize::<U256, _>(&serde_json::Value::from(a.as_u64())).is_ok());
    hash_bytes(s.as_bytes())
}

fn threads(m: &mut Mon, r: &mut Rng) {
    let n = if m.miri { 3 } else { 24 };
    let us: Vec<U256> = (0..n).map(|_| u(w256(r))).collect();
    let is: Vec<I256> = (0..n).map(|_| i(w256(r))).collect();
    let shared = Arc::new((us.clone(), is.clone()));
    let total = Arc::new(Mutex::new(U256::ZERO));
    let (tx, rx) = mpsc::channel();
    let hs: Vec<_> = (0..3)
        .map(|t| {
            let (shared, tx, total) = (shared.clone(), tx.clone(), total.clone());
            let seed = r.next();
            std::thread::spawn(move || {
                // Nothing ran before this in the process when Miri runs this part: lazily
                // initialised state, if there is any, is first touched by three threads at once.
                let mut mon = Mon::new();
                let mut rng = Rng::new(seed);
                let mut out = vec![digest(shared.0[t], shared.1[t])];
                for _ in 0..if mon.miri { 1 } else { 30 } {
                    bare(&mut mon, &mut rng);
                }
                let mut own = (shared.0.clone(), shared.1.clone());
                out.extend((1..n).map(|k| digest(shared.0[(k + t) % n], shared.1[(k + t) % n])));
                for x in own.0.iter_mut() {
                    let mut g = total.lock().unwrap();
                    *g = g.wrapping_add(*x);
                    *x.low_mut() = !*x.low();
                    x.high_mut().clone_from(&7);
                }
                own.1.sort();
                tx.send((own, t)).unwrap();
                out
            })
        })
        .collect();
    drop(tx);
    let want: Vec<u64> = us.iter().zip(&is).map(|(a, b)| digest(*a, *b)).collect();
    for (t, h) in hs.into_iter().enumerate() {
        let out = h.join().unwrap();
        for k in 0..n {
            m.check("digest in another thread", &[], Ok(out[k]), Ok(want[(k + t) % n]));
        }
    }
    for ((us2, is2), _) in rx {
        let _ = us2.iter().map(|x| *x.high()).max();
        let _ = is2.iter().max();
    }
    let sum = us.iter().fold(U256::ZERO, |a, b| a.wrapping_add(*b));
    m.check("sum under a mutex", &[], Ok(*total.lock().unwrap()), Ok(uw(sum.wrapping_mul(U256::new(3)))));
    m.class("values shared by three threads");
}

fn containers(m: &mut Mon, r: &mut Rng) {
    let n = if m.miri { 6 } else { 40 };
    let mut v: Vec<U256> = (0..n).map(|_| u(w256(r))).collect();
    let h: HashMap<U256, usize> = v.iter().enumerate().map(|(k, x)| (*x, k)).collect();
    let b: BTreeMap<I256, usize> = v.iter().enumerate().map(|(k, x)| (x.as_i256(), k)).collect();
    v.sort_unstable();
    v.dedup();
    m.check("map sizes", &[], Ok(h.len() == v.len() && b.len() == v.len()), Ok(true));
    let boxed: Box<[U256]> = v.clone().into_boxed_slice();
    for x in boxed.iter() {
        let _ = h[x] + b[&x.as_i256()];
        let _ = x.to_be_bytes().iter().chain(x.to_le_bytes().iter()).fold(0u32, |a, b| a + *b as u32);
    }
    // misaligned source bytes, unaligned reads, views through references
    let mut raw = vec![0u8; 32 * 3 + 1];
    for (k, x) in v.iter().take(3).enumerate() {
        raw[1 + 32 * k..33 + 32 * k].copy_from_slice(&x.to_ne_bytes());
    }
    for k in 0..3usize.min(v.len()) {
        let x = U256::from_ne_bytes(raw[1 + 32 * k..33 + 32 * k].try_into().unwrap());
        m.check("bytes from an odd address", &[], Ok(x), Ok(uw(v[k])));
    }
    let mut x = v[0];
    {
        let a = x.low_mut();
        *a = a.wrapping_add(1);
    }
    *x.high_mut() ^= 1;
    let mut pair = (x, x.as_i256());
    std::mem::swap(&mut pair.0, &mut x);
    let y = std::mem::take(&mut pair.1);
    m.check("reborrowed words", &[], Ok(x.as_i256()), Ok(iw(y)));
    let opt = [Some(x), None];
    m.check("options", &[], Ok(opt.iter().flatten().count()), Ok(1));
    m.class("collections of values");
}

/// Direct calls with hostile inputs and no oracle but the instrumentation, so that far more of them fit.
macro_rules! calls {
    ($m:ident; $($e:expr;)*) => {{$( $m.evals += 1; let _ = std::hint::black_box(obs(|| $e)); )*}};
}
struct Sink<'a>(&'a mut [u8], usize);
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // Reads every byte handed out, and fails once full.
        for b in s.bytes() {
            *self.0.get_mut(self.1).ok_or(std::fmt::Error)? = b;
            self.1 += 1;
        }
        Ok(())
    }
}

fn bare(m: &mut Mon, r: &mut Rng) {
    use ethnum::serde as es;
    use std::hint::black_box as bb;
    let special = [ZERO, ONE, M1, IMAX, IMIN, (0, !0), (1, 0), (1 << 127, 1)];
    let (wa, wb) = match r.below(4) {
        0 => (*r.pick(&special), *r.pick(&special)),
        1 => pair(r),
        2 => mul_pair(r),
        _ => div_pair(r),
    };
    let (a, b, p, q) = bb((u(wa), u(wb), i(wa), i(wb)));
    let n = bb(shift(r));
    let e = bb(exponent(r));
    // Panics cost a lot under Miri: most rounds there leave out the calls that may panic.
    let hot = !m.miri || r.chance(1, 6);
    let (sn, d, dq) = (n % 256, b | 1, q | (1 << 7));
    calls!(m; a / d; a % d; p / dq; p % dq; !a; !p; a & b; p | q; a ^ b; a << sn; a >> sn; p << sn; p >> sn;
        a >> U256::new(sn as u128); p << I256::new(sn as i128); p >> sn as u8;);
    if hot {
        calls!(m; a + b; a - b; a * b; a / b; a % b; p + q; p - q; p * q; p / q; p % q; -p;
        a << n; a >> n; p << n; p >> n; a << b; p >> q; a.pow(e); p.pow(e); p.abs();
        { let mut x = a; x += b; x -= a; x *= a; x <<= n % 256; x >>= q; x };
        { let mut x = a; x /= b; x %= b; x }; { let mut x = p; x /= q; x %= q; x };
        p.overflowing_div(q); p.overflowing_rem_euclid(q); p.overflowing_div_rem(q); a.overflowing_div_rem_euclid(b);
        p.saturating_div(q); p.saturating_div_rem(q); p.wrapping_div_rem_euclid(q); a.wrapping_div_rem(b);
        [a, b].iter().sum::<U256>(); [p, q].into_iter().product::<I256>(););
    }
    calls!(m;
        (a.checked_add(b), a.checked_sub(b), a.checked_mul(b), a.checked_div(b), a.checked_rem(b), a.checked_neg(), a.checked_pow(e), a.checked_shl(n), a.checked_shr(n));
        (p.checked_add(q), p.checked_sub(q), p.checked_mul(q), p.checked_div(q), p.checked_rem(q), p.checked_neg(), p.checked_pow(e), p.checked_shl(n), p.checked_shr(n), p.checked_abs());
        (a.checked_div_euclid(b), a.checked_rem_euclid(b), a.checked_div_rem(b), a.checked_div_rem_euclid(b));
        (p.checked_div_euclid(q), p.checked_rem_euclid(q), p.checked_div_rem(q), p.checked_div_rem_euclid(q));
        (a.overflowing_add(b), a.overflowing_sub(b), a.overflowing_mul(b), a.overflowing_shl(n), a.overflowing_shr(n), a.overflowing_pow(e));
        (p.overflowing_add(q), p.overflowing_sub(q), p.overflowing_mul(q), p.overflowing_shl(n), p.overflowing_shr(n), p.overflowing_pow(e), p.overflowing_neg());
        p.overflowing_div(dq); p.overflowing_rem_euclid(dq); p.overflowing_div_rem(dq); a.overflowing_div_rem_euclid(d);
        (a.saturating_add(b), a.saturating_sub(b), a.saturating_mul(b), p.saturating_add(q), p.saturating_sub(q), p.saturating_mul(q), p.saturating_pow(e));
        p.saturating_div(dq); p.saturating_div_rem(dq); p.wrapping_div_rem_euclid(dq); a.wrapping_div_rem(d);
        (a.wrapping_shl(n), a.wrapping_shr(n), p.wrapping_shl(n), p.wrapping_shr(n), a.rotate_left(n), p.rotate_right(n));
        (a.abs_diff(b), p.abs_diff(q), a.checked_next_power_of_two(), a.is_power_of_two(), a.swap_bytes(), p.reverse_bits());
        (a.leading_zeros(), p.leading_ones(), a.trailing_zeros(), p.trailing_ones(), a.count_ones());
        (a < b, p.cmp(&q), a == b, a == 5u128, 5i128 < p, a.max(b), p.clamp(I256::MIN, q.max(I256::MIN)));
        (a.as_f64(), p.as_f32(), a.as_i8(), p.as_u128(), i128::try_from(a), u64::try_from(p), I256::try_from(a), U256::try_from(p));
        (a.to_le_bytes(), p.to_be_bytes(), U256::from_ne_bytes(a.to_ne_bytes()), I256::from_be_bytes(p.to_le_bytes()));
        [a & (!U256::ZERO >> 1), b >> 1].iter().sum::<U256>(); [p >> 128, q >> 129].into_iter().product::<I256>(););
    let f = f64::from_bits(r.next());
    calls!(m; (f.as_u256(), f.as_i256(), (f as f32).as_u256(), (f as f32).as_i256()););
    // formatting into buffers of every size, with odd specs
    let mut mem = [0u8; 300];
    let cap = r.below(300) as usize;
    let (w, pr) = (r.below(if m.miri { 90 } else { 300 }) as usize, r.below(20) as usize);
    match r.below(if hot { 6 } else { 4 }) + 2 * !hot as u64 {
        0 => { calls!(m; write!(Sink(&mut mem[..cap], 0), "{a}{p:?}");); }
        1 => { calls!(m; write!(Sink(&mut mem[..cap], 0), "{a:#b}"); write!(Sink(&mut mem, 0), "{p:b}");); }
        2 => { calls!(m; write!(Sink(&mut mem[..cap], 0), "{p:+#w$x}"); write!(Sink(&mut mem, 0), "{a:#o}");); }
        3 => { calls!(m; format!("{p:>w$}{a:~^+#0w$X}{p:-x}{q:-#o}");); }
        4 => { calls!(m; format!("{p:w$.pr$e}"); format!("{a:E}{p:#?}"); format!("{a:#x?}{q:X?}");); }
        _ => { calls!(m; (a.to_string(), p.to_string()););}
    }
    // parsing arbitrary, also multi-byte, strings
    let mut s = String::new();
    if r.bool() {
        s.push_str(*r.pick(&["", "-", "+", "0x", "-0x", "0b", "+0o", "-0", "_", "\u{20ac}", "0\u{301}x", "x"]));
    }
    if hot && r.bool() {
        s.push_str(&a.to_string());
    }
    for _ in 0..r.below(if m.miri { 20 } else { 90 }) {
        s.push(*r.pick(&['0', '1', '7', '9', 'f', 'F', '0', '3', '2', '8', 'z', '_', '-', ' ', '\u{e9}', '\u{1f600}', '\0']));
        if r.chance(1, 3) { s.pop(); s.push('1'); }
    }
    let r_hex = r.bool();
    let radix = 2 + r.below(35) as u32;
    calls!(m; (s.parse::<U256>(), s.parse::<I256>()); (U256::from_str_radix(&s, radix), I256::from_str_radix(&s, radix));
        (U256::from_str_hex(&s), I256::from_str_hex(&s)); (U256::from_str_prefixed(&s), I256::from_str_prefixed(&s));
        U256::const_from_str_prefixed(&if r_hex { "0x_7fff_0" } else { "+1_000 0" }););
    if hot {
        calls!(m; U256::const_from_str_prefixed(&s); I256::const_from_str_prefixed(&s););
    }
    // serde, through serializers and visitors of every shape
    let r_human = r.bool();
    use serde::de::{value::*, IntoDeserializer};
    let len = r.below(36) as usize;
    let bytes: Vec<u8> = (0..len).map(|_| if r.bool() { r.next() as u8 } else { *r.pick(&[0, 255, 127, 128]) }).collect();
    let words: Vec<u32> = (0..len).map(|k| if k == 30 && r.bool() { 300 } else { r.below(256) as u32 }).collect();
    macro_rules! modes { ($($f:path, $g:path);*) => {{$( calls!(m;
        ($f(&a, Rec { human: r_human }), $f(&p, Rec { human: r_human }));
        (($g(s.as_str().into_deserializer()) as Result<U256, Error>).is_ok(), ($g(s.as_str().into_deserializer()) as Result<I256, Error>).is_ok());
        (($g(BytesDeserializer::new(&bytes)) as Result<U256, Error>).is_ok(), ($g(BytesDeserializer::new(&bytes)) as Result<I256, Error>).is_ok());
        (($g(SeqDeserializer::new(words.iter().copied())) as Result<U256, Error>).is_ok(), ($g(SeqDeserializer::new(words.iter().copied())) as Result<I256, Error>).is_ok());
        (($g(f.into_deserializer()) as Result<U256, Error>).is_ok(), ($g(p.as_i64().into_deserializer()) as Result<I256, Error>).is_ok());
        (($g(p.as_i128().into_deserializer()) as Result<U256, Error>).is_ok(), ($g(a.as_u128().into_deserializer()) as Result<I256, Error>).is_ok());
    );)*}}; }
    match r.below(4) {
        0 => modes!(es::decimal::serialize, es::decimal::deserialize; es::prefixed::serialize, es::prefixed::deserialize),
        1 => modes!(es::permissive::serialize, es::permissive::deserialize; serde::Serialize::serialize, serde::Deserialize::deserialize),
        2 => modes!(es::bytes::le::serialize, es::bytes::le::deserialize; es::bytes::be::serialize, es::bytes::be::deserialize; es::bytes::ne::serialize, es::bytes::ne::deserialize),
        _ => modes!(es::compressed_bytes::le::serialize, es::compressed_bytes::le::deserialize; es::compressed_bytes::be::serialize, es::compressed_bytes::be::deserialize; es::compressed_bytes::ne::serialize, es::compressed_bytes::ne::deserialize),
    }
    m.case(hash_w(&[wa, wb]) ^ hash_bytes(s.as_bytes()), true);
    m.class("bare calls");
}

fn main() {
    send_sync::<U256>();
    send_sync::<I256>();
    if let Some(p) = std::env::args().position(|a| a == "--dict") {
        set_dict(&std::env::args().nth(p + 1).unwrap());
    }
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| args.iter().position(|a| a == k).map(|p| args[p + 1].parse().unwrap()).unwrap_or(d);
    let (seed, iters, units) = (get("--seed", 1), get("--iters", 1), get("--units", 1));
    let max_secs = get("--max-secs", 100_000);
    let plans: Vec<usize> = match args.iter().position(|a| a == "--plans") {
        Some(p) => args[p + 1].split(',').map(|x| x.parse().unwrap()).collect(),
        None => (0..PLANS.len() + 2).collect(),
    };
    let base = mix(seed ^ 0x18);
    let mut total = Mon::new();
    for &p in &plans {
        let start = std::time::Instant::now();
        let mut m = Mon::new();
        if p == PLANS.len() + 1 {
            let first = get("--first", 0);
            for k in first..first + get("--bare", iters) {
                if start.elapsed().as_secs() >= max_secs {
                    break;
                }
                m.unit = format!("b{k}");
                bare(&mut m, &mut Rng::new(base ^ mix(k)));
            }
        } else if p == PLANS.len() {
            let mut r = Rng::new(base);
            for _ in 0..iters.max(1) {
                threads(&mut m, &mut r);
                containers(&mut m, &mut r);
            }
        } else {
            let plan = PLANS[p];
            for k in 0..iters {
                if start.elapsed().as_secs() >= max_secs {
                    break;
                }
                m.unit = format!("r{k}");
                m.iter = k;
                (plan.iter)(&mut m, &mut Rng::new(mix(base ^ p as u64) ^ mix(k)));
            }
            let mut r = Rng::new(mix(base ^ p as u64) ^ 5);
            for _ in 0..units.min(plan.units) {
                if start.elapsed().as_secs() >= max_secs {
                    break;
                }
                let k = r.below(plan.units);
                m.unit = format!("x{k}");
                (plan.exhaust)(&mut m, k, &mut Rng::new(mix(base ^ k)));
            }
        }
        eprintln!("part {} {}: {} operations, {} mismatches, {:?}", p, PLANS.get(p).map(|p| p.prop).unwrap_or("own"), m.evals, m.nviol, start.elapsed());
        for v in m.viols.iter().take(3) {
            eprintln!("  mismatch {} {} expected {} observed {}", v.op, v.args, v.expected, v.observed);
        }
        merge(&mut total, m);
    }
    report("P18", &mut total, args.iter().position(|a| a == "--out").map(|p| args[p + 1].clone()), None, false);
}
