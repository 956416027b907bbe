//! P22: every call returns after an amount of work bounded by the size of its input, on a small stack.
//!
//! Oracle: the CPU time of the calling thread (not wall time; the least of three runs when the first is
//! over the bound) against a bound hundreds of times the usual cost, plus a share per byte of text. All calls
//! run on a thread with a small stack, so recursion in proportion to a value or a text ends the process,
//! and the watchdog of the runtime reports a call that does not return at all.
use ethnum::serde as es;
use ethnum::{I256, U256};
use mon::calls::{inputs, words, In, CALLS};
use mon::*;
use serde::de::value::{BytesDeserializer, Error, SeqDeserializer};
use serde::de::IntoDeserializer;
use std::fmt::Write;


const STACK: usize = 256 << 10;
const BASE_NS: u64 = 12_000_000;
const BYTE_NS: u64 = 2_000;

fn cpu() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // 3 is CLOCK_THREAD_CPUTIME_ID on Linux.
    let rc = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(rc, 0);
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

fn spend(m: &mut Mon, what: &'static str, len: usize, args: &[A], f: &mut dyn FnMut()) {
    if m.nviol >= 2 {
        return; // seen enough, and every further one may be slow
    }
    let bound = BASE_NS + BYTE_NS * len as u64;
    let mut best = u64::MAX;
    for _ in 0..3 {
        let t = cpu();
        f();
        best = best.min(cpu() - t);
        if best <= bound || best > 50 * bound {
            break;
        }
    }
    if m.count(what) {
        m.sample(format!("{what} on {len} bytes of text: {best} ns of at most {bound} ns"));
    }
    if best > bound {
        m.violation(what, args, format!("a return within {bound} ns of CPU time"), format!("{best} ns, the least of three runs"));
    }
}

fn size(m: &Mon, r: &mut Rng) -> usize {
    if m.miri {
        return r.below(40) as usize;
    }
    match r.below(8) {
        0 => r.below(65_536) as usize,
        1 => 4_000 + r.below(2_000) as usize,
        _ => r.below(300) as usize,
    }
}

/// A long text: zeros, digits, signs, separators, with an occasional stranger at the end.
fn text(r: &mut Rng, len: usize) -> String {
    let mut s = String::with_capacity(len + 8);
    s.push_str(*r.pick(&["", "", "-", "+", "0x", "-0x", "0b", "0o", "0x_"]));
    let body: &[u8] = *r.pick(&[&b"0"[..], b"0", b"_", b"1", b"9", b"0_", b"f", b"-", b"+0", b"00000001", b"1_000", b"0x", b" "]);
    for k in 0..len {
        s.push(body[k % body.len()] as char);
    }
    if r.bool() {
        s.push_str(*r.pick(&["7", "g", "\u{e9}", "_", "18446744073709551616", "ffffffffffffffffffffffffffffffffffffffff"]));
    }
    s
}

fn arith(m: &mut Mon, r: &mut Rng) {
    let mut x = inputs(r, if m.miri { 1 } else { 2 }).pop().unwrap();
    x.e = match r.below(4) {
        0 => u32::MAX - r.below(3) as u32,
        1 => r.next() as u32,
        _ => x.e,
    };
    x.n = if r.bool() { r.next() as u32 | (1 << 31) } else { x.n };
    match r.below(4) {
        0 => {
            let v = *r.pick(&[0, 1, 2, 3, 10]);
            x = In { a: U256::new(v), p: I256::new(-(v as i128)), ..x };
        }
        1 | 2 => {
            // every magnitude is as likely: a far from b in most cases
            let mut mag = || {
                let v = w256(r);
                let k = r.below(256) as u32;
                let v = if k < 128 { (v.0 >> k, (v.1 >> k) | if k > 0 { v.0 << (128 - k) } else { 0 }) } else { (0, v.0 >> (k - 128)) };
                (v, r.bool())
            };
            let ((a, _), (b, _), (p, np), (q, nq)) = (mag(), mag(), mag(), mag());
            let sign = |w: W, n: bool| if n { (!i(w)).wrapping_add(I256::ONE) } else { i(w) };
            x = In { a: u(a), b: u(b), p: sign(p, np), q: sign(q, nq), ..x };
        }
        _ => {}
    }
    m.case(hash_bytes(format!("{:?}", words(&x)).as_bytes()), big(uw(x.a)) || x.e > 1 << 20);
    m.class_if(x.e > 1 << 31, "exponent above 2^31");
    m.class_if(x.n >> 31 != 0, "shift amount above 2^31");
    let len = x.s.len() + x.bytes.len();
    let picks = if m.miri { 2 } else { 8 };
    for _ in 0..picks {
        let (name, f) = *r.pick(CALLS);
        spend(m, name, len, &[A::U(uw(x.a)), A::U(uw(x.b)), A::I(iw(x.p)), A::I(iw(x.q)), A::N(x.n as i128), A::N(x.e as i128), A::S(&x.s), A::B(&x.bytes)], &mut || {
            std::hint::black_box(f(&x));
        });
    }
}

fn texts(m: &mut Mon, r: &mut Rng) {
    let n = size(m, r);
    let s = text(r, n);
    let len = s.len();
    let radix = 2 + r.below(35) as u32;
    m.case(hash_bytes(s.as_bytes()) ^ radix as u64, len > 40);
    m.class_if(len > 10_000, "text of more than 10000 bytes");
    let shown: String = s.chars().take(60).collect();
    let a = [A::S(&shown), A::N(len as i128), A::N(radix as i128)];
    macro_rules! go { ($($name:literal $e:expr;)*) => {{ $( spend(m, $name, len, &a, &mut || { let _ = std::hint::black_box(obs(|| $e)); }); )* }}; }
    match r.below(3) {
        0 => go! {
            "parse long text" (s.parse::<U256>(), s.parse::<I256>());
            "from_str_radix long text" (U256::from_str_radix(&s, radix), I256::from_str_radix(&s, radix));
        },
        1 => go! {
            "from_str_hex, from_str_prefixed long text" (U256::from_str_hex(&s), I256::from_str_hex(&s), U256::from_str_prefixed(&s), I256::from_str_prefixed(&s));
            "const_from_str_prefixed long U256" U256::const_from_str_prefixed(&s);
            "const_from_str_prefixed long I256" I256::const_from_str_prefixed(&s);
        },
        _ => go! {
            "deserialize long text" {
                let d = || -> serde::de::value::StrDeserializer<Error> { s.as_str().into_deserializer() };
                let r: (Result<U256, _>, Result<I256, _>, Result<U256, _>) = (es::decimal::deserialize(d()), es::prefixed::deserialize(d()), es::permissive::deserialize(d()));
                r
            };
            "deserialize long bytes" {
                let d = || BytesDeserializer::<Error>::new(s.as_bytes());
                let r: (Result<U256, _>, Result<I256, _>, Result<U256, _>) = (es::bytes::le::deserialize(d()), es::compressed_bytes::be::deserialize(d()), es::compressed_bytes::le::deserialize(d()));
                r
            };
            "deserialize a sequence without end" {
                let d = || SeqDeserializer::<_, Error>::new(s.bytes().cycle());
                let r: (Result<U256, _>, Result<I256, _>, Result<U256, _>, Result<I256, _>) = (es::bytes::be::deserialize(d()), es::bytes::le::deserialize(d()), es::compressed_bytes::be::deserialize(d()), es::compressed_bytes::le::deserialize(d()));
                r
            };
            "deserialize long sequence" {
                let d = || SeqDeserializer::<_, Error>::new(s.bytes());
                let r: (Result<U256, _>, Result<I256, _>, Result<U256, _>) = (es::bytes::be::deserialize(d()), es::compressed_bytes::be::deserialize(d()), es::compressed_bytes::le::deserialize(d()));
                r
            };
        },
    }
}

fn shows(m: &mut Mon, r: &mut Rng) {
    let (w, p) = (size(m, r), size(m, r).min(300));
    let x = inputs(r, 1).pop().unwrap();
    m.case(hash_bytes(format!("{:?} {w} {p}", words(&x)).as_bytes()), true);
    m.class_if(w > 10_000, "width above 10000");
    let a = [A::U(uw(x.a)), A::I(iw(x.p)), A::N(w as i128)];
    let mut out = String::new();
    spend(m, "format with width", 8 * w, &a, &mut || {
        out.clear();
        let _ = write!(out, "{:w$}{:<+w$x}{:^#w$o}{:>0w$b}{:w$?}", x.a, x.p, x.q, x.a, x.p);
    });
    spend(m, "format with precision", 8 * p, &a, &mut || {
        out.clear();
        let _ = write!(out, "{:.p$}{:.p$e}{:.p$E}", x.a, x.b, x.q);
    });
    let v = vec![x.p; size(m, r) / 8];
    let u = vec![U256::ONE; v.len()];
    spend(m, "sum and product of many", 8 * v.len(), &a, &mut || {
        let _ = std::hint::black_box((obs(|| v.iter().sum::<I256>()), obs(|| u.iter().product::<U256>()), obs(|| v.iter().map(|x| *x & I256::ONE).sum::<I256>())));
    });
}

fn on_small_stack(m: &mut Mon, r: &mut Rng, f: fn(&mut Mon, &mut Rng)) {
    // the coverage-guided generator keeps its tape per thread
    if cfg!(feature = "guided") || cfg!(miri) {
        return f(m, r);
    }
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || f(m, r)).expect("thread");
        if let Err(e) = h.join() {
            std::panic::resume_unwind(e)
        }
    });
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let f = match r.below(4) {
        0 | 1 => arith,
        2 => texts,
        _ => shows,
    };
    on_small_stack(m, r, f);
}

fn exhaust(m: &mut Mon, _: u64, r: &mut Rng) {
    on_small_stack(m, r, arith);
    on_small_stack(m, r, texts);
    on_small_stack(m, r, shows);
}

pub const PLAN: Plan = Plan { prop: "P22", iter, exhaust, units: 16 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
