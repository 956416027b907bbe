//! P20: Sum and Product.
use ethnum::{I256, U256};
use mon::*;

fn fold(v: &[W], signed: bool, prod: bool) -> Result<W, ()> {
    let int = |w| if signed { Int::i(w) } else { Int::u(w) };
    let mut acc = Int::n(prod as i128);
    for &w in v {
        let x = if prod { acc.mul(&int(w)) } else { acc.add(&int(w)) };
        let fits = if signed { x.fits_i() } else { x.fits_u() };
        if !fits && DEBUG {
            return Err(());
        }
        acc = int(x.wrap());
    }
    Ok(acc.wrap())
}

/// An iterator with no useful size hint, yielding by value.
struct Odd<T>(Vec<T>, usize);
impl<T: Copy> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.0.get(self.1).copied();
        self.1 += 1;
        x
    }
}

macro_rules! kind {
    ($m:ident, $v:ident, $T:ident, $mk:ident, $signed:literal) => {{
        let xs: Vec<$T> = $v.iter().map(|w| $mk(*w)).collect();
        let show = if $v.len() <= 8 { format!("{:x?}", $v) } else { format!("{:x?}.. ({} items)", &$v[..8], $v.len()) };
        let a = A::S(&show);
        let (s, p) = (fold($v, $signed, false), fold($v, $signed, true));
        $m.class_if(s.is_err(), "sum overflow panics");
        $m.class_if(p.is_err(), "product overflow panics");
        $m.class_if(s.is_ok(), "sum returns");
        $m.class_if(p.is_ok(), "product returns");
        ck!($m, concat!(stringify!($T), " sum of values"), [a], xs.iter().copied().sum::<$T>(), s);
        ck!($m, concat!(stringify!($T), " sum of references"), [a], xs.iter().sum::<$T>(), s);
        ck!($m, concat!(stringify!($T), " sum of a bare iterator"), [a], Odd(xs.clone(), 0).sum::<$T>(), s);
        ck!($m, concat!(stringify!($T), " product of values"), [a], xs.iter().copied().product::<$T>(), p);
        ck!($m, concat!(stringify!($T), " product of references"), [a], xs.iter().product::<$T>(), p);
        ck!($m, concat!(stringify!($T), " product of a bare iterator"), [a], Odd(xs.clone(), 0).product::<$T>(), p);
        // early end and filtering adaptors see the same elements
        let k = $v.len() / 2;
        let (s, p) = (fold(&$v[..k], $signed, false), fold(&$v[..k], $signed, true));
        ck!($m, concat!(stringify!($T), " sum of take"), [a], xs.iter().take(k).sum::<$T>(), s);
        ck!($m, concat!(stringify!($T), " product of take_while"), [a], { let mut n = 0; xs.iter().take_while(|_| { n += 1; n <= k }).product::<$T>() }, p);
    }};
}

fn one(m: &mut Mon, v: &[W]) {
    m.case(hash_w(v), v.len() >= 2);
    m.class_if(v.is_empty(), "empty sequence");
    m.class_if(v.len() == 1, "one element");
    m.class_if(v.len() > 16, "long sequence");
    kind!(m, v, U256, u, false);
    kind!(m, v, I256, i, true);
}

fn iter(m: &mut Mon, r: &mut Rng) {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 40 + r.below(60),
        _ => r.below(12),
    };
    let style = r.below(8);
    let mut v: Vec<W> = (0..n)
        .map(|_| match style {
            0 => w256(r),
            1 => (0, w128(r)),
            2 => (0, 1 + r.below(6) as u128),
            3 => (0, w64(r) as u128),
            // mixed signs that cancel
            4 => {
                let x = (w128(r) >> 3, r.u128());
                if r.bool() {
                    wneg(x)
                } else {
                    x
                }
            }
            5 => wshl(ONE, r.below(64) as u32),
            6 => *r.pick(&[ONE, M1, (0, 2), IMIN, IMAX, ZERO]),
            _ => (w128(r) >> (r.below(100) as u32), w128(r)),
        })
        .collect();
    // complete a sequence whose last prefix lies exactly at a bound
    if !v.is_empty() && r.chance(1, 4) {
        let t = v.iter().fold(Int::n(0), |t, w| t.add(&Int::i(*w)));
        let lim = *r.pick(&[IMAX, IMIN, UMAX]);
        v.push(Int::u(lim).sub(&t).add(&Int::n(r.below(3) as i128 - 1)).wrap());
    }
    one(m, &v);
}

fn exhaust(m: &mut Mon, k: u64, _r: &mut Rng) {
    // every sequence up to length 3 over boundary values
    let b = [ZERO, ONE, M1, (0, 2), IMIN, IMAX, (0, !0), (1, 0)];
    if k == 0 {
        one(m, &[]);
    }
    let x = b[k as usize];
    one(m, &[x]);
    for y in b {
        one(m, &[x, y]);
        for z in b {
            one(m, &[x, y, z]);
        }
    }
}

pub const PLAN: Plan = Plan { prop: "P20", iter, exhaust, units: 8 };

#[allow(dead_code)]
fn main() {
    mon::main(PLAN);
}
