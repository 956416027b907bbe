//! Monitor runtime: event capture, online comparison, statistics, replay.
use crate::gen::*;
use crate::model::*;
use ethnum::{I256, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::sync::atomic::{AtomicU64, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const DEBUG: bool = cfg!(debug_assertions);

pub fn u(w: W) -> U256 {
    U256::from_words(w.0, w.1)
}
pub fn i(w: W) -> I256 {
    I256::from_words(w.0 as i128, w.1 as i128)
}
pub fn uw(x: U256) -> W {
    x.into_words()
}
pub fn iw(x: I256) -> W {
    let (h, l) = x.into_words();
    (h as u128, l as u128)
}

/// Conversion of an observed result to plain data, so that comparison never uses the library's own traits.
pub trait Raw {
    type R: PartialEq + Debug + Clone;
    fn raw(self) -> Self::R;
}
impl Raw for U256 {
    type R = W;
    fn raw(self) -> W {
        uw(self)
    }
}
impl Raw for I256 {
    type R = W;
    fn raw(self) -> W {
        iw(self)
    }
}
macro_rules! raw_id {
    ($($t:ty),*) => {$(impl Raw for $t { type R = $t; fn raw(self) -> $t { self } })*};
}
raw_id!(bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, String, std::cmp::Ordering, (), [u8; 32], Vec<u8>, std::num::IntErrorKind);
impl<T: Raw> Raw for Option<T> {
    type R = Option<T::R>;
    fn raw(self) -> Self::R {
        self.map(Raw::raw)
    }
}
impl<T: Raw, E: Raw> Raw for Result<T, E> {
    type R = Result<T::R, E::R>;
    fn raw(self) -> Self::R {
        match self {
            Ok(x) => Ok(x.raw()),
            Err(e) => Err(e.raw()),
        }
    }
}
impl<A: Raw, B: Raw> Raw for (A, B) {
    type R = (A::R, B::R);
    fn raw(self) -> Self::R {
        (self.0.raw(), self.1.raw())
    }
}
impl<A: Raw, B: Raw, C: Raw> Raw for (A, B, C) {
    type R = (A::R, B::R, C::R);
    fn raw(self) -> Self::R {
        (self.0.raw(), self.1.raw(), self.2.raw())
    }
}
impl<A: Raw, B: Raw, C: Raw, D: Raw> Raw for (A, B, C, D) {
    type R = (A::R, B::R, C::R, D::R);
    fn raw(self) -> Self::R {
        (self.0.raw(), self.1.raw(), self.2.raw(), self.3.raw())
    }
}

/// Operands, for reports only.
#[derive(Clone, Copy, Hash)]
pub enum A<'a> {
    U(W),
    I(W),
    N(i128),
    X(u128),
    S(&'a str),
    B(&'a [u8]),
}
impl Debug for A<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            A::U(w) => write!(f, "U256:0x{:x}_{:032x}", w.0, w.1),
            A::I(w) => write!(f, "I256:0x{:x}_{:032x}({})", w.0, w.1, Int::i(*w).to_string()),
            A::N(n) => write!(f, "{n}"),
            A::X(n) => write!(f, "{n:#x}"),
            A::S(s) => write!(f, "{s:?}"),
            A::B(s) => write!(f, "bytes{s:02x?}"),
        }
    }
}

thread_local! {
    static PANIC_AT: RefCell<(String, bool)> = RefCell::new((String::new(), false));
}

/// Run observed code, turning a panic into an event.
pub fn obs<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub struct Violation {
    pub op: String,
    pub args: String,
    pub expected: String,
    pub observed: String,
    pub unit: String,
}

pub struct Mon {
    pub evals: u64,
    pub cases: u64,
    pub ops: BTreeMap<&'static str, u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Violation>,
    pub nviol: u64,
    pub unit: String,
    pub sample_at: u64,
    pub panics: u64,
    pub miri: bool,
    pub log: String,
    pub iter: u64,
    /// Statistics of a coverage-guided run.
    pub guided: Option<String>,
}

const LIB_DIR: &str = "/repo/src/";
const HANG_SECS: u64 = 40;
const DISTINCT_CAP: usize = 1 << 20;

impl Mon {
    pub fn new() -> Mon {
        Mon {
            evals: 0,
            cases: 0,
            ops: BTreeMap::new(),
            classes: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            nviol: 0,
            unit: String::new(),
            sample_at: 1,
            panics: 0,
            miri: cfg!(miri),
            log: String::new(),
            iter: 0,
            guided: None,
        }
    }
    /// Count a condition observed in this run.
    #[inline(never)]
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
    /// One generated case; `nontrivial` by the property's rule.
    pub fn case(&mut self, h: u64, nontrivial: bool) {
        self.cases += 1;
        if nontrivial && self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(mix(h));
        }
    }
    #[inline(never)]
    pub fn count(&mut self, op: &'static str) -> bool {
        self.evals += 1;
        *self.ops.entry(op).or_insert(0) += 1;
        self.evals >= self.sample_at
    }
    #[inline(never)]
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 40 {
            self.samples.push(s);
        }
        self.sample_at = self.sample_at * 3 + 7;
    }
    #[inline(never)]
    pub fn violation(&mut self, op: &str, args: &[A], expected: String, observed: String) {
        self.nviol += 1;
        if self.viols.len() < 50 && !self.viols.iter().filter(|v| v.op == op).nth(2).is_some() {
            let at = PANIC_AT.with(|p| p.borrow().0.clone());
            let observed = if observed == "PANIC" { format!("PANIC ({at})") } else { observed };
            self.viols.push(Violation { op: op.into(), args: format!("{args:?}"), expected, observed, unit: self.unit.clone() });
        }
    }
    /// Compare an observed outcome with the specified one (`Err(())` = panic).
    pub fn check<T: Raw>(&mut self, op: &'static str, args: &[A], o: Result<T, ()>, exp: Result<T::R, ()>) {
        let o = o.map(Raw::raw);
        if o.is_err() {
            self.panics += 1;
        }
        if self.count(op) {
            self.sample(format!("{op} {args:?} -> {}", show(&o)));
        }
        if o != exp {
            self.violation(op, args, show(&exp), show(&o));
        }
    }
    /// As `check` with a predicate instead of one allowed outcome.
    pub fn check_that<T: Raw>(&mut self, op: &'static str, args: &[A], o: Result<T, ()>, what: &str, pred: impl FnOnce(&Result<T::R, ()>) -> bool) {
        let o = o.map(Raw::raw);
        if self.count(op) {
            self.sample(format!("{op} {args:?} -> {}", show(&o)));
        }
        if !pred(&o) {
            self.violation(op, args, what.into(), show(&o));
        }
    }
}

pub fn show<R: Debug>(o: &Result<R, ()>) -> String {
    match o {
        Ok(x) => {
            let s = format!("{x:x?}");
            if s.len() > 2000 {
                s[..2000].to_string()
            } else {
                s
            }
        }
        Err(()) => "PANIC".into(),
    }
}

/// `ck!(m, "name", [args], expr, expected)` with expected: Result<raw, ()>.
#[macro_export]
macro_rules! ck {
    ($m:expr, $op:expr, [$($a:expr),*], $e:expr, $exp:expr) => {{
        let o = $crate::rt::obs(|| $e);
        let exp = $exp;
        $m.check($op, &[$($a),*], o, exp);
    }};
}

pub fn hash_w(ws: &[W]) -> u64 {
    let mut h = 0x1234_5678u64;
    for w in ws {
        for x in [w.0, w.1] {
            h = mix(h ^ x as u64).wrapping_add(mix((x >> 64) as u64));
        }
    }
    h
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for &y in c {
            x = (x << 8) | y as u64;
        }
        h = mix(h ^ x).wrapping_add(0x9e37);
    }
    h
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Plan {
    pub prop: &'static str,
    /// One randomised case.
    pub iter: fn(&mut Mon, &mut Rng),
    /// Exhaustive/structured part: unit k of `units`.
    pub exhaust: fn(&mut Mon, u64, &mut Rng),
    pub units: u64,
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|p| args.get(p + 1).cloned())
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC_AT.with(|p| p.borrow_mut().0 = format!("{at}: {msg}"));
    }));
}

pub fn run_unit(plan: &Plan, m: &mut Mon, unit: &str, seed: u64) {
    m.unit = unit.to_string();
    let r = catch_unwind(AssertUnwindSafe(|| {
        if let Some(k) = unit.strip_prefix("x") {
            let k: u64 = k.parse().unwrap();
            (plan.exhaust)(m, k, &mut Rng::new(seed ^ mix(k ^ 0xe)));
        } else {
            let k: u64 = unit[1..].parse().unwrap();
            m.iter = k;
            (plan.iter)(m, &mut Rng::new(seed ^ mix(k.wrapping_mul(2) + 1)));
        }
    }));
    if r.is_err() {
        // A panic outside an observed call is a failure of the monitor, never a verdict.
        // One raised inside the library at a call that has no reason to panic is an observation.
        let at = PANIC_AT.with(|p| p.borrow().0.clone());
        if at.contains(LIB_DIR) {
            m.violation("unguarded call", &[], "no panic".into(), "PANIC".into());
            return;
        }
        eprintln!("MONITOR-ERROR in unit {unit}: {at}");
        std::process::exit(2);
    }
}

pub type Beat = &'static Vec<(AtomicU64, AtomicU64)>;
/// A unit that does not return is itself an observation (exit 3 names it).
pub fn watchdog(threads: u64, name: impl Fn(u64) -> String + Send + 'static) -> Beat {
    let start = std::time::Instant::now();
    let beat: Beat = Box::leak(Box::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect()));
    if !cfg!(miri) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = start.elapsed().as_secs();
            for (u, at) in beat {
                let u = u.load(Ordering::Relaxed);
                if u != u64::MAX && now > at.load(Ordering::Relaxed) + HANG_SECS {
                    println!("HANG {}", name(u));
                    std::process::exit(3);
                }
            }
        });
    }
    beat
}

#[cfg_attr(feature = "guided", allow(unused_variables, unreachable_code))]
pub fn main(plan: Plan) {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if let Some(d) = arg(&args, "--dict") {
        set_dict(&d);
    }
    let seed: u64 = arg(&args, "--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let iters: u64 = arg(&args, "--iters").map(|s| s.parse().unwrap()).unwrap_or(1000);
    let threads: u64 = arg(&args, "--threads").map(|s| s.parse().unwrap()).unwrap_or(1);
    let units: u64 = arg(&args, "--units").map(|s| s.parse().unwrap()).unwrap_or(plan.units);
    let first: u64 = arg(&args, "--first").map(|s| s.parse().unwrap()).unwrap_or(0);
    let max_secs: u64 = arg(&args, "--max-secs").map(|s| s.parse().unwrap()).unwrap_or(600);
    let out = arg(&args, "--out");
    let log = arg(&args, "--log");
    let base = mix(seed.wrapping_mul(0x51_7cc1_b727_220a)) ^ hash_bytes(plan.prop.as_bytes());
    #[cfg(feature = "guided")]
    {
        let mut m = Mon::new();
        let mut capped = false;
        match arg(&args, "--replay") {
            Some(p) => crate::guided::replay(&plan, &mut m, p.trim_start_matches('@'), base),
            None => capped = crate::guided::search(&plan, &mut m, base, iters, max_secs, &arg(&args, "--tapes").unwrap_or("tape".into())),
        }
        report(plan.prop, &mut m, out, log, capped);
    }
    if let Some(unit) = arg(&args, "--replay") {
        let mut m = Mon::new();
        run_unit(&plan, &mut m, &unit, base);
        report(plan.prop, &mut m, out, log, false);
    }
    let start = std::time::Instant::now();
    let plan_ref: &'static Plan = Box::leak(Box::new(plan));
    let mut total = Mon::new();
    let mut capped = false;
    let beat = watchdog(threads, |u| format!("{}{}", if u & 1 == 1 { "x" } else { "r" }, u >> 1));
    let work = move |t: u64| {
        let mut m = Mon::new();
        m.sample_at = 1 + t * 3;
        let mark = |u: u64| {
            let b = &beat[t as usize];
            if !cfg!(miri) {
                b.1.store(start.elapsed().as_secs(), Ordering::Relaxed);
                b.0.store(u, Ordering::Relaxed);
            }
        };
        let mut capped = false;
        let mut k = t;
        while k < units {
            mark(k * 2 + 1);
            run_unit(plan_ref, &mut m, &format!("x{k}"), base);
            k += threads;
        }
        let mut k = t;
        while k < iters {
            mark((first + k) * 2);
            run_unit(plan_ref, &mut m, &format!("r{}", first + k), base);
            k += threads;
            if (cfg!(miri) || k & 0xff == t & 0xff) && start.elapsed().as_secs() >= max_secs {
                capped = true;
                break;
            }
        }
        beat[t as usize].0.store(u64::MAX, Ordering::Relaxed);
        (m, capped)
    };
    if threads == 1 {
        let (m, c) = work(0);
        merge(&mut total, m);
        capped |= c;
    } else {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let work = work.clone();
                std::thread::Builder::new().stack_size(16 << 20).spawn(move || work(t)).unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((m, c)) => {
                    merge(&mut total, m);
                    capped |= c;
                }
                Err(_) => {
                    eprintln!("MONITOR-ERROR: worker thread died");
                    std::process::exit(2);
                }
            }
        }
    }
    report(plan_ref.prop, &mut total, out, log, capped);
}

pub fn merge(t: &mut Mon, m: Mon) {
    t.evals += m.evals;
    t.cases += m.cases;
    t.nviol += m.nviol;
    t.panics += m.panics;
    for (k, v) in m.ops {
        *t.ops.entry(k).or_insert(0) += v;
    }
    for (k, v) in m.classes {
        *t.classes.entry(k).or_insert(0) += v;
    }
    t.distinct.extend(m.distinct);
    t.samples.extend(m.samples);
    t.viols.extend(m.viols);
    t.log.push_str(&m.log);
}

pub fn report(prop: &str, m: &mut Mon, out: Option<String>, log: Option<String>, capped: bool) -> ! {
    let mut s = String::new();
    let map = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let v: Vec<String> = m
        .viols
        .iter()
        .map(|v| format!("{{\"op\":{},\"args\":{},\"expected\":{},\"observed\":{},\"unit\":{}}}", jstr(&v.op), jstr(&v.args), jstr(&v.expected), jstr(&v.observed), jstr(&v.unit)))
        .collect();
    let sm: Vec<String> = m.samples.iter().take(200).map(|x| jstr(x)).collect();
    let _ = write!(
        s,
        "{{\"prop\":{},\"debug\":{},\"evals\":{},\"cases\":{},\"distinct\":{},\"panics\":{},\"nviol\":{},\"capped\":{},\"guided\":{},\"ops\":{},\"classes\":{},\"samples\":[{}],\"violations\":[{}]}}",
        jstr(prop),
        DEBUG,
        m.evals,
        m.cases,
        m.distinct.len(),
        m.panics,
        m.nviol,
        capped,
        m.guided.as_deref().unwrap_or("null"),
        map(&m.ops),
        map(&m.classes),
        sm.join(","),
        v.join(",")
    );
    match out {
        Some(p) if p == "-" => println!("STATS {s}"),
        Some(p) => std::fs::write(p, s).expect("write stats"),
        None => {
            println!("evals {} cases {} distinct {} panics {} nviol {}", m.evals, m.cases, m.distinct.len(), m.panics, m.nviol);
            for v in &m.viols {
                println!("VIOL {} {} expected {} observed {} unit {}", v.op, v.args, v.expected, v.observed, v.unit);
            }
        }
    }
    if let Some(p) = log {
        std::fs::write(p, &m.log).expect("write log");
    }
    std::process::exit(if m.nviol > 0 { 1 } else { 0 });
}

// Helpers shared by the property monitors -------------------------------------------------------

/// Expected outcomes of one exact result for the operator/wrapping/checked/overflowing/saturating family.
#[derive(Clone, Copy)]
pub struct Fam {
    pub w: W,
    pub ovf: bool,
    pub sat: W,
}
impl Fam {
    pub fn unsigned(x: &Int) -> Fam {
        let ovf = !x.fits_u();
        Fam { w: x.wrap(), ovf, sat: if !ovf { x.wrap() } else if x.neg { ZERO } else { UMAX } }
    }
    pub fn signed(x: &Int) -> Fam {
        let ovf = !x.fits_i();
        Fam { w: x.wrap(), ovf, sat: if !ovf { x.wrap() } else if x.neg { IMIN } else { IMAX } }
    }
    pub fn op(&self) -> Result<W, ()> {
        if self.ovf && DEBUG {
            Err(())
        } else {
            Ok(self.w)
        }
    }
    pub fn wrapping(&self) -> Result<W, ()> {
        Ok(self.w)
    }
    pub fn checked(&self) -> Result<Option<W>, ()> {
        Ok(if self.ovf { None } else { Some(self.w) })
    }
    pub fn overflowing(&self) -> Result<(W, bool), ()> {
        Ok((self.w, self.ovf))
    }
    pub fn saturating(&self) -> Result<W, ()> {
        Ok(self.sat)
    }
}
pub fn big(w: W) -> bool {
    // neither a small non-negative nor a small negative value
    !((w.0 == 0 && w.1 >> 64 == 0) || (w.0 == !0 && w.1 >> 64 == u64::MAX as u128))
}
