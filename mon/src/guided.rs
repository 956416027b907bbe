//! Coverage-guided search over the choices a generator draws.
//!
//! A case is the sequence of random numbers its generator consumed (its tape). The program is built with
//! SanitizerCoverage's inline counters; a tape whose run lights a new (edge, hit-count class) is kept and
//! later varied. The verdict stays with the monitor's oracle: coverage only chooses what to look at next.
use crate::gen::Rng;
use crate::rt::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

struct Tape {
    pre: Vec<u64>,
    at: usize,
    rec: Vec<u64>,
    on: bool,
}
thread_local! {
    static TAPE: RefCell<Tape> = const { RefCell::new(Tape { pre: vec![], at: 0, rec: vec![], on: false }) };
}
const REC_CAP: usize = 60_000;

/// The next number of the tape, or `fresh` past its end.
pub fn draw(fresh: u64) -> u64 {
    TAPE.with(|t| {
        let t = &mut *t.borrow_mut();
        if !t.on {
            return fresh;
        }
        let v = t.pre.get(t.at).copied().unwrap_or(fresh);
        t.at += 1;
        if t.rec.len() < REC_CAP {
            t.rec.push(v);
        }
        v
    })
}
fn load(pre: Vec<u64>) {
    TAPE.with(|t| *t.borrow_mut() = Tape { pre, at: 0, rec: Vec::new(), on: true });
}
fn take() -> Vec<u64> {
    TAPE.with(|t| {
        let t = &mut *t.borrow_mut();
        t.on = false;
        std::mem::take(&mut t.rec)
    })
}

static mut REGIONS: [(usize, usize); 512] = [(0, 0); 512];
static mut NREG: usize = 0;
/// Called by the instrumentation's module constructors, before main.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (s, n) = (start as usize, stop as usize - start as usize);
    if n > 0 && NREG < 512 && !(0..NREG).any(|k| REGIONS[k].0 == s) {
        REGIONS[NREG] = (s, n);
        NREG += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

fn regions() -> Vec<(usize, usize)> {
    unsafe { (0..NREG).map(|k| REGIONS[k]).collect() }
}
fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

struct Seen {
    regs: Vec<(usize, usize)>,
    map: Vec<u8>,
    /// Per edge: how many cases took it, and the kept case that did so last.
    hits: Vec<u32>,
    by: Vec<u32>,
    /// How many variations were already spent on the edge.
    tries: Vec<u32>,
}
impl Seen {
    fn clear(&self) {
        for &(s, n) in &self.regs {
            unsafe { std::ptr::write_bytes(s as *mut u8, 0, n) };
        }
    }
    /// Fold the counters in; how many (edge, class) pairs were new. `id` is the case's place if it is kept.
    fn fold(&mut self, id: u32) -> u32 {
        let mut new = 0;
        let mut base = 0;
        let mut rare = [0usize; 32];
        let mut nrare = 0;
        for &(s, n) in &self.regs {
            let c = unsafe { std::slice::from_raw_parts(s as *const u8, n) };
            for (k, w) in c.chunks(8).enumerate() {
                if w.iter().all(|x| *x == 0) {
                    continue;
                }
                for (j, x) in w.iter().enumerate() {
                    let b = bucket(*x);
                    if b == 0 {
                        continue;
                    }
                    let e = base + k * 8 + j;
                    self.hits[e] += 1;
                    if b & !self.map[e] != 0 {
                        self.map[e] |= b;
                        self.by[e] = id;
                        new += 1;
                    } else if self.hits[e] < 1000 && nrare < rare.len() {
                        rare[nrare] = e;
                        nrare += 1;
                    }
                }
            }
            base += n;
        }
        if new > 0 {
            for e in &rare[..nrare] {
                self.by[*e] = id;
            }
        }
        new
    }
    /// The edges fewest cases took, with a kept case for each.
    fn rarest(&mut self) -> Vec<u32> {
        let mut v: Vec<(u32, usize)> = (0..self.map.len()).filter(|e| self.map[*e] != 0 && self.by[*e] != u32::MAX).map(|e| (self.hits[e] / 4 + self.tries[e], e)).collect();
        v.sort_unstable();
        v.truncate(16);
        for x in &v {
            self.tries[x.1] += 2000 / 2 / 16;
        }
        v.into_iter().map(|x| self.by[x.1]).collect()
    }
}

fn vary(r: &mut Rng, corpus: &[Vec<u64>], recent: &VecDeque<usize>, rare: &[u32]) -> Vec<u64> {
    let pick = |r: &mut Rng| match r.below(6) {
        0 if !recent.is_empty() => recent[r.below(recent.len() as u64) as usize],
        1..=3 if !rare.is_empty() => (rare[r.below(rare.len() as u64) as usize] as usize).min(corpus.len() - 1),
        _ => r.below(corpus.len() as u64) as usize,
    };
    let mut t = corpus[pick(r)].clone();
    let rounds = if r.bool() { 1 } else { 1 + r.below(4) };
    for _ in 0..rounds {
        if t.is_empty() {
            break;
        }
        let n = t.len() as u64;
        // early choices decide more
        let at = if r.bool() { r.below(n) } else { r.below(n.min(40)) } as usize;
        match r.below(12) {
            0 | 1 | 10 | 11 => t[at] = r.next(),
            2 => t[at] ^= 1 << r.below(64),
            3 => t[at] = t[at].wrapping_add(r.below(5)).wrapping_sub(2),
            4 => t[at] = *r.pick(&[0, !0, 1, 1 << 63, u64::MAX >> 1]),
            5 => t[at] = t[r.below(n) as usize],
            6 => {
                t.truncate(at);
            }
            7 => {
                // the same stretch of another tape
                let o = &corpus[pick(r)];
                let len = 1 + r.below(16) as usize;
                for k in at..(at + len).min(t.len()).min(o.len()) {
                    t[k] = o[k];
                }
            }
            8 => t.insert(at, r.next()),
            _ => {
                t.remove(at);
            }
        }
    }
    t
}

/// The case being run, for the watchdog: `<unit> <tape>`.
static CURRENT: Mutex<(String, Vec<u64>)> = Mutex::new((String::new(), vec![]));
fn write_tape(path: &str, unit: &str, tape: &[u64]) {
    let s: Vec<String> = tape.iter().map(|x| format!("{x:x}")).collect();
    std::fs::write(path, format!("{unit} {}", s.join(" "))).expect("write tape");
}

/// Replay one recorded tape.
pub fn replay(plan: &Plan, m: &mut Mon, path: &str, seed: u64) {
    let t = std::fs::read_to_string(path).expect("tape");
    let (unit, rest) = t.split_once(' ').unwrap_or((t.as_str(), ""));
    load(rest.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect());
    run_unit(plan, m, unit, seed);
    take();
}

pub fn search(plan: &Plan, m: &mut Mon, seed: u64, iters: u64, max_secs: u64, tapes: &str) -> bool {
    let start = std::time::Instant::now();
    let regs = regions();
    assert!(!regs.is_empty(), "MONITOR-ERROR: no coverage counters in this build");
    let total: usize = regs.iter().map(|r| r.1).sum();
    let mut seen = Seen { map: vec![0; total], hits: vec![0; total], by: vec![u32::MAX; total], tries: vec![0; total], regs };
    let mut rare = vec![];
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut recent = VecDeque::new();
    let mut r = Rng::new(seed ^ 0x6d);
    let mut capped = false;
    let (mut execs, mut last_new) = (0u64, 0u64);
    let hang = format!("{tapes}.hang");
    let beat = watchdog(1, move |_| {
        let c = CURRENT.lock().unwrap();
        write_tape(&hang, &c.0, &c.1);
        format!("@{hang}")
    });
    for k in 0..iters {
        if k & 15 == 0 && start.elapsed().as_secs() >= max_secs {
            capped = true;
            break;
        }
        let pre = if corpus.is_empty() || r.chance(1, 5) { vec![] } else { vary(&mut r, &corpus, &recent, &rare) };
        beat[0].1.store(start.elapsed().as_secs(), Ordering::Relaxed);
        beat[0].0.store(k * 2, Ordering::Relaxed);
        let unit = format!("r{k}");
        *CURRENT.lock().unwrap() = (unit.clone(), pre.clone());
        load(pre);
        let before = m.viols.len();
        seen.clear();
        run_unit(plan, m, &unit, seed);
        let new = seen.fold(corpus.len() as u32);
        if k % 2000 == 1999 {
            rare = seen.rarest();
        }
        let rec = take();
        execs += 1;
        if m.viols.len() > before {
            let name = format!("{tapes}.{k}");
            write_tape(&name, &unit, &rec);
            for v in &mut m.viols[before..] {
                v.unit = format!("@{name}");
            }
            if m.viols.len() >= 20 {
                break;
            }
        }
        if new > 0 {
            last_new = k;
            if corpus.len() < 30_000 {
                corpus.push(rec);
                recent.push_back(corpus.len() - 1);
                if recent.len() > 64 {
                    recent.pop_front();
                }
            }
        }
    }
    beat[0].0.store(u64::MAX, Ordering::Relaxed);
    let edges = seen.map.iter().filter(|x| **x != 0).count();
    m.guided = Some(format!("{{\"edges_instrumented\":{total},\"edges_seen\":{edges},\"edge_count_classes_seen\":{},\"corpus\":{},\"executions\":{execs},\"last_new_at\":{last_new}}}", seen.map.iter().map(|x| x.count_ones()).sum::<u32>(), corpus.len()));
    capped
}
