#!/usr/bin/env python3
"""P12, compile-time half: what int!/uint! literals and const fn calls evaluate to inside rustc.

Generates two crates: one whose literals are all valid (it must compile, and every constant must have the
value Python computes; every const fn must give at compile time what it gives at run time), and one whose
literals are all invalid (each must be reported as an evaluation error at its own line).
usage: p12_compile.py DIR SEED N [--log OUT.json]
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys

M = 1 << 256
H = 1 << 255
UMAX, IMAX, IMIN = M - 1, H - 1, -H
DIG = "0123456789abcdef"
SEPS = ["_", " ", "\t", "\n", "\r\n", "\x0c", "__", " _ ", "\n      "]
ODD = ["-", "+", ".", "g", "G", "z", "/", ":", "@", "`", "\0", "\x0b", "\x7f", "\u00a0", "\u0663", "x", "X", "\u00e9", "\u20ac", "'"]


def spec(s, signed):
    """Value, "bad" (must not compile) or None (unspecified)."""
    neg = False
    if not s:
        return "bad"
    if s[0] == "+" or (signed and s[0] == "-"):
        neg = s[0] == "-"
        s = s[1:]
    rx = {"0b": 2, "0o": 8, "0x": 16}.get(s[:2], 10)
    if rx != 10:
        s = s[2:]
    if not s:
        return "bad"
    ds = [c for c in s if c not in "_ \t\n\r\x0c"]
    if any(c.lower() not in DIG[:rx] or ord(c) > 127 for c in ds):
        return "bad"
    if not ds:
        return None
    v = int("".join(ds), rx)
    v = -v if neg else v
    return v if (IMIN <= v <= IMAX if signed else v <= UMAX) else "bad"


def radix(v, rx, r):
    o = ""
    while True:
        c = DIG[v % rx]
        o = (c.upper() if r.random() < 0.3 else c) + o
        v //= rx
        if not v:
            return o


def value(r):
    k = r.randrange(9)
    if k == 0:
        return r.randrange(300)
    if k == 1:
        return max(0, (1 << r.randrange(257)) + r.randrange(-2, 3))
    if k == 2:
        return UMAX - r.randrange(3)
    if k == 3:
        return UMAX + 1 + r.randrange(3)
    if k == 4:
        return IMAX + r.randrange(-1, 4)
    if k == 5:
        return sum(r.choice([0, 1, (1 << 64) - 1, 1 << 63, r.getrandbits(64)]) << 64 * j for j in range(4))
    if k == 6:
        return r.getrandbits(256 + r.randrange(20))
    if k == 7:
        return 10 ** r.randrange(79) - r.randrange(2)
    return r.getrandbits(r.randrange(1, 257))


def literal(r):
    rx, p = r.choice([(2, "0b"), (8, "0o"), (16, "0x"), (10, ""), (10, ""), (16, "0x")])
    d = radix(value(r), rx, r)
    if r.random() < 0.2:
        d = "0" * r.choice([1, 3, 70]) + d
    if r.random() < 0.5:
        k = r.randrange(1, 9)
        d = "".join(c + (r.choice(SEPS) if r.randrange(k) == 0 else "") for c in d)
        if r.random() < 0.3:
            d = r.choice(SEPS) + d
    s = r.choice(["", "", "+", "-"]) + p + d
    if r.random() < 0.3:
        at = r.randrange(len(s) + 1)
        k = r.randrange(4)
        s = [s[:at], s[at:], s[:at] + r.choice(SEPS) + s[at:], s[:at] + r.choice(ODD) + s[at:]][k]
    return s


def rlit(s):
    return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


HEAD = """#![allow(unused, long_running_const_eval)]
use ethnum::{int, uint, I256, U256};
"""
CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ethnum = { path = "/repo" }
[profile.dev]
debug = 0
incremental = false
"""

WORDS = """
fn wu(x: U256) -> String { let (h, l) = x.into_words(); format!("{h:032x}{l:032x}") }
fn wi(x: I256) -> String { let (h, l) = x.into_words(); format!("{:032x}{:032x}", h as u128, l as u128) }
trait Sh { fn sh(self) -> String; }
impl Sh for U256 { fn sh(self) -> String { wu(self) } }
impl Sh for I256 { fn sh(self) -> String { wi(self) } }
macro_rules! sh { ($($t:ty)*) => {$(impl Sh for $t { fn sh(self) -> String { format!("{self:?}") } })*}; }
sh!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool [u8; 32] (u128, u128) (i128, i128));
/// One const fn applied in a constant and again at run time.
macro_rules! both { ($n:expr; $($name:ident: $t:ty = |$a:ident: $at:ty| $e:expr, $v:expr;)*) => {$({
    const ARG: $at = $v;
    const C: $t = { let $a = ARG; $e };
    static S: $t = { let $a = ARG; $e };
    let c = C.sh();
    let s = S.sh();
    let r = std::panic::catch_unwind(|| { let $a = std::hint::black_box(ARG); let x: $t = $e; x.sh() }).unwrap_or("PANIC".into());
    println!("F {} {} {} {} {}", stringify!($name), $n, c.replace(' ', ""), s.replace(' ', ""), r.replace(' ', ""));
})*}; }
"""


def fns(k, u, i):
    uw = "(0x%x, 0x%x)" % (u >> 128, u & (1 << 128) - 1)
    iw = "(0x%x_u128 as i128, 0x%x_u128 as i128)" % (i >> 128, i & (1 << 128) - 1)
    UA, IA = "x: U256", "x: I256"
    L = []
    uv = "{ let (h, l) = %s; U256::from_words(h, l) }" % uw
    iv = "{ let (h, l) = %s; I256::from_words(h, l) }" % iw
    for t in "i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize".split():
        L.append("u_as_%s: %s = |x: U256| x.as_%s(), %s;" % (t, t, t, uv))
        L.append("i_as_%s: %s = |x: I256| x.as_%s(), %s;" % (t, t, t, iv))
    L.append("u_as_i256: I256 = |x: U256| x.as_i256(), %s;" % uv)
    L.append("i_as_u256: U256 = |x: I256| x.as_u256(), %s;" % iv)
    for T, a, v in (("U256", "u", uv), ("I256", "i", iv)):
        P = "u128" if a == "u" else "i128"
        for f, t in [("count_ones", "u32"), ("count_zeros", "u32"), ("swap_bytes", T), ("to_be", T), ("to_le", T), ("into_words", "(%s, %s)" % (P, P))]:
            L.append("%s_%s: %s = |x: %s| x.%s(), %s;" % (a, f, t, T, f, v))
        for f in ("from_be", "from_le"):
            L.append("%s_%s: %s = |x: %s| %s::%s(x), %s;" % (a, f, T, T, T, f, v))
        L.append("%s_new: %s = |x: %s| %s::new(x.as_%s()), %s;" % (a, T, T, T, P, v))
    for f, t in [("reverse_bits", "I256"), ("signum", "I256"), ("signum128", "i128"), ("is_positive", "bool"), ("is_negative", "bool"), ("to_be_bytes", "[u8; 32]"), ("to_le_bytes", "[u8; 32]"), ("to_ne_bytes", "[u8; 32]")]:
        L.append("i_%s: %s = |x: I256| x.%s(), %s;" % (f, t, f, iv))
    for e in ("be", "le", "ne"):
        L.append("i_from_%s_bytes: I256 = |x: I256| I256::from_%s_bytes(x.to_le_bytes()), %s;" % (e, e, iv))
    return "fn f%d() { both!(%d; %s); }" % (k, k, "\n".join(L))


CONSTS = [("U256::ZERO", 0), ("U256::ONE", 1), ("U256::MIN", 0), ("U256::MAX", UMAX), ("I256::ZERO", 0), ("I256::ONE", 1), ("I256::MINUS_ONE", -1), ("I256::MIN", IMIN), ("I256::MAX", IMAX)]


def cargo(d, args, log):
    env = dict(os.environ)
    env["CARGO_INCREMENTAL"] = "0"
    p = subprocess.run(["cargo", *args, "--offline", "--target-dir", os.path.join(d, "target")], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p


def lines_of(msg, name):
    """Lines of `name` that a compiler message points at, through macro expansion."""
    out = set()

    def span(s):
        while s:
            if s["file_name"].endswith(name):
                out.add(s["line_start"])
            e = s.get("expansion")
            s = e["span"] if e else None

    for s in msg["spans"]:
        span(s)
    for c in msg.get("children", []):
        for s in c["spans"]:
            span(s)
    return out


def messages(p):
    for ln in p.stdout.splitlines():
        if ln.startswith("{"):
            j = json.loads(ln)
            if j.get("reason") == "compiler-message":
                yield j["target"]["name"], j["message"]


def crate(d, name, src, kind):
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO % name)
    open(os.path.join(d, "src", kind), "w").write(src)
    lock = os.path.join(d, "Cargo.lock")
    if os.path.exists(lock):
        os.remove(lock)


def run(base, seed, n):
    r = random.Random("p12 %d" % seed)
    res = {"violations": [], "error": None, "valid": 0, "invalid": 0, "const_calls": 0, "panics": 0, "samples": [], "distinct": 0}
    good, bad, seen = [], [], set()
    fixed = ["0", "-0", "+0", "0x0", "0b1", "0o7", str(UMAX), str(UMAX + 1), str(IMAX), str(IMAX + 1), str(IMIN), str(IMIN - 1), "0x" + "f" * 64, "0x1" + "0" * 64,
             "-0x8" + "0" * 63, "-0x8" + "0" * 62 + "1", "", "-", "+", "0x", "+0b", "-1", "--1", "+-1", "0x-1", "0X1", "0B1", "0O1", "1 2", "0b2", "0o8", "9a", "0xg", "_", "_1", "1_", "0b" + "1" * 256, "0b1" + "0" * 256, "0o1" + "7" * 85, "0o2" + "0" * 85]
    while len(good) < n or len(bad) < n // 2:
        s = fixed.pop(0) if fixed else literal(r)
        if len(s) > 420:
            continue
        for signed in (False, True):
            e = spec(s, signed)
            if e is None or (s, signed) in seen:
                continue
            seen.add((s, signed))
            if e == "bad":
                if len(bad) < n // 2:
                    bad.append((s, signed))
            elif len(good) < n:
                good.append((s, signed, e))
    res["distinct"] = len(seen)
    # valid crate
    d = os.path.join(base, "good")
    src = [HEAD, WORDS]
    body = []
    for k, (s, signed, e) in enumerate(good):
        m, t = ("int", "I256") if signed else ("uint", "U256")
        body.append("const G%d: %s = %s!(%s);" % (k, t, m, rlit(s)))
    nv = max(8, n // 16)
    spec_vals = [0, 1, UMAX, IMAX, H, (1 << 128) - 1, 1 << 128, 1 << 127]
    vals = [(spec_vals[k] if k < 8 else value(r) % M, spec_vals[-k % 8] if k < 8 else value(r) % M) for k in range(nv)]
    for k, (u, i) in enumerate(vals):
        body.append(fns(k, u, i))
    body.append("fn main() {\nstd::panic::set_hook(Box::new(|_| {}));")
    body += ['println!("G %d {}", G%d.sh());' % (k, k) for k in range(len(good))]
    for k, (c, v) in enumerate(CONSTS):
        body.append('{ const C: %s = %s; println!("K %d {}", C.sh()); }' % (c[:4], c, k))
    body.append('{ const A: [u8; U256::BITS as usize] = [0; 256]; const B: [u8; I256::BITS as usize] = [0; 256]; }')
    body += ["f%d();" % k for k in range(nv)]
    body.append("}")
    text = "\n".join(src + body) + "\n"
    crate(d, "p12good", text, "main.rs")
    flines = text.split("\n")
    p = cargo(d, ["build", "--message-format=json"], res)
    if p.returncode:
        mine = [m for t, m in messages(p) if t == "p12good" and m["level"] == "error"]
        other = [m for t, m in messages(p) if t != "p12good" and m["level"] == "error"]
        codes = {(m["code"] or {}).get("code") for m in mine}
        if mine and not other and codes & {"E0080", "E0015"}:
            for m in mine:
                if (m["code"] or {}).get("code") in ("E0080", "E0015"):
                    ls = sorted(lines_of(m, "src/main.rs"))
                    at = flines[ls[0] - 1][:300] if ls else "?"
                    res["violations"].append({"op": "valid constant", "args": at, "expected": "compiles", "observed": m["message"][:300], "unit": os.path.join(d, "src/main.rs")})
        else:
            res["error"] = "the crate of valid literals does not build: " + (p.stderr[-2000:] + json.dumps((mine + other)[:1])[:1500])
            return res
    else:
        q = subprocess.run([os.path.join(d, "target/debug/p12good")], stdout=subprocess.PIPE, text=True)
        nf = 0
        for ln in q.stdout.splitlines():
            f = ln.split(" ")
            if f[0] == "G":
                s, signed, e = good[int(f[1])]
                if f[2] != "%064x" % (e % M):
                    res["violations"].append({"op": "int!" if signed else "uint!", "args": repr(s), "expected": "%064x" % (e % M), "observed": f[2], "unit": os.path.join(d, "src/main.rs")})
                elif len(res["samples"]) < 12:
                    res["samples"].append("%s!(%s) -> 0x%s" % ("int" if signed else "uint", rlit(s), f[2]))
                res["valid"] += 1
            elif f[0] == "K":
                c, v = CONSTS[int(f[1])]
                if f[2] != "%064x" % (v % M):
                    res["violations"].append({"op": c, "args": "", "expected": "%064x" % (v % M), "observed": f[2], "unit": d})
                res["const_calls"] += 1
            elif f[0] == "F":
                nf += 1
                res["const_calls"] += 1
                if f[3] != f[5] or f[4] != f[5]:
                    res["violations"].append({"op": "const fn " + f[1], "args": "U256 0x%x / I256 0x%x" % vals[int(f[2])], "expected": "run time: " + f[5], "observed": "const: %s static: %s" % (f[3], f[4]), "unit": os.path.join(d, "src/main.rs")})
        if q.returncode or res["valid"] != len(good) or nf < nv * 40:
            res["error"] = "the crate of valid literals did not run to its end (%s)" % q.returncode
            return res
    # invalid crate
    d2 = os.path.join(base, "bad")
    lines = HEAD.strip().split("\n")
    where = {}
    for k, (s, signed) in enumerate(bad):
        lines.append("pub const B%d: %s = %s!(%s);" % (k, "I256" if signed else "U256", "int" if signed else "uint", rlit(s)))
        where[len(lines)] = (s, signed)
    crate(d2, "p12bad", "\n".join(lines) + "\n", "lib.rs")
    p = cargo(d2, ["build", "--message-format=json"], res)
    hit = set()
    for t, m in messages(p):
        if t != "p12bad" or m["level"] != "error":
            if t != "p12bad" and m["level"] == "error":
                res["error"] = "the library does not build: " + m["message"]
                return res
            continue
        code = (m["code"] or {}).get("code")
        if code is None:
            continue  # "aborting due to N previous errors"
        if code != "E0080":
            res["error"] = "unexpected compiler error in the crate of invalid literals: " + m["message"]
            return res
        hit |= lines_of(m, "src/lib.rs")
    if p.returncode and not hit:
        res["error"] = "no diagnostics from the crate of invalid literals: " + p.stderr[-1500:]
        return res
    for ln, (s, signed) in where.items():
        res["invalid"] += 1
        if ln not in hit:
            res["violations"].append({"op": "invalid " + ("int!" if signed else "uint!"), "args": repr(s), "expected": "does not compile", "observed": "compiles", "unit": os.path.join(d2, "src/lib.rs") + ":%d" % ln})
        elif len(res["samples"]) < 20:
            res["samples"].append("%s!(%s) -> compile error" % ("int" if signed else "uint", rlit(s)))
    return res


if __name__ == "__main__":
    out = run(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    print(json.dumps(out, indent=1))
    sys.exit(2 if out["error"] else 1 if out["violations"] else 0)
