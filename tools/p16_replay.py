#!/usr/bin/env python3
"""Offline checker for P16 event logs.

Re-executes every recorded history on Python integers (written from the property, not from the crate)
and reports the first event of each history whose recorded outcome is not the specified one.

usage: p16_replay.py LOG debug|release [--only HISTORY]
Prints one JSON object. Exit 0: consistent; 1: inconsistent; 2: not a log.
"""
import json
import struct
import sys
from fractions import Fraction

M = 1 << 256
H = 1 << 255
N = 6
UMAX, IMAX, IMIN = M - 1, H - 1, -H


def s(x):
    x %= M
    return x - M if x >= H else x


def hx(x):
    return "%064x" % (x % M)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def trem(a, b):
    return a - b * tdiv(a, b)


def ediv(a, b):
    r = a % abs(b)
    return (a - r) // b


def flt(x, p, emax, ebits):
    """Bits of the float nearest to the integer x, ties to even."""
    sign = 1 if x < 0 else 0
    x = abs(x)
    if x == 0:
        return 0
    e = x.bit_length() - p
    if e > 0:
        m, low, half = x >> e, x & ((1 << e) - 1), 1 << (e - 1)
        if low > half or (low == half and m & 1):
            m += 1
        if m >> p:
            m >>= 1
            e += 1
    else:
        m = x << -e
    exp = e + p - 1
    if exp > emax:
        bits = ((1 << ebits) - 1) << (p - 1)
    else:
        bits = ((exp + emax) << (p - 1)) | (m & ((1 << (p - 1)) - 1))
    return bits | sign << (p - 1 + ebits)


def unflt(bits, p, emax, ebits, lo, hi):
    sign = bits >> (p - 1 + ebits) & 1
    exp = bits >> (p - 1) & ((1 << ebits) - 1)
    man = bits & ((1 << (p - 1)) - 1)
    if exp == (1 << ebits) - 1:
        return 0 if man else (lo if sign else hi)
    if exp == 0:
        return 0
    e = exp - emax - (p - 1)
    v = man | 1 << (p - 1)
    v = v << e if e >= 0 else v >> -e
    v = -v if sign else v
    return max(lo, min(hi, v))


def b(x):
    return "true" if x else "false"


def low(x, k, signed):
    x %= 1 << k
    return x - (1 << k) if signed and x >> (k - 1) else x


def fit(x, k, signed):
    lo, hi = (-(1 << (k - 1)), (1 << (k - 1)) - 1) if signed else (0, (1 << k) - 1)
    return str(x) if lo <= x <= hi else "err"


def radix(x, r):
    d = "0123456789abcdef"
    o = ""
    while True:
        o = d[x % r] + o
        x //= r
        if x == 0:
            return o


def capped_pow(x, k):
    """x**k, or a same-sign stand-in far out of range."""
    if abs(x) <= 1 or k == 0:
        return x ** (k if abs(x) > 1 else (min(k, 2) if k % 2 == 0 else 1)) if k else 1
    if k > 256:
        return (-1) ** (k % 2 if x < 0 else 0) * (1 << 300), pow(x, k, M)
    return x**k


def rev(x, n):
    return int(("%0" + str(n) + "d") % int(bin(x)[2:])[::-1], 2) if n <= 64 else int(bin(x)[2:].zfill(n)[::-1], 2)


def le_min(x):
    """Fewest two's-complement bytes, big endian."""
    if x == 0:
        return b""
    n = 1
    while not -(1 << (8 * n - 1)) <= x < 1 << (8 * n - 1):
        n += 1
    return x.to_bytes(n, "big", signed=True)


class Replay:
    def __init__(self, debug):
        self.debug = debug

    def reset(self):
        self.u = [0] * N
        self.i = [0] * N

    def operator(self, kind, d, exact, wrapped=None):
        """An operator whose overflow panics in debug builds and wraps in release builds."""
        v = (exact if wrapped is None else wrapped) % M
        if kind == "u":
            ok = 0 <= exact <= UMAX
            self.u[d] = v
        else:
            ok = IMIN <= exact <= IMAX
            self.i[d] = s(v)
        return hx(v) if ok or not self.debug else "PANIC"

    def shift(self, kind, d, x, n, left):
        k = n % 256
        v = x << k if left else x >> k
        if kind == "u":
            self.u[d] = v % M
        else:
            self.i[d] = s(v)
        return hx(v) if 0 <= n <= 255 or not self.debug else "PANIC"

    def put(self, kind, d, v):
        if kind == "u":
            self.u[d] = v % M
        else:
            self.i[d] = s(v)
        return hx(v)

    def inr(self, kind, v):
        return 0 <= v <= UMAX if kind == "u" else IMIN <= v <= IMAX

    def step(self, op, d, a, c, k):
        U, I = self.u, self.i
        kind = op[0]
        R = U if kind == "u" else I
        x, y = R[a], R[c]
        n = k & 0xFFFFFFFF
        if op.startswith("id."):
            return "true,true" if op in ("id.serde",) else "true,true,true"
        t = op[1:]
        if t in ("+", "-", "*"):
            return self.operator(kind, d, x + y if t == "+" else x - y if t == "-" else x * y)
        if t in ("+=", "-=", "*="):
            x = R[d]
            return self.operator(kind, d, x + y if t == "+=" else x - y if t == "-=" else x * y)
        if t in ("/", "%", "/=", "%="):
            if len(t) == 2:
                x = R[d]
            div = t[0] == "/"
            if y == 0 or (kind == "i" and x == IMIN and y == -1):
                self.put(kind, d, x if div else 0)
                return "PANIC"
            return self.put(kind, d, tdiv(x, y) if div else trem(x, y))
        if t in ("<<", ">>"):
            return self.shift(kind, d, x, n, t == "<<")
        if t in ("<<=", ">>="):
            return self.shift(kind, d, R[d], n, t == "<<=")
        if op == "u<<u":
            return self.shift("u", d, x, U[c], True)
        if op == "u>>i":
            return self.shift("u", d, x, I[c], False)
        if op == "i<<i":
            return self.shift("i", d, x, I[c], True)
        if op == "i>>u":
            return self.shift("i", d, x, U[c], False)
        if t == "&":
            return self.put(kind, d, x & y)
        if t == "|":
            return self.put(kind, d, x | y)
        if t == "^":
            return self.put(kind, d, x ^ y)
        if t == "!":
            return self.put(kind, d, ~x)
        if t in ("pow", ".cpow", ".spow"):
            e = capped_pow(x, n)
            e, w = e if isinstance(e, tuple) else (e, e % M)
            if t == "pow":
                return self.operator(kind, d, e, w)
            if t == ".cpow":
                return self.put(kind, d, e) if self.inr(kind, e) else "none"
            return self.put(kind, d, max(IMIN, min(IMAX, e)))
        if op == "u+p":
            return self.operator("u", d, x + k)
        if op == "p-u":
            return self.operator("u", d, k - U[a])
        if op == "i*p":
            return self.operator("i", d, x * low(k, 64, True))
        if t in ("sum", "prod"):
            acc, bad = (0, False) if t == "sum" else (1, False)
            for z in R[: c + 1]:
                e = acc + z if t == "sum" else acc * z
                bad = bad or not self.inr(kind, e)
                acc = e % M if kind == "u" else s(e)
            self.put(kind, d, acc)
            return "PANIC" if bad and self.debug else hx(acc)
        if op == "ineg":
            return self.operator("i", d, -x)
        if op == "iabs":
            return self.operator("i", d, abs(x))
        if t in (".wadd", ".wsub", ".wmul"):
            return self.put(kind, d, x + y if t == ".wadd" else x - y if t == ".wsub" else x * y)
        if t in (".cadd", ".csub", ".cmul", ".oadd", ".osub", ".omul", ".sadd", ".ssub", ".smul"):
            f = t[2:]
            e = x + y if f == "add" else x - y if f == "sub" else x * y
            ok = self.inr(kind, e)
            if t[1] == "c":
                return self.put(kind, d, e) if ok else "none"
            if t[1] == "o":
                return self.put(kind, d, e) + "," + b(not ok)
            lo, hi = (0, UMAX) if kind == "u" else (IMIN, IMAX)
            return self.put(kind, d, max(lo, min(hi, e)))
        if t in (".cdiv", ".crem"):
            if y == 0 or (kind == "i" and x == IMIN and y == -1):
                return "none"
            return self.put(kind, d, tdiv(x, y) if t == ".cdiv" else trem(x, y))
        if t in (".ushl", ".ushr"):
            v = x << n % 256 if t == ".ushl" else x >> n % 256
            return self.put(kind, d, v) + "," + b(n > 255)
        bad = y == 0 or (kind == "i" and x == IMIN and y == -1)
        if t == ".dive":
            if bad:
                self.put(kind, d, x)
                return "PANIC"
            return self.put(kind, d, ediv(x, y))
        if t == ".reme":
            if bad:
                self.put(kind, d, 0)
                return "PANIC"
            return self.put(kind, d, x % abs(y))
        if t == ".divrem":
            return "PANIC" if bad else hx(tdiv(x, y)) + "," + hx(trem(x, y))
        if t == ".divreme":
            return "PANIC" if bad else hx(ediv(x, y)) + "," + hx(x % abs(y))
        if t == ".cdivrem":
            return "none" if bad else hx(tdiv(x, y)) + "," + hx(trem(x, y))
        if t == ".odivreme":
            if y == 0:
                return "PANIC"
            return hx(ediv(x, y)) + "," + hx(x % abs(y)) + "," + b(bad)
        w = x % M
        if op == "u.rotl":
            r = n % 256
            return self.put("u", d, w << r | w >> (256 - r))
        if op == "i.rotr":
            r = n % 256
            return self.put("i", d, w >> r | w << (256 - r))
        if op == "u.swap":
            return self.put("u", d, int.from_bytes(w.to_bytes(32, "big"), "little"))
        if op == "i.rev":
            return self.put("i", d, int(bin(w)[2:].zfill(256)[::-1], 2))
        if op == "u.counts":
            tz = (w & -w).bit_length() - 1 if w else 256
            return "%d,%d,%d" % (bin(w).count("1"), 256 - w.bit_length(), tz)
        if op == "i.counts":
            v = ~w % M
            to = (v & -v).bit_length() - 1 if v else 256
            return "%d,%d,%d" % (256 - bin(w).count("1"), 256 - v.bit_length(), to)
        if op == "u.npow2":
            e = 1 << (x - 1).bit_length() if x > 1 else 1
            return self.put("u", d, e) if e < M else "none"
        if op == "u.lebytes":
            return w.to_bytes(32, "little").hex()
        if op == "i.bebytes":
            return w.to_bytes(32, "big").hex()
        if t == ".cmp":
            return "%d,%s" % ((x > y) - (x < y), b(x == y))
        if op == "u.max":
            return self.put("u", d, max(x, y))
        if op == "i.min":
            return self.put("i", d, min(x, y))
        if t == ".diff":
            return self.put("u", d, abs(x - y))
        if op == "u<-i":
            return self.put("u", d, I[a])
        if op == "i<-u":
            return self.put("i", d, U[a])
        if op == "u<=i":
            return self.put("u", d, I[a]) if I[a] >= 0 else "none"
        if op == "i<=u":
            return self.put("i", d, U[a]) if U[a] <= IMAX else "none"
        if op == "u.prims":
            return "%d,%d,%d" % (low(x, 8, 0), low(x, 64, 1), low(x, 128, 0))
        if op == "i.prims":
            return "%d,%d,%d" % (low(x, 16, 1), low(x, 32, 0), low(x, 128, 1))
        if op == "u.try":
            return ",".join((fit(x, 64, 0), fit(x, 8, 1), fit(x, 128, 0)))
        if op == "i.try":
            return ",".join((fit(x, 64, 1), fit(x, 16, 0), fit(x, 128, 1)))
        if t == ".f64":
            return "%d,%d" % (flt(x, 53, 1023, 11), flt(x, 24, 127, 8))
        if op == "u<-f":
            return self.put("u", d, unflt(k, 53, 1023, 11, 0, UMAX))
        if op == "i<-f":
            return self.put("i", d, unflt(k, 53, 1023, 11, IMIN, IMAX))
        if op == "i<-f32":
            return self.put("i", d, unflt(n, 24, 127, 8, IMIN, IMAX))
        if op == "i<-p":
            return self.put("i", d, low(k, 32, True))
        if op == "u.fmt":
            return "%d|0x%x|0o%o|%s" % (x, x, x, bin(x)[2:])
        if op == "i.fmt":
            z = str(x).rjust(9, "0")
            return "%+d|%s0x%x|%o|%s" % (x, "-" if x < 0 else "", abs(x), w, z)
        if t == ".json":
            return '"%s0x%x"' % ("-" if x < 0 else "", abs(x))
        if op == "i.cbytes":
            return "b" + le_min(x).hex()
        raise KeyError(op)


def split(path):
    """History id -> list of lines, in file order."""
    hist = {}
    cur = None
    with open(path) as f:
        for ln in f:
            ln = ln.rstrip("\n")
            if ln.startswith("H "):
                cur = hist[ln[2:]] = []
            else:
                cur.append(ln)
    return hist


def replay(hist, debug, only=None):
    """Events checked, panics predicted, and the first bad event per history."""
    r = Replay(debug)
    events = panics = 0
    bad = []
    states = set()
    for h, lines in hist.items():
        if only and h != only:
            continue
        r.reset()
        ended = False
        for n, ln in enumerate(lines):
            f = ln.split(" ")
            if f[0] == "E":
                exp = "E %s %s" % (",".join(map(hx, r.u)), ",".join(map(hx, r.i)))
                ended = True
                if ln != exp:
                    bad.append({"history": h, "event": n, "line": ln, "expected": exp})
                break
            if f[0] in ("lu", "li"):
                x, y = f[5].split(",")
                d, e = int(f[1]), int(f[2])
                if f[0] == "lu":
                    r.u[e] = int(y, 16)
                    r.u[d] = int(x, 16)
                else:
                    r.i[e] = s(int(y, 16))
                    r.i[d] = s(int(x, 16))
                continue
            op, d, a, c, k = f[0], int(f[1]), int(f[2]), int(f[3]), int(f[4])
            pre = (list(r.u), list(r.i)) if len(bad) < 3 else None
            exp = r.step(op, d, a, c, k)
            events += 1
            panics += exp == "PANIC"
            if exp != f[5]:
                bad.append({"history": h, "event": n, "line": ln, "expected": exp, "u": [hx(v) for v in pre[0]] if pre else None, "i": [str(v) for v in pre[1]] if pre else None})
                ended = True
                break
        if not ended:
            bad.append({"history": h, "event": len(lines), "line": "", "expected": "end of history"})
        states.add(hash((tuple(r.u), tuple(r.i))))
    return {"events": events, "panics": panics, "histories": len(hist), "final_states": len(states), "bad": bad[:20], "nbad": len(bad)}


if __name__ == "__main__":
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    res = replay(split(sys.argv[1]), sys.argv[2] == "debug", only)
    print(json.dumps(res, indent=1))
    sys.exit(1 if res["nbad"] else 0)
