#!/usr/bin/env python3
"""Numbers written in the observed sources, as hints for the workload generators (`--dict`).

They steer operands towards values the code distinguishes; no verdict depends on them. A number that the
committed base list (hints_base.json, from the unchanged tree) does not have is offered more often.
`hints.py --write` rewrites the base list.
"""
import glob
import json
import os
import re
import struct
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "hints_base.json")
REPO = "/repo"
SHARE = 12  # copies of a new number


def numbers():
    out = set()
    files = glob.glob(REPO + "/src/**/*.rs", recursive=True) + glob.glob(REPO + "/intrinsics/**/*.rs", recursive=True)
    for f in sorted(files):
        if "/target/" in f:
            continue
        t = open(f, errors="replace").read()
        t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(\.\d[\d_]*)?([eE][+-]?\d+)?(_?[iuf]\d+|_?[iu]size)?(?!\w)", t):
            n, frac, exp, _ = m.groups()
            s = n.replace("_", "")
            if frac or (exp and not s.startswith("0x")):
                try:
                    v = float(s + (frac or "").replace("_", "") + (exp or ""))
                    out.add(struct.unpack("<Q", struct.pack("<d", v))[0])
                    if abs(v) < 1e38:
                        out.add(struct.unpack("<I", struct.pack("<f", v))[0])
                        if v == int(v):
                            out.add(int(v) % (1 << 128))
                except (ValueError, OverflowError):
                    pass
                continue
            try:
                v = int(s, 0) if s[:2] in ("0x", "0b", "0o") else int(s)
            except ValueError:
                continue
            out.add(v % (1 << 128))
            if v >> 128:
                out.add((v >> 128) % (1 << 128))
        for m in re.finditer(r"b'(\\x[0-9a-fA-F]{2}|\\?.)'", t):
            c = m.group(1)
            out.add(int(c[2:], 16) if c.startswith("\\x") else ord(c[-1]) & 255)
    return out


def hints():
    now = numbers()
    try:
        base = {int(x, 16) for x in json.load(open(BASE))}
    except (OSError, ValueError):
        base = set()
    new = sorted(now - base)[:80]
    old = sorted(now & base)[:400]
    return ",".join("%x" % v for v in old + new * (SHARE if new else 0))


if __name__ == "__main__":
    if "--write" in sys.argv:
        json.dump(["%x" % v for v in sorted(numbers())], open(BASE, "w"))
    h = hints().split(",")
    print(len(h), "hints;", len(set(h)), "distinct")
