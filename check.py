#!/usr/bin/env python3
"""Decide one property by running its monitor against /repo's working tree.

usage: check.py P01..P22 [quick|thorough]
Exit 0: no violation observed. Exit 1: VIOLATION line printed. Exit 2: the check could not decide.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
MON = os.path.join(VERIF, "mon")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
T0 = time.time()
import hints  # noqa: E402  (tools/hints.py)

# Random cases per build configuration in the quick tier (20 to 40 s each on two cores).
ITERS = {
    "P01": 3000000, "P02": 750000, "P03": 2250000, "P04": 1000000, "P05": 3000000, "P06": 3750000, "P07": 1000000,
    "P08": 1750000, "P09": 5000000, "P10": 3750000, "P11": 625000, "P12": 1000000, "P13": 150000, "P14": 125000,
    "P15": 200000, "P17": 50000, "P19": 2000000, "P20": 1000000, "P21": 25000, "P22": 100000,
}
RULES = {
    "P01": "pairs/triples of 256-bit operands: every power of two +-1 against eleven extreme values (exhaustive part), then random pairs drawn from word patterns (all-zero, all-one, sign-bit, sparse, dense words), near-equal and complementary pairs; nontrivial: at least one operand does not fit 64 bits; distinct by operands",
    "P02": "factor pairs biased to products next to 2^128, 2^255, 2^256 and to extreme words; bases and exponents whose power lies next to the bound; nontrivial: an operand does not fit 64 bits or the exponent exceeds 1; distinct by operands",
    "P03": "dividend/divisor pairs built from chosen quotient digits, hostile normalised divisors (quotient-digit estimates off by one or two), equal and adjacent pairs, powers of two +-1, MIN/-1 and 0 divisors; nontrivial: an operand does not fit 64 bits; distinct by operands",
    "P04": "every amount 0..=255 exhaustively with patterned values, then random values with amounts from 0..=255, multiples of 128/256 +-1, and up to u32::MAX; nontrivial: value does not fit 64 bits and amount is not 0; distinct by (value, amount)",
    "P05": "all single-bit, prefix- and suffix-mask values exhaustively, then patterned random values and pairs; nontrivial: value does not fit 64 bits; distinct by operands",
    "P06": "patterned random values and their word/byte images, plus every single-bit value; nontrivial: value does not fit 64 bits; distinct by value",
    "P07": "pairs of equal, adjacent, one-bit-apart, sign-crossing and random values, and values against u128/i128; nontrivial: operands not both below 2^64; distinct by operands",
    "P08": "every power of two +-1 and bounds of every primitive exhaustively, all 8-bit sources, then patterned random sources; nontrivial: value does not fit 64 bits; distinct by source",
    "P09": "every power of two +- small, all significand/guard/sticky patterns near halfway points and overflow thresholds, then random; nontrivial: value has more bits than the significand; distinct by value",
    "P10": "every exponent with extreme and random fractions, NaN payloads, infinities, subnormals, bounds of the integer types +-1 ulp; nontrivial: magnitude at least 1; distinct by bit pattern",
    "P11": "well-formed numerals of every radix around every bound, with signs, prefixes and leading zeros, all short strings over a hostile alphabet, and mutated numerals; nontrivial: longer than three bytes; distinct by string and radix",
    "P12": "literals of every radix around every bound with separators, mutated literals, all short strings over a hostile alphabet; compile-time crates as well; nontrivial: longer than four bytes; distinct by string",
    "P13": "every flag combination x value class exhaustively, then random (value, spec) pairs; nontrivial: value does not fit 64 bits or the spec is not empty; distinct by (value, spec)",
    "P14": "values of every class through every textual format, mutated and foreign strings, integers of every serde width, floats; nontrivial: not a short string; distinct by input",
    "P15": "values of every class through every binary format, byte strings and sequences of 0 to 40 bytes; nontrivial: more than one byte; distinct by input",
    "P16": "random register-machine histories of 160 operations on six U256 and six I256 registers, one log per build configuration, each replayed on Python integers; every history is non-trivial (it mixes operations of all groups); distinct by final register state",
    "P17": "operand pairs through every implemented operator impl, amounts of every primitive type; nontrivial: operand does not fit 64 bits; distinct by operands",
    "P18": "calls of the whole safe API on extreme and random inputs under Miri (two endiannesses, two pointer widths, debug and release), AddressSanitizer and valgrind; a case is one generated input set; distinct by inputs",
    "P19": "operand pairs of P01-P04 through every public intrinsic, with poisoned output slots and neighbours; nontrivial: operand does not fit 64 bits; distinct by operands",
    "P20": "sequences of 0..=40 values with chosen prefix overflow positions; nontrivial: at least two elements; distinct by sequence",
    "P21": "batches of calls over the whole safe API on inputs that share halves with each other, each call made again in another order, after failing calls and on three threads at once; compound assignments that panic; sinks, serializers and sources that fail at every position; nontrivial: an operand does not fit 64 bits; distinct by input",
    "P22": "calls of the whole safe API with extreme exponents, amounts and operands; texts, byte strings, sequences and widths up to 65536 long or without end, made of zeros, digits, signs, separators; each timed by the CPU clock of its thread, on a 256 KiB stack; nontrivial: an operand does not fit 64 bits, an exponent above 2^20 or a text above 40 bytes; distinct by input",
}
ASSUME = [
    "the reference model (mon/src/model.rs, Nat/Int) and Rust's own primitive integers and floats",
    "rustc 1.90.0 and clang 20 as installed; results hold for the code these compilers produce",
]


def toolchain_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_TARGET_DIR", "MIRIFLAGS", "MIRI_SYSROOT", "RUSTC_WRAPPER", "RUSTC"):
        e.pop(k, None)
    tc = sorted(glob.glob("/root/.rustup/toolchains/1.90*"))
    if tc:
        e["RUSTUP_TOOLCHAIN"] = os.path.basename(tc[-1])
    if os.path.exists("/usr/bin/clang-20"):
        e["CLANG"] = "/usr/bin/clang-20"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


ENV = toolchain_env()


def lto_flags():
    gl = glob.glob("/root/.rustup/toolchains/1.90*/lib/rustlib/x86_64-unknown-linux-gnu/bin/gcc-ld")
    if not gl:
        return None
    return "-Clinker-plugin-lto -Clinker=clang-20 -Clink-arg=-fuse-ld=lld -Clink-arg=-B" + gl[0]


HOST = "x86_64-unknown-linux-gnu"
SANCOV = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Ccodegen-units=1"
# name -> (cargo arguments, profile directory, extra environment)
CONFIGS = {
    "native-debug": ([], "debug", {}),
    "native-release": (["--release"], "release", {}),
    "llvm-debug": (["--features", "llvm"], "debug", {}),
    "llvm-release": (["--release", "--features", "llvm"], "release", {}),
    "llvm-lto": (["--release", "--features", "llvm"], "release", {"RUSTFLAGS": lto_flags() or ""}),
    "native-release-checks": (["--release"], "release", {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}),
    "native-debug-nochecks": ([], "debug", {"CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}),
    # library preconditions of unsafe functions checked in optimised code
    "native-ubchecks": (["--release"], "release", {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zub-checks=yes"}),
    "llvm-ubchecks": (["--release", "--features", "llvm"], "release", {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zub-checks=yes"}),
    # coverage-guided: SanitizerCoverage counters choose which generated cases to vary further
    "guided-debug": (["--features", "guided", "--target", HOST], HOST + "/debug", {"RUSTFLAGS": SANCOV}),
    "guided-release": (["--release", "--features", "guided", "--target", HOST], HOST + "/release", {"RUSTFLAGS": SANCOV}),
    "guided-llvm": (["--release", "--features", "guided,llvm", "--target", HOST], HOST + "/release", {"RUSTFLAGS": SANCOV}),
    "native-O0": ([], "debug", {"CARGO_PROFILE_DEV_OPT_LEVEL": "0"}),
    "native-size-lto": (["--release"], "release", {"CARGO_PROFILE_RELEASE_OPT_LEVEL": "s", "CARGO_PROFILE_RELEASE_LTO": "fat"}),
    "native-cpu": (["--release"], "release", {"RUSTFLAGS": "-Ctarget-cpu=x86-64-v3"}),
}
BASE4 = ["native-debug", "native-release", "llvm-debug", "llvm-release"]


class Undecided(Exception):
    pass


def note(s):
    print("[%6.1fs] %s" % (time.time() - T0, s), flush=True)


def run_proc(cmd, env, timeout, cwd=VERIF):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


def build(cfg, bins, timeout=700):
    args, prof, extra = CONFIGS[cfg]
    env = dict(ENV, **extra)
    td = os.path.join(TARGET, cfg)
    cmd = ["cargo", "build", "-q", "--offline", *args, "--target-dir", td]
    for b in bins:
        cmd += ["--bin", b]
    rc, o, e = run_proc(cmd, env, timeout, MON)
    if rc != 0:
        raise Undecided("build of %s failed:\n%s" % (cfg, "\n".join(x for x in e.splitlines() if not x.startswith("warning"))[-4000:]))
    return os.path.join(td, prof)


def parallel(jobs, workers=8):
    """Run (function, args...) jobs; results in order; the first Undecided is raised after all finished."""
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(f, *a) for f, *a in jobs]
        cf.wait(fs)
        return [f.result() for f in fs]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.hints = hints.hints()
        self.viols = []
        self.stats = {}
        self.notes = {}
        self.evals = self.distinct = 0
        self.samples = []
        self.ops = {}
        self.classes = {}
        self.capped = []

    # -- collecting -----------------------------------------------------------------------------
    def violation(self, cfg, v, cmd=None):
        v = dict(v)
        v["configuration"] = cfg
        if cmd:
            v["replay_cmd"] = cmd
        self.viols.append(v)

    def absorb(self, cfg, st, binpath=None, seed=None):
        self.stats[cfg] = {k: st[k] for k in ("evals", "cases", "distinct", "panics", "nviol", "capped", "guided") if st.get(k) is not None}
        self.evals += st["evals"]
        self.distinct = max(self.distinct, st["distinct"])
        for k, v in st["ops"].items():
            self.ops[k] = self.ops.get(k, 0) + v
        for k, v in st["classes"].items():
            self.classes[k] = self.classes.get(k, 0) + v
        if len(self.samples) < 60:
            self.samples += ["%s: %s" % (cfg, x[:300]) for x in st["samples"][:: max(1, len(st["samples"]) // 12)][:12]]
        if st["capped"] and not st.get("guided"):
            self.capped.append(cfg)
        for v in st["violations"]:
            self.violation(cfg, v, binpath and "%s --seed %d --dict %s --replay %s" % (binpath, seed, self.hints, v["unit"]))

    def fatal(self, cfg, cmd, rc, out, err):
        """A run that ended without statistics."""
        if rc is None:
            raise Undecided("%s did not finish in its time" % cfg)
        m = re.search(r"^HANG (\S+)$", out, re.M)
        if m:
            rep = cmd[:5] + ["--replay", m.group(1)]
            r2, o2, e2 = run_proc(rep, ENV, 120)
            if r2 == 1 and re.search(r"^VIOL ", o2, re.M):
                self.violation(cfg, {"op": "unit " + m.group(1), "args": "", "expected": "no violation", "observed": re.search(r"^VIOL (.*)$", o2, re.M).group(1)[:600], "unit": m.group(1)}, " ".join(rep))
                return
            if r2 is None:
                self.violation(cfg, {"op": "unit " + m.group(1), "args": "", "expected": "every call returns", "observed": "no return within 120 s (case runs in milliseconds)", "unit": m.group(1)}, " ".join(rep))
                return
            raise Undecided("%s was too slow in unit %s" % (cfg, m.group(1)))
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
            r2, o2, e2 = run_proc(cmd, ENV, 600)
            if r2 == rc:
                self.violation(cfg, {"op": "process", "args": "", "expected": "every call returns or unwinds", "observed": "killed by %s; %s" % (signal.Signals(-rc).name, err[-600:]), "unit": "run"}, " ".join(cmd))
                return
        raise Undecided("%s ended with %s: %s" % (cfg, rc, (out + err)[-2000:]))

    def monitor(self, cfg, bindir, iters, threads, max_secs, seed, extra=(), name=None):
        b = os.path.join(bindir, self.prop.lower())
        cfg = name or cfg
        out = os.path.join(TARGET, "out", "%s-%s.json" % (self.prop, cfg))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out):
            os.remove(out)
        cmd = [b, "--seed", str(seed), "--dict", self.hints, "--iters", str(iters), "--threads", str(threads), "--max-secs", str(max_secs), "--out", out, *extra]
        rc, o, e = run_proc(cmd, ENV, max_secs + 240)
        if rc in (0, 1) and os.path.exists(out):
            return cfg, json.load(open(out)), b, seed, None
        return cfg, None, b, seed, (cmd, rc, o, e)

    def run_monitors(self, plan):
        """plan: list of (cfg, bindir, iters, threads, max_secs, seed)."""
        # runs that ended with statistics first
        for cfg, st, b, seed, bad in sorted(parallel([(self.monitor, *p) for p in plan]), key=lambda x: bool(x[4])):
            if bad:
                if not self.viols:  # one is enough, and confirming a hang takes minutes
                    self.fatal(cfg, *bad)
            else:
                self.absorb(cfg, st, b, seed)
                note("%s: %d evaluations, %d distinct, %d panics observed, %d violations" % (cfg, st["evals"], st["distinct"], st["panics"], st["nviol"]))

    # -- the checks -----------------------------------------------------------------------------
    def native(self):
        cfgs = list(BASE4)
        if self.prop == "P05" or self.thorough:
            if lto_flags():
                cfgs.append("llvm-lto")
        if self.thorough:
            cfgs += ["native-release-checks", "native-debug-nochecks", "native-O0", "native-size-lto", "native-cpu"]
        bins = [self.prop.lower()]
        gcfgs = ["guided-debug", "guided-release"] + (["guided-llvm"] if self.thorough else [])
        gprocs, gsecs = (4, 300) if self.thorough else (1, 12)
        dirs = parallel([(build, c, bins) for c in cfgs + gcfgs], 6)
        dirs, gdirs = dirs[:len(cfgs)], dirs[len(cfgs):]
        note("built %d configurations" % len(cfgs + gcfgs))
        n = ITERS[self.prop]
        plan = []
        for k, (c, d) in enumerate(zip(cfgs, dirs)):
            s = self.seed * 1000 + k
            if not self.thorough:
                it = n * 5 if self.prop == "P17" and "release" in c else n
                plan.append((c, d, it, 2, 150, s))
            else:
                plan.append((c, d, n * 400, 1, 240 if k < 5 else 120, s))
        for k, (c, d) in enumerate(zip(gcfgs, gdirs)):
            for j in range(gprocs):
                plan.append((c, d, 10 ** 9, 1, gsecs, self.seed * 1000 + 100 + 10 * k + j, ("--tapes", os.path.join(TARGET, "out", "tape-%s-%s-%d" % (self.prop, c, j))), "%s#%d" % (c, j)))
        self.run_monitors(plan)

    def miri_env(self, target, release, flags=""):
        e = dict(ENV)
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["RUSTFLAGS"] = "--cfg ethnum_verif"
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation " + flags
        e["MIRI_SYSROOT"] = os.path.join(TARGET, "miri-sysroot", target)
        return e

    def miri_setup(self, target):
        e = self.miri_env(target, False)
        d = e["MIRI_SYSROOT"]
        if not os.path.exists(os.path.join(d, "ready")):
            rc, o, er = run_proc(["cargo", "miri", "setup", "--target", target], e, 600, MON)
            if rc != 0:
                raise Undecided("cargo miri setup %s failed: %s" % (target, (o + er)[-1500:]))
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "ready"), "w").close()

    def miri_cmd(self, target, release, binname, args):
        c = ["cargo", "miri", "run", "-q", "--offline", "--target", target, "--target-dir", os.path.join(TARGET, "miri-" + target)]
        if release:
            c.append("--release")
        return c + ["--bin", binname, "--", *args]

    def miri_build(self, target, release, binname):
        """Compile for Miri once (running nothing) so that later runs only interpret."""
        self.miri_setup(target)
        args = ["--iters", "0", "--units", "0", "--bare", "0", "--max-secs", "0", "--plans", "22"]
        rc, o, e = run_proc(self.miri_cmd(target, release, binname, args), self.miri_env(target, release), 600, MON)
        if rc not in (0, 1):
            return (rc, o, e)

    def miri_run(self, target, release, binname, args, flags="", timeout=600):
        cmd = self.miri_cmd(target, release, binname, args + ["--dict", self.hints, "--out", "-"])
        env = self.miri_env(target, release, flags)
        rc, o, e = run_proc(cmd, env, timeout, MON)
        name = "miri-%s%s%s" % (target.split("-")[0], "-release" if release else "", flags and "-" + flags.strip().split("-Zmiri-")[-1])
        st = None
        m = re.search(r"^STATS (\{.*\})$", o, re.M)
        if m:
            st = json.loads(m.group(1))
        ub = re.search(r"^error: (Undefined Behavior|abnormal termination|.*data race|memory leaked|deadlock).*", e, re.M)
        replay = "cd %s && RUSTFLAGS='%s' MIRIFLAGS='%s' %s" % (MON, env["RUSTFLAGS"], env["MIRIFLAGS"], " ".join(cmd).replace("cargo miri", "cargo +nightly miri"))
        if ub and not re.search(r"^error: memory leaked", e, re.M):
            at = re.findall(r"-->\s*(\S+)", e[ub.start():])
            lib = [x for x in re.findall(r"(/repo/src/\S+)", e[ub.start():])]
            return name, None, {"op": "miri", "args": " ".join(args), "expected": "no undefined behaviour", "observed": ub.group(0)[:400] + " at " + ", ".join((lib or at)[:3]), "unit": name, "replay_cmd": replay, "report": e[ub.start():][:4000]}, None
        if st is None:
            return name, None, None, "%s %s ended with %s: %s" % (name, " ".join(args), rc, (o + e)[-2500:])
        return name, st, None, None

    def values_under_miri(self):
        """The property's own monitor on big-endian and 32-bit targets, interpreted."""
        b = self.prop.lower()
        ts = ["s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]
        for t, r in zip(ts, parallel([(self.miri_build, t, False, b) for t in ts])):
            if r:
                raise Undecided("miri build for %s: %s" % (t, (r[1] + r[2])[-2000:]))
        note("built for Miri")
        secs = 240 if self.thorough else 40
        jobs = []
        for k in range(4):
            for t in ts:
                units = (3 if self.thorough else 1) if self.prop not in ("P08", "P11", "P12", "P13") else 0
                a = ["--seed", str(self.seed + 50 + k), "--first", str(k * 100000), "--iters", "100000", "--units", str(units if k == 0 else 0), "--max-secs", str(secs)]
                jobs.append((self.miri_run, t, False, b, a, "", secs + 300))
        got = {}
        for name, st, v, err in parallel(jobs):
            if err:
                raise Undecided(err)
            if v:
                self.viols.append(dict(v, configuration=name))
                continue
            st["capped"] = False
            if name in got:
                for k in ("evals", "cases", "distinct", "panics", "nviol"):
                    st[k] += got[name][k]
            got[name] = st
            self.absorb(name, st)
        note("Miri value runs: " + ", ".join("%s %d evaluations" % (k, v["evals"]) for k, v in got.items()))

    def p12(self):
        self.native()
        import p12_compile
        os.environ.clear()
        os.environ.update(ENV)
        n = 3000 if self.thorough else 500
        runs = 3 if self.thorough else 1
        for k in range(runs):
            r = p12_compile.run(os.path.join(TARGET, "p12c"), self.seed * 10 + k, n)
            if r["error"]:
                if not self.viols:
                    raise Undecided(r["error"])
                return
            for v in r["violations"]:
                self.violation("compile time", v, "%s %s/tools/p12_compile.py %s %d %d" % (sys.executable, VERIF, os.path.join(TARGET, "p12c"), self.seed * 10 + k, n))
            self.evals += r["valid"] + r["invalid"] + r["const_calls"]
            t = self.notes.setdefault("compile_time", {"valid_literals": 0, "invalid_literals": 0, "const_fn_calls": 0})
            t["valid_literals"] += r["valid"]
            t["invalid_literals"] += r["invalid"]
            t["const_fn_calls"] += r["const_calls"]
            self.samples += r["samples"][:8] + r["samples"][-6:]
        note("compile time: %s" % self.notes["compile_time"])

    def p16(self):
        import p16_replay
        cfgs = BASE4 + (["llvm-lto"] if lto_flags() else [])
        if self.thorough:
            cfgs += ["native-release-checks", "native-size-lto", "native-cpu", "native-O0"]
        dirs = parallel([(build, c, ["p16"]) for c in cfgs], 5)
        note("built %d configurations" % len(cfgs))
        n = 24000 if self.thorough else 12000
        logs = {c: os.path.join(TARGET, "out", "p16-%s.log" % c) for c in cfgs}
        for cfg, st, b, seed, bad in parallel([(self.monitor, c, d, n, 2, 400, self.seed, ("--log", logs[c])) for c, d in zip(cfgs, dirs)], 4):
            if bad:
                self.fatal(cfg, *bad)
                logs.pop(cfg)
            else:
                self.absorb(cfg, st, b, seed)
        digest = {c: hashlib.sha256(open(p, "rb").read()).hexdigest() for c, p in logs.items()}
        mode = {c: "debug" if CONFIGS[c][1] == "debug" else "release" for c in logs}
        # One replay per distinct log: identical logs are the same history of results.
        reps = {}
        for c in logs:
            reps.setdefault((mode[c], digest[c]), []).append(c)
        shards = 4 if not self.thorough else 8
        groups = list(reps.items())
        jobs = [(m, logs[cs[0]], k, shards) for (m, _), cs in groups for k in range(shards)]
        with cf.ProcessPoolExecutor(8) as ex:
            out = list(ex.map(replay_shard, jobs))
        tot = {"events": 0, "panics": 0, "histories": 0, "final_states": 0}
        for g, ((m, _), cs) in enumerate(groups):
            rs = out[g * shards:(g + 1) * shards]
            for r in rs:
                for k in tot:
                    tot[k] += r[k]
                for b in r["bad"]:
                    h = b["history"]
                    self.violation(",".join(cs), {"op": b["line"].split(" ")[0], "args": json.dumps(b)[:1500], "expected": b["expected"], "observed": b["line"].split(" ")[-1], "unit": h},
                                   "%s --seed %d --replay %s --log /dev/stdout" % (os.path.join(TARGET, cs[0], CONFIGS[cs[0]][1], "p16"), self.seed, h))
        for m in ("debug", "release"):
            ds = {digest[c] for c in logs if mode[c] == m}
            if len(ds) > 1 and not self.viols:
                raise Undecided("logs of %s configurations differ but each replays correctly" % m)
        self.distinct = sum(r["final_states"] for r in out[:shards])
        self.evals = tot["events"]
        self.notes["replay"] = dict(tot, log_groups=[{"mode": m, "configurations": cs} for (m, _), cs in groups])
        self.notes["logged_events_per_configuration"] = {c: self.stats[c]["evals"] for c in logs}
        self.samples = []
        with open(logs[cfgs[0]] if cfgs[0] in logs else list(logs.values())[0]) as f:
            for k, ln in zip(range(4000), f):
                if k % 400 < 3:
                    self.samples.append(ln.strip()[:200])
        for p in logs.values():
            os.remove(p)
        note("replayed %s" % tot)

    def p18(self):
        targets = [("x86_64-unknown-linux-gnu", False), ("s390x-unknown-linux-gnu", False), ("i686-unknown-linux-gnu", False), ("x86_64-unknown-linux-gnu", True)]
        asan = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers"}

        def asan_build(name, args):
            env = dict(ENV, **asan)
            td = os.path.join(TARGET, "asan-" + name)
            rc, o, e = run_proc(["cargo", "build", "-q", "--offline", "--release", *args, "--target", "x86_64-unknown-linux-gnu", "--target-dir", td, "--bin", "p18"], env, 700, MON)
            if rc != 0:
                raise Undecided("AddressSanitizer build failed: " + e[-2000:])
            return os.path.join(td, "x86_64-unknown-linux-gnu/release/p18")

        def miri_all(ts):
            for t, r in ts:
                x = self.miri_build(t, r, "p18")
                if x:
                    # Undefined behaviour before main is not expected; let the run below classify it.
                    note("miri build %s: %s" % (t, (x[1] + x[2])[-300:]))

        jobs = [(miri_all, [targets[0], targets[3]]), (miri_all, [targets[1]]), (miri_all, [targets[2]]),
                (asan_build, "native", []), (asan_build, "llvm", ["--features", "llvm"]), (build, "llvm-release", ["p18"]), (build, "llvm-debug", ["p18"]), (build, "native-release", ["p18"]),
                (build, "native-ubchecks", ["p18"]), (build, "llvm-ubchecks", ["p18"]), (build, "native-debug", ["p18"])]
        r = parallel(jobs)
        asan_bins = {"native": r[3], "llvm": r[4]}
        plain = {"llvm-release": r[5] + "/p18", "llvm-debug": r[6] + "/p18", "native-release": r[7] + "/p18"}
        note("built")
        S = str(self.seed)
        secs = 300 if self.thorough else 36
        mj = []
        # Every monitor once on the main target, then direct calls on all four.
        parts = [12, 13, 15, 19, 20, 16, 21, 14, 10, 1, 2, 3, 0, 4, 5, 6, 7, 8, 9, 11, 17, 18]
        flagset = [""] if not self.thorough else ["", "-Zmiri-tree-borrows"]
        for fl in flagset:
            for p in parts:
                mj.append((self.miri_run, *targets[0], "p18", ["--seed", S, "--plans", str(p), "--iters", "60" if self.thorough else "2", "--units", "0", "--max-secs", str(secs // 4)], fl, 700))
        if self.thorough:
            for t in targets[1:]:
                for p in parts:
                    mj.append((self.miri_run, *t, "p18", ["--seed", S, "--plans", str(p), "--iters", "20", "--units", "0", "--max-secs", str(secs // 6)], "", 700))
        for k in range(8 if self.thorough else 2):
            mj.append((self.miri_run, *targets[0 if k % 2 else 3], "p18", ["--seed", str(self.seed + 60 + k), "--plans", "21", "--iters", "1"], "-Zmiri-seed=%d" % (self.seed + k), 700))
        for k in range(4 if self.thorough else 2):
            for t in targets:
                mj.append((self.miri_run, *t, "p18", ["--seed", S, "--plans", "22", "--bare", "100000", "--first", str(k * 1000000), "--max-secs", str(secs)], "-Zmiri-symbolic-alignment-check" if k == 1 else "", 700))
        agg = {}

        def asan_run(name, path, it, bare, seed):
            env = dict(ENV, ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0")
            cmd = [path, "--seed", str(seed), "--iters", str(it), "--units", str(it), "--bare", str(bare), "--max-secs", str(secs), "--dict", self.hints, "--out", "-"]
            rc, o, e = run_proc(cmd, env, secs * 25 + 300)
            m = re.search(r"^STATS (\{.*\})$", o, re.M)
            b = re.search(r"ERROR: AddressSanitizer.*", e)
            if b:
                return name, None, {"op": "AddressSanitizer", "args": " ".join(cmd), "expected": "no memory error", "observed": b.group(0)[:300], "unit": name, "replay_cmd": " ".join(cmd), "report": e[b.start():][:4000]}, None
            if not m:
                return (name, None, *self.died(name, cmd, env, rc, o, e))
            return name, json.loads(m.group(1)), None, None

        def plain_run(name, path, it, bare, seed):
            cmd = [path, "--seed", str(seed), "--iters", str(it), "--units", str(it), "--bare", str(bare), "--max-secs", str(secs // 3), "--dict", self.hints, "--out", "-"]
            rc, o, e = run_proc(cmd, ENV, secs * 25 + 300)
            m = re.search(r"^STATS (\{.*\})$", o, re.M)
            b = re.search(r"unsafe precondition.*|misaligned pointer dereference.*|null pointer dereference occurred.*", e)
            if b and not m:
                return name, None, {"op": "unsafe precondition", "args": " ".join(cmd), "expected": "preconditions of unsafe functions hold", "observed": b.group(0)[:300], "unit": name, "replay_cmd": " ".join(cmd), "report": e[-4000:]}, None
            if not m:
                return (name, None, *self.died(name, cmd, ENV, rc, o, e))
            return name, json.loads(m.group(1)), None, None

        def vg_run(name, path, seed):
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", path, "--seed", str(seed), "--iters", "2", "--units", "1", "--bare", "8000" if self.thorough else "1000", "--max-secs", str(secs), "--dict", self.hints, "--out", "-"]
            rc, o, e = run_proc(cmd, ENV, secs * 25 + 300)
            m = re.search(r"^STATS (\{.*\})$", o, re.M)
            if rc == 99:
                b = "\n".join(x for x in e.splitlines() if x.startswith("=="))
                return name, None, {"op": "valgrind", "args": " ".join(cmd), "expected": "no memory error", "observed": b[:300], "unit": name, "replay_cmd": " ".join(cmd), "report": b[:4000]}, None
            if not m:
                return (name, None, *self.died(name, cmd, ENV, rc, o, e))
            return name, json.loads(m.group(1)), None, None

        big = 200000 if self.thorough else 15000
        nj = [(asan_run, "asan-native", asan_bins["native"], big // 50, 2 * big, self.seed + 1), (asan_run, "asan-llvm", asan_bins["llvm"], big // 50, 2 * big, self.seed + 2),
              (vg_run, "valgrind-llvm-release", plain["llvm-release"], self.seed + 3), (vg_run, "valgrind-llvm-debug", plain["llvm-debug"], self.seed + 4), (vg_run, "valgrind-native-release", plain["native-release"], self.seed + 5),
              (plain_run, "ubchecks-native-release", r[8] + "/p18", 4 * big // 100, 8 * big, self.seed + 6), (plain_run, "ubchecks-llvm-release", r[9] + "/p18", 4 * big // 100, 8 * big, self.seed + 7),
              (plain_run, "ubchecks-native-debug", r[10] + "/p18", 4 * big // 100, 8 * big, self.seed + 8)]
        undecided = None
        mism = 0
        for name, st, v, err in parallel(nj + mj):
            if v:
                self.viols.append(dict(v, configuration=name))
            if err:
                undecided = undecided or err
            if st:
                a = agg.setdefault(name, {"runs": 0, "evals": 0, "cases": 0, "distinct": 0, "panics": 0})
                a["runs"] += 1
                for k in ("evals", "cases", "distinct", "panics"):
                    a[k] += st[k]
                mism += st["nviol"]
                for k, x in st["ops"].items():
                    self.ops[k] = self.ops.get(k, 0) + x
                for k, x in st["classes"].items():
                    self.classes[k] = self.classes.get(k, 0) + x
                if len(self.samples) < 60:
                    self.samples += ["%s: %s" % (name, x[:200]) for x in st["samples"][:2]]
        self.evals = sum(a["evals"] for a in agg.values())
        # Inputs differ between instruments only by seed; count the largest instrument's.
        self.distinct = max([a["distinct"] for a in agg.values()] or [0])
        self.notes["instruments"] = agg
        self.notes["value_mismatches_left_to_other_properties"] = mism
        if undecided and not self.viols:
            raise Undecided(undecided)
        note("instruments: " + json.dumps(agg))

    def died(self, name, cmd, env, rc, o, e):
        if rc is not None and rc < 0 and rc != -signal.SIGKILL:
            r2, o2, e2 = run_proc(cmd, env, 600)
            if r2 == rc:
                return {"op": "process", "args": " ".join(cmd), "expected": "no crash", "observed": "killed by %s; %s" % (signal.Signals(-rc).name, e[-500:]), "unit": name, "replay_cmd": " ".join(cmd)}, None
        return None, "%s ended with %s: %s" % (name, rc, (o + e)[-1500:])

    # -- verdict --------------------------------------------------------------------------------
    def run(self):
        undecided = None
        try:
            if self.prop == "P12":
                self.p12()
            elif self.prop == "P16":
                self.p16()
            elif self.prop == "P18":
                self.p18()
            else:
                self.native()
                if self.prop == "P06" or (self.thorough and not self.viols):
                    self.values_under_miri()
        except Undecided as x:
            undecided = str(x)
        expect = json.load(open(os.path.join(VERIF, "tools", "expect.json"))).get(self.prop, {}) if os.path.exists(os.path.join(VERIF, "tools", "expect.json")) else {}
        if not undecided and not self.viols:
            miss = [k for k in expect.get("ops", []) if not self.ops.get(k)] + [k for k in expect.get("classes", []) if not self.classes.get(k)]
            if miss:
                undecided = "not observed in this run: %s" % ", ".join(miss[:20])
        known, new = self.split_known()
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": RULES[self.prop], "samples": self.samples[:60] or ["(none)"],
                "configurations": self.stats, "operations_observed": self.ops, "conditions_observed": self.classes, **self.notes,
            },
            "assumptions": ASSUME, "wall_s": round(time.time() - T0, 1), "violations": len(new), "known_findings": len(known),
        }
        if self.capped:
            ev["coverage"]["stopped_by_time_limit"] = self.capped
        if undecided:
            ev["undecided"] = undecided[:2000]
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for f in sorted({"KNOWN-FINDING: property=%s %s" % (self.prop, k) for k in known}):
            print(f)
        if new:
            path = os.path.join(EVID, "replay-%s.json" % self.prop)
            json.dump(new[:60], open(path, "w"), indent=1)
            for v in new[:4]:
                print("  %s [%s] %s: expected %s, observed %s (unit %s)" % (v["op"], v["configuration"], v["args"][:300], v["expected"][:200], v["observed"][:400], v["unit"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if undecided:
            print("UNDECIDED property=%s: %s" % (self.prop, undecided))
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evals, self.distinct, time.time() - T0))
        return 0

    def split_known(self):
        """known_findings.txt: lines `finding: property=<id> op=<op> args=<exact operands> | <what fails>`."""
        pats = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for ln in open(p):
                m = re.match(r"finding: property=(\S+) op=(.*?) args=(.*?) \| (.*)", ln.strip())
                if m and m.group(1) == self.prop:
                    pats.append(m.groups()[1:])
        known, new = [], []
        for v in self.viols:
            hit = [w for op, args, w in pats if v["op"] == op and v["args"] == args]
            if hit:
                known.append(hit[0])
            else:
                new.append(v)
        return known, new


def replay_shard(job):
    import p16_replay
    mode, path, k, n = job
    h = p16_replay.split(path)
    keys = list(h)
    return p16_replay.replay({x: h[x] for x in keys[k::n]}, mode == "debug")


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(Check(prop, tier, seed).run())
