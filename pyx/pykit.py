"""Exploration kit for the Python module: command line, counters, violations, crash containment, the reference model, classes,
operands."""
import ctypes
import importlib.machinery
import importlib.util
import itertools
import json
import math
import mmap
import os
import signal
import sys
import time

import numpy as np


class Stop(Exception):
    pass


class Run:
    def __init__(self):
        a = sys.argv[1:]
        o = dict(zip(a[::2], a[1::2]))
        self.tier = o.get("--tier", "quick")
        self.out = o.get("--out")
        self.only = o.get("--only")
        self.shard, self.shards = map(int, o.get("--shard", "0/1").split("/"))
        self.module = o["--module"]
        self.oracle = o.get("--oracle")
        self.counters, self.samples, self.violations = {}, [], []
        self.nviol, self.unit, self.reproduced = 0, 0, False
        self.t0 = time.time()
        self.now = mmap.mmap(-1, 1 << 16)
        self.thorough = self.tier == "thorough"
        self.memory = o.get("--memory") == "1"  # only the end of the process counts: the other findings belong to another property

    def mine(self):
        self.unit += 1
        return (self.unit - 1) % self.shards == self.shard

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def doing(self, s):
        """remembers the current call in memory shared with the parent process"""
        b = s.encode()[: (1 << 16) - 8]
        self.now.seek(0)
        self.now.write(len(b).to_bytes(8, "little") + b)

    def violation(self, key, detail=None, fatal=False):
        if self.memory and not fatal:
            return
        self.nviol += 1
        detail = detail or key
        if self.only is not None:
            if key != self.only:
                return
            self.reproduced = True
            self.violations = [{"key": key, "detail": detail}]
            raise Stop
        if len(self.violations) < 20:
            self.violations.append({"key": key, "detail": detail})
        if self.nviol >= 500:
            raise Stop

    def finish(self):
        d = {"shard": self.shard, "units": self.unit, "counters": self.counters, "notes": {}, "samples": self.samples, "violation_count": self.nviol,
             "violations": self.violations, "reproduced": self.reproduced, "wall_s": time.time() - self.t0}
        s = json.dumps(d)
        if self.out:
            with open(self.out, "w") as f:
                f.write(s)
        else:
            print(s)
        return 1 if self.violations else 0


def main(explore):
    """Runs explore(run, hj) in a child process; a crash there is a violation of the call it was executing."""
    run = Run()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            hj = load(run.module)
            try:
                explore(run, hj)
            except Stop:
                pass
            code = run.finish()
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if run.memory:
        run.counters["calls_under_memory_checking"] = 1  # the counters of the child are lost if it ends early
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 1):
        sys.exit(os.WEXITSTATUS(st))
    run.now.seek(0)
    n = int.from_bytes(run.now.read(8), "little")
    what = run.now.read(n).decode(errors="replace")
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) in (66, 67):
        how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "a memory error report"
        try:
            run.violation(what, "the process was ended by %s in %s" % (how, what), fatal=True)
        except Stop:
            pass
        run.finish()
        sys.exit(1)
    sys.stderr.write("last call: " + what + "\n")
    sys.exit(2)


def load(path):
    loader = importlib.machinery.ExtensionFileLoader("hyperjet", path)
    spec = importlib.util.spec_from_file_location("hyperjet", path, loader=loader)
    m = importlib.util.module_from_spec(spec)
    sys.modules["hyperjet"] = m
    loader.exec_module(m)
    return m


# ---- reference ----

class Oracle:
    def __init__(self, path):
        self.lib = ctypes.CDLL(path)
        self.ref = self.lib.hj_ref
        self.ref.restype = ctypes.c_int
        dp = ctypes.POINTER(ctypes.c_double)
        self.ref.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, dp, ctypes.c_double, dp, dp]

    def __call__(self, op, order, n, args, s=0.0):
        """args: packed coefficient lists -> (value, tolerance) lists, or None outside the domain"""
        flat = [t for a in args for t in a]
        ln = packed_len(order, n)
        assert len(flat) % ln == 0
        buf = (ctypes.c_double * len(flat))(*flat)
        val, tol = (ctypes.c_double * ln)(), (ctypes.c_double * ln)()
        r = self.ref(op.encode(), order, n, buf, float(s), val, tol)
        assert r >= 0, op
        return (list(val), list(tol)) if r else None


def packed_len(order, n):
    return 1 + n if order == 1 else (n + 1) * (n + 2) // 2


def hidx(n, i, j):
    if i > j:
        i, j = j, i
    k = 1 + n
    for r in range(i):
        k += n - r
    return k + j - i


def close(got, ref):
    v, t = ref
    return len(got) == len(v) and all(abs(g - w) <= e for g, w, e in zip(got, v, t))


def bits(x):
    """coefficients as raw bytes, so that signs of zeros and NaN payloads count"""
    return np.asarray(x, dtype=np.float64).tobytes()


# ---- classes ----

class Dense:
    def __init__(self, hj, name, order, n):
        self.name, self.order, self.n = name, order, n
        self.cls = getattr(hj, name)
        self.dynamic = not any(c.isdigit() for c in name)
        self.len = packed_len(order, n)
        self.label = name + (" size %d" % n if self.dynamic else "")
        self.sparse = False

    def make(self, data):
        return self.cls([float(v) for v in data])

    def read(self, x):
        return [float(v) for v in x.data]

    def fits(self, x):
        return type(x) is self.cls and len(x) == self.n and len(x.data) == self.len


NAMES = ["a", "b", "c"]


class Sparse:
    """order one; a fixed universe of names stands for the variables"""

    def __init__(self, hj, n=3):
        self.name = self.label = "SScalar"
        self.order, self.n = 1, n
        self.cls = hj.SScalar
        self.dynamic = True
        self.len = 1 + n
        self.sparse = True
        self.names = NAMES[:n]

    def make(self, data):
        return self.cls(float(data[0]), {k: float(v) for k, v in zip(self.names, data[1:])})

    def read(self, x):
        return [x.f] + [x.d(k) for k in self.names]

    def fits(self, x):
        return type(x) is self.cls and len(x) == self.n


def classes(hj, dyn=(0, 1, 2, 3, 5, 17), sparse=True):
    r = []
    for order in (1, 2):
        p = "D" * order
        for n in range(17):
            r.append(Dense(hj, "%s%dScalar" % (p, n), order, n))
        for n in dyn:
            r.append(Dense(hj, p + "Scalar", order, n))
    if sparse:
        r.append(Sparse(hj))
    return r


def irr(k, i):
    z = ((k * 1000003 + i * 7919 + 12345) * 0x9E3779B97F4A7C15) & (2 ** 64 - 1)
    z ^= z >> 31
    z = z * 0xBF58476D1CE4E5B9 & (2 ** 64 - 1)
    z ^= z >> 29
    v = z % 2001 - 1000
    return (v or 7) / 256.0


def patterns(c, k, full):
    """derivative patterns for k operands: lists of k coefficient lists with the value slot zero"""
    ln, n = c.len, c.n
    blank = lambda: [[0.0] * ln for _ in range(k)]
    dense = [[0.0] + [irr(o, i) for i in range(1, ln)] for o in range(k)]
    yield dense
    if n == 0:
        return
    yield blank()
    for o in range(k):
        p = blank()
        p[o] = [0.0] + [irr(o + 3, i) for i in range(1, ln)]
        yield p
        if c.order == 2:
            p = blank()
            p[o][1:n + 1] = [irr(o + 5, i) for i in range(n)]
            yield p
            p = blank()
            p[o][n + 1:] = [irr(o + 7, i) for i in range(ln - n - 1)]
            yield p
    ix = [i for i in range(n) if full or n <= 3 or i in (0, n // 2, n - 1)]
    for o in range(k):
        for i in ix:
            p = blank()
            p[o][1 + i] = 1.0
            yield p
        if c.order == 2:
            for i in ix:
                for j in ix:
                    if i <= j:
                        p = blank()
                        p[o][hidx(n, i, j)] = 1.0
                        yield p
    if c.order == 2:
        for o, o2 in itertools.combinations_with_replacement(range(k), 2):
            for i in ix:
                for j in ix:
                    if o == o2 and j <= i:
                        continue
                    p = blank()
                    p[o][1 + i] = 1.0
                    p[o2][1 + j] = 1.0 if o == o2 else 2.0
                    yield p


def show(d):
    return "[" + ", ".join("%.17g" % v for v in d[:24]) + (", ..." if len(d) > 24 else "") + "]"
