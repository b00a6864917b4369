"""Memory safety of the Python module, which is built with address checking: arguments that do not fit are rejected, nothing else touches
memory that does not belong to the numbers."""
import copy
import ctypes
import itertools
import os
import pickle
import sys
import warnings

import numpy as np

from pykit import Dense, bits, classes, irr, main, packed_len

warnings.simplefilter("ignore")
INT64 = 2 ** 63
FAR = [-INT64, -INT64 + 1, -2 ** 32, -2 ** 31, -100, 100, 2 ** 31, 2 ** 32, 2 ** 62, INT64 - 1, INT64, 2 ** 64 + 1, -2 ** 64]
# sizes that overflow the number of coefficients or cannot be allocated by the allocator at all
HUGE = [4814665733036938099, 2790935979167403062, 5589307981883126629, 2 ** 62, 2 ** 61 - 1, 2 ** 60, INT64 - 2, INT64 - 1]


# the address checker's own record of accessible memory; numpy's accesses are not checked otherwise
try:
    POISONED = ctypes.CDLL(None).__asan_region_is_poisoned
    POISONED.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    POISONED.restype = ctypes.c_void_p
except AttributeError:
    POISONED = None


def outside(v):
    """does the array cover memory that is not allocated?"""
    if POISONED is None or v.size == 0:
        return False
    lo, hi = np.byte_bounds(v) if hasattr(np, "byte_bounds") else np.lib.array_utils.byte_bounds(v)
    return POISONED(lo, hi - lo) is not None


def state(c, seed=0):
    return [0.5 + irr(seed, i) / 64 for i in range(c.len)]


class Explorer:
    def __init__(self, run, hj):
        self.run, self.hj = run, hj

    # --- single calls

    def call(self, what, f):
        run = self.run
        run.doing(what)
        run.count("transitions")
        try:
            return f(), None
        except Exception as e:
            run.count("rejected")
            return None, e
        finally:
            run.count("traces")

    def reject(self, what, f):
        got, e = self.call(what, f)
        if e is None:
            self.run.violation(what, "accepted (result %s): %s" % (str(got)[:60], what))

    def accept(self, what, f):
        got, e = self.call(what, f)
        if e is not None:
            self.run.violation(what, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], what))
        return got

    def sound(self, what, x, c=None):
        """a number is well-formed: all its coefficients can be read"""
        if type(x) not in self.numbers:
            return True
        name, order, fixed = self.numbers[type(x)]
        if order == 0:
            sum(x.d(k) for k in ("a", "b", "c", "missing"))
            repr(x)
            return True
        n = len(x)
        if outside(x.data) or outside(x.g):
            self.run.violation(what, "an array view covers memory outside the number after " + what)
            return False
        d = np.array(x.data)
        ok = 0 <= n <= 128 and (fixed is None or n == fixed) and x.size == n and d.shape == (packed_len(order, n),) and x.g.shape == (n,)
        if ok and order == 2:
            ok = x.hm().shape == (n, n) and x.hm("zeros").shape == (n, n)
        if not ok:
            self.run.violation(what, "malformed number (%d variables, data of shape %s) after %s" % (n, d.shape, what))
        return ok

    def unchanged(self, what, x, d):
        if bits(x.data) != bits(d):
            self.run.violation(what, "a rejected call changed the number: " + what)

    def arguments(self, c):
        run, cls, n = self.run, c.cls, c.n
        d0 = state(c)
        new = lambda: c.make(d0)
        near = list(range(-3, n + 4)) if n <= 5 else [-2, -1, 0, 1, n - 1, n, n + 1, n + 2, 2 * n]
        L = c.label

        def on(what, f, ok):
            """f(x) on a fresh number; must be rejected without a change unless ok"""
            if not run.mine():
                return
            run.count("states")
            x = new()
            if ok:
                self.accept(what, lambda: f(x))
            else:
                self.reject(what, lambda: f(x))
                self.unchanged(what, x, d0)
            self.sound(what, x)

        def make(what, f, ok, size=None):
            if not run.mine():
                return
            run.count("states")
            if ok:
                r = self.accept(what, f)
                for y in r if isinstance(r, (list, tuple)) else [r]:
                    if y is not None and self.sound(what, y) and size is not None and len(y) != size:
                        self.run.violation(what, "%d variables after %s" % (len(y), what))
            else:
                self.reject(what, f)

        # Hessian indices
        if c.order == 2:
            for i in near + FAR:
                for j in near + (FAR if i in (0, n - 1, n) else []):
                    ok = 0 <= i < n and 0 <= j < n
                    on("%s: h(%d, %d)" % (L, i, j), lambda x: x.h(i, j), ok)
                    on("%s: set_h(%d, %d, 2)" % (L, i, j), lambda x: x.set_h(i, j, 2.0), ok)
            for i in FAR:
                on("%s: h(0, %d)" % (L, i), lambda x: x.h(0, i), False)
                on("%s: set_h(0, %d, 2)" % (L, i), lambda x: x.set_h(0, i, 2.0), False)
            # matrices
            for r in range(0, n + 3) if n <= 4 else (0, 1, n - 1, n, n + 1, n * n):
                for q in range(0, n + 3) if n <= 4 else (0, 1, n - 1, n, n + 1, n * n):
                    m = np.full((r, q), 2.0)
                    kinds = [("", m), (" int", m.astype(int)), (" float32", m.astype(np.float32)), (" Fortran", np.asfortranarray(m)),
                             (" strided", np.full((2 * r + 1, 3 * q + 1), 2.0)[: 2 * r: 2, : 3 * q: 3]), (" reversed", m[::-1, ::-1]), (" read-only", ro(m)), (" list", m.tolist())]
                    for k, v in kinds:
                        ok = v_shape(v) == (n, n) if not isinstance(v, list) else r * q > 0 and r == q == n
                        if isinstance(v, list) and not ok and r * q != 0 and (r, q) != (n, n):
                            pass
                        sane = None if r * q == 0 else ok  # empty matrices: every shape without entries may be taken for 0 x 0
                        if n <= 1 and k == " reversed":
                            sane = None if ok else sane
                        for what, f in (("%s: set_hm(%dx%d%s)" % (L, r, q, k), lambda x: x.set_hm(v)), ("%s(1, zeros, %dx%d%s)" % (L, r, q, k), lambda x: cls(1.0, np.zeros(n), v))):
                            if sane is None:
                                if run.mine():
                                    run.count("states")
                                    x = new()
                                    self.call(what, lambda: f(x))
                                    self.sound(what, x)
                            else:
                                on(what, f, sane)
            for shape in [(n * n + 1,), (n + 2,), (n, n, 1), (1, n, n), (n, n, n + 1), ()]:
                if np.prod(shape) == n * n and len(shape) < 3:
                    continue
                on("%s: set_hm of shape %s" % (L, shape), lambda x: x.set_hm(np.full(shape, 2.0)), False)
            for mode in ["", "x", "Full", "ful", "full ", "zero", "ones", None, 0, b"full"]:
                if mode != b"full":
                    on("%s: hm(%r)" % (L, mode), lambda x: x.hm(mode), False)
            for mode in ["full", "zeros"]:
                on("%s: hm(%r)" % (L, mode), lambda x: x.hm(mode), True)
        else:
            for name, a in (("h", (0, 0)), ("set_h", (0, 0, 1.0)), ("h", (0,)), ("set_h", (0, 1.0)), ("hm", ()), ("hm", ("full",)), ("set_hm", (np.zeros((n, n)),))):
                on("%s: %s%r" % (L, name, a if name != "set_hm" else ()), lambda x: getattr(x, name)(*a), False)
        # gradient and coefficients through the views
        for i in near + FAR:
            if i < -n or i >= n:
                on("%s: g[%d]" % (L, i), lambda x: x.g[i], False)
                on("%s: g[%d] = 1" % (L, i), lambda x: x.g.__setitem__(i, 1.0), False)
            if i < -c.len or i >= c.len:
                on("%s: data[%d]" % (L, i), lambda x: x.data[i], False)
                on("%s: data[%d] = 1" % (L, i), lambda x: x.data.__setitem__(i, 1.0), False)
        for name, v in (("g", np.zeros(n + 1)), ("data", np.zeros(c.len + 1)), ("size", 3), ("order", 1), ("is_dynamic", True)):
            on("%s: %s = ..." % (L, name), lambda x: setattr(x, name, v), False)
        on("%s: g[:] = n + 2 values" % L, lambda x: x.g.__setitem__(slice(None), np.zeros(n + 2)), False)
        on("%s: data[:] = too many values" % L, lambda x: x.data.__setitem__(slice(None), np.zeros(c.len + 2)), False)
        # offsets
        for k in range(n + 4):
            v = [0.5] * k
            for kind, o in (("", v), (" tuple", tuple(v)), (" array", np.array(v)), (" int array", np.array([1] * k, dtype=int)), (" strided", np.full(2 * k, 0.5)[::2]), (" reversed", np.full(k, 0.5)[::-1])):
                on("%s: eval(%d offsets%s)" % (L, k, kind), lambda x: x.eval(o), k == n)
        for o in (None, 1.0, "x" * (n or 1), [None] * n if n else None, [[0.5] * n] * 2, {i: 1.0 for i in range(n)} if n else None):
            on("%s: eval(%r)" % (L, o), lambda x: x.eval(o), False)
        # sizes
        if c.dynamic:
            for k in near + FAR + HUGE:
                if k > 100 and k in (2 ** 31, 2 ** 32) and c.order == 1:
                    continue  # could be allocated
                for name in ("resize", "pad_left", "pad_right"):
                    if k > 100 and self.plain is False and not (c.order == 2 and k >= 2 ** 31 or k >= INT64 - 1):
                        continue  # the address checker ends the process in such allocations: see the build without it
                    on("%s: %s(%d)" % (L, name, k), lambda x: getattr(x, name)(k), 0 <= k <= 100 and (name == "resize" or k >= n))
            for k in (None, "1", 1.5, [1], np.array([2])):
                for name in ("resize", "pad_left", "pad_right"):
                    if isinstance(k, np.ndarray):
                        if run.mine():
                            run.count("states")
                            x = new()
                            what = "%s: %s(array of one entry)" % (L, name)
                            self.call(what, lambda: getattr(x, name)(k))
                            self.sound(what, x)
                    else:
                        on("%s: %s(%r)" % (L, name, k), lambda x: getattr(x, name)(k), False)
        big = [k for k in FAR + HUGE if not (k > 100 and c.dynamic and (self.plain is False or c.order == 1 and k in (2 ** 31, 2 ** 32)) and not (c.order == 2 and k >= 2 ** 31 or k >= INT64 - 1))]
        for k in near + big:
            fits = 0 <= k <= 100 if c.dynamic else k == n
            for what, f in (("zero", lambda: cls.zero(k)), ("empty", lambda: cls.empty(k)), ("constant", lambda: cls.constant(2.0, k)), ("", lambda: cls(2.0, k)), ("size=", lambda: cls(f=2.0, size=k))):
                make("%s.%s(%d)" % (L, what, k), f, fits, k)
            for i in near + FAR if k in near else (0, 5):
                make("%s.variable(%d, 2, %d)" % (L, i, k), lambda: cls.variable(i, 2.0, k), fits and 0 <= i < k, k)
        if not c.dynamic:
            for i in near + FAR:
                make("%s.variable(%d, 2)" % (L, i), lambda: cls.variable(i, 2.0), 0 <= i < n, n)
        for k in range(n + 4):
            make("%s.variables(%d values)" % (L, k), lambda: cls.variables([0.5] * k), c.dynamic or k == n, k)
        # data
        for l in list(range(0, 40)) + [c.len - 1, c.len, c.len + 1, 2 * c.len]:
            if l < 0:
                continue
            m = next((m for m in range(l + 2) if packed_len(c.order, m) == l), None)
            fits = m is not None if c.dynamic else l == c.len
            v = [0.5] * l
            for kind, o in (("", v), (" array", np.array(v))):
                if l == 1 and kind == " array":
                    continue  # may be taken for a plain number
                make("%s(%d coefficients%s)" % (L, l, kind), lambda: cls(o), fits, m)

            def unpickled(o):
                y = cls.zero() if not c.dynamic else cls.zero(n)
                y = copy.copy(y)
                f, args, _ = y.__reduce_ex__(2)[:3]
                y = f(*args)
                y.__setstate__(o)
                return y
            make("%s from a state of %d coefficients" % (L, l), lambda: unpickled((v,)), fits, m)
        # gradients
        if c.order == 1:
            for k in range(n + 4):
                make("%s(1, gradient of %d)" % (L, k), lambda: cls(1.0, np.full(k, 2.0)) if k != 1 else cls(f=1.0, g=np.full(k, 2.0)), c.dynamic or k == n, k)
        # operands of another size
        if c.dynamic:
            for m in (0, 1, 2, 3, 4, 7, n + 1):
                if m == n:
                    continue
                o = c.cls.zero(m)
                for what, f in BINARY:
                    on("%s: %s with size %d" % (L, what, m), lambda x: f(x, o), False)
                    on("%s: %s with size %d on the left" % (L, what, m), lambda x: f(copy.copy(o), x), False)
                for perm in set(itertools.permutations("xxo")) | set(itertools.permutations("xoo")):
                    for what, f in (("hypot", lambda a, b, q: a.hypot(b, q)), ("hj.hypot", self.hj.hypot)):
                        on("%s: %s of %s, o of size %d" % (L, what, perm, m), lambda x: f(*[x if p == "x" else o for p in perm]), False)

    # --- arbitrary arguments

    def anything(self, c, depth):
        run, cls, n = self.run, c.cls, c.n
        d0 = state(c) if not c.sparse else [0.5, 1.0, -2.0, 3.0]
        other = Dense(self.hj, "DDScalar", 2, 1)
        menu = [("0", 0), ("-1", -1), ("2.5", 2.5), ("10**30", 10 ** 30), ("nan", float("nan")), ("None", None), ("'full'", "full"), ("'a'", "a"), ("[]", []), ("[1.0]", [1.0]), ("[1.0, 2.0]", [1.0, 2.0]),
                ("zeros(n)", np.zeros(n)), ("zeros((n, n))", np.zeros((n, n))), ("zeros(0)", np.zeros(0)), ("zeros((n + 1, n))", np.zeros((n + 1, n))), ("object array", np.array([None, 1.0], dtype=object)),
                ("1j", 1j), ("{}", {}), ("{'a': 1.0}", {"a": 1.0}), ("x", "self"), ("like", c.make(d0)), ("other", other.make([1.0, 2.0, 3.0])), ("another size", cls.zero(n + 2) if c.dynamic and not c.sparse else 3), ("type", cls), ("slice", slice(None)), ("True", True)]
        skip = {"__class__", "__new__", "__init_subclass__", "__subclasshook__", "__dir__", "__getattribute__", "__setattr__", "__delattr__", "__init__", "__doc__", "__module__", "__sizeof__", "__reduce__", "__reduce_ex__", "__getstate__"}
        names = [a for a in dir(cls) if a not in skip]
        for name in names + ["(constructor)"]:
            probe = c.make(d0)
            for k in range(depth + 1):
                if k and name != "(constructor)" and not callable(getattr(probe, name)):
                    break
                for combo in itertools.product(menu, repeat=k):
                    if not run.mine():
                        continue
                    if name in ("variable", "zero", "empty", "constant", "resize", "pad_left", "pad_right", "(constructor)") and any(m == "10**30" for m, _ in combo):
                        continue
                    what = "%s: %s(%s)" % (c.label, name, ", ".join(m for m, _ in combo))
                    run.count("states")
                    x = c.make(d0)
                    a = [x if isinstance(v, str) and v == "self" else v for _, v in combo]
                    if name == "(constructor)":
                        r, e = self.call(what, lambda: cls(*a))
                    else:
                        f = getattr(x, name)
                        if not callable(f):
                            continue
                        r, e = self.call(what, lambda: f(*a))
                    self.sound(what, x)
                    if type(r) in self.numbers:
                        self.sound(what, r)
                    elif isinstance(r, (list, tuple)):
                        for y in r[:3]:
                            self.sound(what, y)

    def functions(self):
        run, hj = self.run, self.hj
        D2, DD1, D0 = hj.D2Scalar([1.0, 2.0, 3.0]), hj.DD1Scalar([1.0, 2.0, 3.0]), hj.D0Scalar([1.0])
        dyn, dyn2, S = hj.DDScalar.zero(3), hj.DScalar.zero(0), hj.SScalar(1.0, {"a": 1.0})
        items = [("D2", D2), ("DD1", DD1), ("D0", D0), ("DDynamic3", dyn), ("DDynamic0", dyn2), ("S", S), ("1.5", 1.5), ("2", 2), ("None", None), ("'x'", "x"), ("[]", []), ("True", True), ("array", np.zeros(2))]
        for fn in ("f", "d", "dd"):
            f = getattr(hj, fn)
            for k in range(4):
                for combo in itertools.product(items, repeat=k):
                    if not run.mine():
                        continue
                    what = "hj.%s([%s])" % (fn, ", ".join(m for m, _ in combo))
                    run.count("states")
                    self.call(what, lambda: f([v for _, v in combo]))
                    if k == 1:
                        self.call("hj.%s(%s)" % (fn, combo[0][0]), lambda: f(combo[0][1]))
        for order in list(range(-3, 6)) + FAR + [None, "1", 1.5]:
            for count in list(range(0, 20)) + [40]:
                if not run.mine():
                    continue
                run.count("states")
                what = "hj.variables(%d values, order %r)" % (count, order)
                if order in (0, 1, 2):
                    r = self.accept(what, lambda: hj.variables([0.5] * count, order))
                    for y in r or []:
                        self.sound(what, y)
                else:
                    self.reject(what, lambda: hj.variables([0.5] * count, order))
        for a, b in itertools.product(items, repeat=2):
            if run.mine():
                run.count("states")
                self.call("hj.hypot(%s, %s)" % (a[0], b[0]), lambda: hj.hypot(a[1], b[1]))
        for a, b, q in itertools.product(items, repeat=3):
            if run.mine():
                run.count("states")
                self.call("hj.hypot(%s, %s, %s)" % (a[0], b[0], q[0]), lambda: hj.hypot(a[1], b[1], q[1]))

    # --- histories with live views

    def steps(self, c):
        """name, action on the world {x, y, views}; `moves`: x may move to other memory (an enlarging resize)"""
        hj, cls = self.hj, c.cls

        def keep(name):
            def f(w):
                w["views"].append(getattr(w["x"], name))
            return f

        def part(w):
            g = w["x"].g
            w["views"].append(g[::-1])
            w["views"].append(w["x"].data[1:])

        def write(w):
            for k, v in enumerate(w["views"]):
                v[...] = 0.25 + k

        def rebind(w):
            w["x"] = copy.copy(w["x"])

        def drop(w):
            w["x"] = w["y"]
            w["junk"] = [np.zeros(k) for k in range(1, 40)]

        def stmt(text):
            code = compile(text, "step", "exec")

            def f(w):
                ns = {"x": w["x"], "y": w["y"], "np": np, "hj": hj, "pickle": pickle}
                exec(code, ns)
                w["x"], w["y"] = ns["x"], ns["y"]
            return f
        r = [("v = x.g", keep("g"), 0), ("v = x.data", keep("data"), 0), ("v = parts of x", part, 0), ("write v", write, 0), ("x = copy of x", rebind, 0), ("x = y, allocate", drop, 0)]
        for t in ("x += y", "x -= y", "x *= y", "x /= y", "x += x", "x *= x", "x /= x", "x *= 2", "x /= 2", "x += 1", "y += x", "y *= x", "x = x * y", "x = -x", "x = x.sqrt()", "x, y = y, x", "x.f = 3.5", "x.data[:] = 0.5", "x.g[:] = 0.25",
                  "x = pickle.loads(pickle.dumps(x))", "x.__setstate__(([0.5] * len(x.data),))", "x.__init__(1.5)", "x == y", "hj.f([x, y])", "hj.d([x, y])", "x = y", "x.g += y.g", "x.data[:] = y.data"):
            r.append((t, stmt(t), 0))
        if c.order == 2:
            for t in ("x.set_hm(np.ones((len(x), len(x))))", "x.set_hm(y.hm())", "hj.dd([x, y])", "x.set_h(0, 0, 2.0)"):
                r.append((t, stmt(t), 0))
        if c.dynamic:
            for k in (0, 1, 2, 4):
                r.append(("x.resize(%d)" % k, stmt("x.resize(%d)" % k), 1))
            for t in ("x = x.pad_left(3)", "x = x.pad_right(4)", "y = x.pad_right(2)", "x.resize(-1)"):
                r.append((t, stmt(t), 0))
        return r

    def histories(self, c, depth):
        run = self.run
        steps = self.steps(c)
        first_steps = steps
        if depth == 3 and not run.thorough:
            first_steps = [s for s in steps if s[0].startswith("v = ") or s[2] or "pad" in s[0]]
        for h in itertools.product(first_steps, *[steps] * (depth - 1)):
            if not run.mine():
                continue
            # array views do not survive resize(): see the known finding
            names = [s[0] for s in h]
            first = next((i for i, s in enumerate(h) if s[0].startswith("v = ")), None)
            if first is not None and any(s[2] for s in h[first:]):
                run.count("histories_left_to_the_known_finding")
                continue
            what = "%s: %s" % (c.label, "; ".join(names))
            run.doing(what)
            run.count("states")
            w = {"x": c.make(state(c, 1)), "y": c.make(state(c, 2)), "views": []}
            for s in h:
                run.count("transitions")
                try:
                    s[1](w)
                except Exception:
                    run.count("rejected")
                for v in w["views"]:
                    if outside(v):
                        run.violation(what, "an array view refers to memory that does not belong to a number any more, after " + what)
                        break
                    float(v.sum())
                self.sound(what, w["x"])
                self.sound(what, w["y"])
            run.count("traces")
            # views outlive the numbers
            v = w["views"]
            del w
            for a in v:
                if outside(a):
                    run.violation(what, "an array view refers to memory that does not belong to a number any more, after all numbers are gone, after " + what)
                    break
                a[...] = float(a.sum())

    def known(self):
        """histories that are known to fail: each in a process of its own"""
        run = self.run
        for cls, view in itertools.product(("DScalar", "DDScalar"), ("g", "data")):
            if not run.mine():
                continue
            key = "%s: v = x.%s; x.resize(64); read v" % (cls, view)
            run.count("states")
            run.count("transitions")
            run.doing(key)
            x = getattr(self.hj, cls).zero(1)
            v = getattr(x, view)
            x.resize(64)
            run.count("traces")
            if outside(v):
                run.violation(key, "the array refers to freed memory after " + key)


BINARY = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b), ("atan2", lambda a, b: a.atan2(b)), ("arctan2", lambda a, b: a.arctan2(b)), ("hypot", lambda a, b: a.hypot(b))]


def inplace(sym):
    code = compile("a %s b" % sym, "inplace", "exec")

    def f(a, b):
        exec(code, {"a": a, "b": b})
    return f


BINARY += [(s, inplace(s)) for s in ("+=", "-=", "*=", "/=")]


def ro(m):
    m = m.copy()
    m.flags.writeable = False
    return m


def v_shape(v):
    return np.shape(v)


def explore(run, hj):
    e = Explorer(run, hj)
    e.plain = os.environ.get("VERIF_PLAIN") == "1"
    e.numbers = {}
    for order in (1, 2):
        for n in range(17):
            e.numbers[getattr(hj, "D" * order + "%dScalar" % n)] = ("", order, n)
        e.numbers[getattr(hj, "D" * order + "Scalar")] = ("", order, None)
    e.numbers[hj.SScalar] = ("", 0, None)
    cs = classes(hj)
    if e.plain:
        for c in cs:
            if not c.sparse and (c.dynamic or c.n in (0, 1, 2, 5)):
                e.arguments(c)
        return
    for c in cs:
        if not c.sparse:
            e.arguments(c)
    e.functions()
    for c in cs:
        if c.dynamic and c.n not in (0, 2) and not c.sparse:
            continue
        e.anything(c, 2 if run.thorough or c.n == 2 or c.sparse else 1)
    if run.thorough:
        for c in cs:
            if not c.sparse and c.n in (2,):
                e.anything(c, 3)
    for c in cs:
        if c.sparse or c.n > 3 and not run.thorough:
            continue
        e.histories(c, 1)
        e.histories(c, 2)
        if c.n == 2 or run.thorough and c.n in (0, 1, 3):
            e.histories(c, 3)
    e.known()


main(explore)
