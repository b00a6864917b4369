"""Creation of variables and numbers."""
import itertools

import warnings

import numpy as np

from pykit import bits, classes, hidx, irr, main, packed_len, show

warnings.simplefilter("ignore")
SPECIAL = [0.0, -0.0, 1.0, -2.5, 1e-300, -1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 2 ** 53 + 2.0]


def value(i, k):
    return SPECIAL[(i + k) % len(SPECIAL)] if k < 3 else irr(k, i)


class Explorer:
    def __init__(self, run, hj):
        self.run, self.hj = run, hj

    def attempt(self, what, f):
        run = self.run
        run.doing(what)
        run.count("transitions")
        try:
            return f(), None
        except Exception as e:
            return None, e

    def expect(self, what, f, ok):
        """ok: predicate on the result"""
        got, e = self.attempt(what, f)
        if e is not None:
            self.run.violation(what, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], what))
            return None
        self.run.count("traces")
        bad = ok(got)
        if bad:
            self.run.violation(what, bad + " in " + what)
        return got

    def reject(self, what, f):
        got, e = self.attempt(what, f)
        self.run.count("traces")
        self.run.count("rejections")
        if e is None:
            self.run.violation(what, "no error in " + what)
        elif not isinstance(e, (RuntimeError, TypeError, ValueError, IndexError, OverflowError)):
            self.run.violation(what, "unexpected %s in %s" % (type(e).__name__, what))

    # the list of variables for these values
    def is_variables(self, got, values, order, cls=None):
        n = len(values)
        if type(got) is not list or len(got) != n:
            return "expected a list of %d entries, got %r" % (n, got)
        if order == 0:
            for g, v in zip(got, values):
                if type(g) is not float or bits([g]) != bits([v]):
                    return "expected %r got %r" % (v, g)
            return ""
        for i, g in enumerate(got):
            if type(g) is not (cls or type(got[0])):
                return "different types"
            if g.order != order or g.size != n or len(g) != n:
                return "entry %d has order %r and %r variables" % (i, g.order, g.size)
            want = [float(values[i])] + [1.0 if j == i else 0.0 for j in range(n)]
            want += [0.0] * (packed_len(order, n) - len(want))
            if bits(g.data) != bits(want):
                return "entry %d is %s" % (i, show([float(t) for t in g.data]))
            if bits([g.f]) != bits([values[i]]) or bits(g.g) != bits(want[1:1 + n]):
                return "entry %d: f or g" % i
            if order == 2 and bits(g.hm()) != bits(np.zeros((n, n))):
                return "entry %d: Hessian" % i
        # separate objects that work together
        if n:
            for i in range(n):
                got[i].data[:] = irr(70, i)
            for i in range(n):
                if any(t != irr(70, i) for t in got[i].data):
                    return "entries share coefficients"
            s = got[0]
            for g in got[1:]:
                s = s + g
            if s.size != n:
                return "the sum has another size"
        return ""

    def module_variables(self, top):
        hj, run = self.hj, self.run
        for n in range(top + 1):
            for order in (0, 1, 2, None):
                for k in range(6):
                    if not run.mine():
                        continue
                    run.count("states")
                    vals = [value(i, k) for i in range(n)]
                    o = 2 if order is None else order
                    forms = [("list", vals), ("tuple", tuple(vals)), ("array", np.array(vals)), ("object array", np.array(vals, dtype=object)), ("strided", np.repeat(np.array(vals), 2)[::2])]
                    if k == 4:
                        ints = [(i * 7) % 11 - 5 for i in range(n)]
                        forms = [("int list", ints), ("int array", np.array(ints, dtype=int)), ("range", range(n)), ("float32 array", np.array(ints, dtype=np.float32)),
                                 ("mixed", [int(v) if i % 2 else np.float64(v) for i, v in enumerate(ints)])]
                    for name, arg in forms:
                        want = [float(v) for v in arg]
                        what = "hj.variables(%s of %d values variant %d, order %r)" % (name, n, k, order)
                        calls = [("", lambda: hj.variables(arg) if order is None else hj.variables(arg, order))]
                        calls.append((" by keyword", lambda: hj.variables(values=arg) if order is None else hj.variables(order=order, values=arg)))
                        for suffix, f in calls:
                            self.expect(what + suffix, f, lambda got: self.is_variables(got, want, o))
            # invalid orders
            if run.mine():
                for order in [-1, -2, 3, 4, 10, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1, -2 ** 63, 2 ** 64, 1.5, "1", None]:
                    self.reject("hj.variables(%d values, %r)" % (n, order), lambda: hj.variables([1.0] * n, order))
                for bad in [5, 1.0, None, "12", [[1.0]], [None], ["1"], [1j], np.ones((2, 2))]:
                    if isinstance(bad, np.ndarray) and n == 0:
                        continue
                    self.reject("hj.variables(%r)" % (bad,), lambda: hj.variables(bad))

    def is_number(self, c, want):
        def f(x):
            if type(x) is not c.cls or x.size != c.n or len(x) != c.n or len(x.data) != c.len:
                return "got %r with %r variables" % (type(x), getattr(x, "size", None))
            if want is not None and bits(x.data) != bits(want):
                return "expected %s got %s" % (show(want), show([float(t) for t in x.data]))
            return ""
        return f

    def creators(self, c):
        run, C, n, L = self.run, c.cls, c.n, c.label
        zeros = [0.0] * (c.len - 1)
        for f in SPECIAL + [1.5, 3]:
            if not run.mine():
                continue
            run.count("states")
            want = [float(f)] + zeros
            fs = "(%r" % f
            sized = [("constant" + fs + ", n)", lambda: C.constant(f, n)), ("constant" + fs + ", size=n)", lambda: C.constant(f=f, size=n)),
                     ("ctor" + fs + ", n)", lambda: C(f, n)), ("ctor" + fs + ", size=n)", lambda: C(f=f, size=n))]
            if not c.dynamic or n == 0:
                sized += [("constant" + fs + ")", lambda: C.constant(f)), ("ctor" + fs + ")", lambda: C(f)), ("ctor f=" + fs + ")", lambda: C(f=f))]
            for name, call in sized:
                self.expect(L + " " + name, call, self.is_number(c, want))
            for i in range(n):
                v = list(want)
                v[1 + i] = 1.0
                self.expect(L + " variable(%d, %r, n)" % (i, f), lambda: C.variable(i, f, n), self.is_number(c, v))
                self.expect(L + " variable(i=%d, f=%r, size=n)" % (i, f), lambda: C.variable(i=i, f=f, size=n), self.is_number(c, v))
                if not c.dynamic:
                    self.expect(L + " variable(%d, %r)" % (i, f), lambda: C.variable(i, f), self.is_number(c, v))
        if run.mine():
            self.expect(L + " zero(n)", lambda: C.zero(n), self.is_number(c, [0.0] + zeros))
            self.expect(L + " empty(n)", lambda: C.empty(n), self.is_number(c, None))
            self.expect(L + " ctor(size=n)", lambda: C(size=n), self.is_number(c, [0.0] + zeros))
            if not c.dynamic or n == 0:
                self.expect(L + " zero()", lambda: C.zero(), self.is_number(c, [0.0] + zeros))
                self.expect(L + " empty()", lambda: C.empty(), self.is_number(c, None))
                self.expect(L + " ctor()", lambda: C(), self.is_number(c, [0.0] + zeros))
            # invalid sizes and indices
            sizes = [-1, -2, -2 ** 31, -2 ** 63] + ([] if c.dynamic else [n - 1, n + 1, 2 * n + 1, 2 ** 31, 2 ** 62, 2 ** 32 + n])
            for s in sizes:
                for name, call in [("constant", lambda: C.constant(1.0, s)), ("ctor", lambda: C(1.0, s)), ("zero", lambda: C.zero(s)), ("empty", lambda: C.empty(s)),
                                   ("variable", lambda: C.variable(0, 1.0, s))]:
                    self.reject(L + " %s with size %d" % (name, s), call)
            for i in [-1, -2, n, n + 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 62, -2 ** 63, -n - 1]:
                self.reject(L + " variable(%d, 1.0, n)" % i, lambda: C.variable(i, 1.0, n))
                if not c.dynamic:
                    self.reject(L + " variable(%d, 1.0)" % i, lambda: C.variable(i, 1.0))
            for bad in [1.5, "1", None]:
                self.reject(L + " variable(%r, 1.0, n)" % (bad,), lambda: C.variable(bad, 1.0, n))
                self.reject(L + " zero(%r)" % (bad,), lambda: C.zero(bad))
        # class-level variables
        for k in range(5):
            if not run.mine():
                continue
            run.count("states")
            vals = [value(i, k) for i in range(n)]
            for name, arg in [("list", vals), ("tuple", tuple(vals)), ("array", np.array(vals))]:
                self.expect(L + " variables(%s variant %d)" % (name, k), lambda: C.variables(arg), lambda got: self.is_variables(got, vals, c.order, c.cls))
        if run.mine() and not c.dynamic:
            for m in list(range(0, 20)) + [40]:
                if m != n:
                    self.reject(L + " variables(%d values)" % m, lambda: C.variables([1.0] * m))
        # from data
        for k in range(5):
            if not run.mine():
                continue
            run.count("states")
            data = [value(i, k) for i in range(c.len)]
            forms = [("list", data), ("tuple", tuple(data)), ("array", np.array(data)), ("strided", np.repeat(np.array(data), 3)[::3]), ("reversed", np.array(data[::-1])[::-1])]
            if k == 3:
                ints = [(3 * i) % 7 - 3 for i in range(c.len)]
                data = [float(v) for v in ints]
                forms = [("ints", ints), ("int array", np.array(ints)), ("float32", np.array(ints, dtype=np.float32))]
            for name, arg in forms:
                for how, call in [("", lambda: C(arg)), (" by keyword", lambda: C(data=arg))]:
                    x = self.expect(L + " data %s variant %d" % (name, k) + how, call, self.is_number(c, data))
                    if x is not None and isinstance(arg, np.ndarray) and c.len:
                        keep = list(map(float, arg))
                        x.data[:] = 0.5
                        if bits(arg.astype(float)) != bits(keep):
                            run.violation(L + " data " + name + how, "the number shares memory with the array it was made from in " + L + " " + name)
        if run.mine():
            valid = {packed_len(c.order, m) for m in range(80)}
            for m in range(0, c.len + 8):
                if c.dynamic and m in valid:
                    n2 = [q for q in range(80) if packed_len(c.order, q) == m][0]
                    d = [irr(71, i) for i in range(m)]
                    self.expect(L + " data of length %d" % m, lambda: C(d), lambda x: "" if x.size == n2 and bits(x.data) == bits(d) else "size %d" % x.size)
                elif not c.dynamic and m == c.len:
                    pass
                else:
                    self.reject(L + " data of length %d" % m, lambda: C([1.0] * m))
            self.reject(L + " data with None", lambda: C([None] * c.len))
            self.reject(L + " data of strings", lambda: C(["1"] * c.len))

    def arrays(self, c):
        """from a gradient, or from gradient and Hessian"""
        run, C, n, L = self.run, c.cls, c.n, c.label
        g = [irr(80, i) for i in range(n)]
        h = np.array([[irr(81, hidx(n, i, j)) for j in range(n)] for i in range(n)]).reshape(n, n)
        skew = h + np.tril(np.array([[irr(82, i * n + j) for j in range(n)] for i in range(n)]).reshape(n, n), -1)
        upper = np.triu(h)
        pack = [h[i, j] for i in range(n) for j in range(i, n)]
        for f in (1.5, -0.0, 3, float("nan")):
            if not run.mine():
                continue
            run.count("states")
            gs = [("list", g), ("tuple", tuple(g)), ("array", np.array(g)), ("strided", np.repeat(np.array(g), 2)[::2]), ("reversed", np.array(g[::-1])[::-1])]
            if n == 1:
                gs.pop()  # pybind11 does not take a one-element view with a negative stride
            if c.order == 1:
                for name, arg in gs:
                    self.expect(L + " (%r, g %s)" % (f, name), lambda: C(f, arg), self.is_number(c, [float(f)] + g))
                    self.expect(L + " (f=%r, g=%s)" % (f, name), lambda: C(f=f, g=arg), self.is_number(c, [float(f)] + g))
            else:
                big = np.zeros((2 * n, 2 * n))
                big[::2, ::2] = h
                hs = [("C", h.copy()), ("F", np.asfortranarray(h)), ("T", h.T), ("list", h.tolist() if n else h), ("strided", big[::2, ::2]), ("reversed", h[::-1, ::-1].copy()[::-1, ::-1])]
                if n == 1:
                    hs.pop()
                for (name, arg), (hname, harg) in itertools.product(gs, hs):
                    self.expect(L + " (%r, g %s, hm %s)" % (f, name, hname), lambda: C(f, arg, harg), self.is_number(c, [float(f)] + g + pack))
                    self.expect(L + " (f=%r, g=%s, hm=%s)" % (f, name, hname), lambda: C(f=f, g=arg, hm=harg), self.is_number(c, [float(f)] + g + pack))
                for hname, harg in [("with another lower triangle", skew), ("upper triangle only", upper)]:
                    self.expect(L + " (%r, g, hm %s)" % (f, hname), lambda: C(f, g, harg), self.is_number(c, [float(f)] + g + pack))
        # shapes that do not fit
        near = sorted({0, 1, 2, 3, n - 1, n, n + 1, n + 2, 2 * n} & set(range(0, 40)))
        for m in near:
            if not run.mine():
                continue
            G = np.arange(1.0, m + 1)
            if c.order == 1:
                if m == n:
                    continue
                if c.dynamic:
                    self.expect(L + " (1.0, g of length %d)" % m, lambda: C(1.0, G), lambda x: "" if x.size == m and bits(x.g) == bits(G) else "wrong number")
                else:
                    self.reject(L + " (1.0, g of length %d)" % m, lambda: C(1.0, G))
                continue
            for r, q in itertools.product(near, near):
                H = np.ones((r, q))
                what = L + " (1.0, g of length %d, hm %dx%d)" % (m, r, q)
                fits = r == q == m and (c.dynamic or m == n)
                if fits:
                    if 1:
                        self.expect(what, lambda: C(1.0, G, H), lambda x: "" if x.size == m and bits(x.g) == bits(G) and bits(x.hm()) == bits(H) else "wrong number")
                else:
                    self.reject(what, lambda: C(1.0, G, H))

    def sparse(self):
        run, S = self.run, self.hj.SScalar
        for f in SPECIAL + [2, -3]:
            run.count("states")

            def same(names, ds):
                def ok(x):
                    if type(x) is not S or x.size != len(names) or len(x) != len(names) or bits([x.f]) != bits([float(f)]):
                        return "value %r, %r variables" % (x.f, x.size)
                    for k, d in zip(names, ds):
                        if bits([x.d(k)]) != bits([d]):
                            return "derivative %s" % k
                    return "" if x.d("absent") == 0 else "derivative of an absent name"
                return ok
            self.expect("SScalar(%r)" % f, lambda: S(f), same([], []))
            self.expect("SScalar(f=%r)" % f, lambda: S(f=f), same([], []))
            self.expect("SScalar.constant(%r)" % f, lambda: S.constant(f), same([], []))
            self.expect("SScalar.constant(value=%r)" % f, lambda: S.constant(value=f), same([], []))
            for name in ["a", "", "x y", "\u00e4", "1", "a" * 100]:
                self.expect("SScalar.variable(%r, %r)" % (name, f), lambda: S.variable(name, f), same([name], [1.0]))
                self.expect("SScalar.variable(name=%r, value=%r)" % (name, f), lambda: S.variable(name=name, value=f), same([name], [1.0]))
            for k in range(5):
                d = {"n%d" % i: value(i, k) for i in range(k)}
                self.expect("SScalar(%r, %r)" % (f, d), lambda: S(f, d), same(list(d), list(d.values())))
                keep = dict(d)
                self.expect("SScalar(f=%r, d=%r)" % (f, d), lambda: S(f=f, d=d), same(list(d), list(d.values())))
                if str(keep) != str(d):
                    run.violation("SScalar dict", "the dictionary was changed")
        for bad in [("a",), (1.0, 2.0), (1.0, {"a": "b"}), (1.0, {1: 1.0}), (None,)]:
            self.reject("SScalar%r" % (bad,), lambda: S(*bad))


def explore(run, hj):
    e = Explorer(run, hj)
    e.module_variables(100 if run.thorough else 40)
    for c in classes(hj, dyn=(0, 1, 2, 3, 4, 5, 15, 16, 17, 18, 24, 33), sparse=False):
        e.creators(c)
        e.arrays(c)
    if run.mine():
        e.sparse()
    run.sample("hj.variables of 0 to 40 values x orders 0, 1, 2, default x 6 value sets x 5 containers x 2 call forms; every creator of 36 classes; shapes and sizes around the valid ones")


main(explore)
