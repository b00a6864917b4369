"""Every Python name, operator and numpy function against the reference."""
import itertools
import math
import operator as op
import warnings

import numpy as np

from pykit import Oracle, Sparse, bits, classes, close, irr, main, patterns, show

warnings.simplefilter("ignore")

UNARY = {"SQRT": ["sqrt"], "CBRT": ["cbrt"], "COS": ["cos"], "SIN": ["sin"], "TAN": ["tan"], "ACOS": ["acos", "arccos"], "ASIN": ["asin", "arcsin"],
         "ATAN": ["atan", "arctan"], "COSH": ["cosh"], "SINH": ["sinh"], "TANH": ["tanh"], "ACOSH": ["acosh", "arccosh"], "ASINH": ["asinh", "arcsinh"],
         "ATANH": ["atanh", "arctanh"], "EXP": ["exp"], "LOG": ["log"], "LOG2": ["log2"], "LOG10": ["log10"], "ABS": ["abs"], "RECIP": ["reciprocal"]}


def np_name(m):
    return {"abs": "absolute"}.get(m, m)


def unary_forms():
    r = []
    for o, names in UNARY.items():
        for m in names:
            r.append(("x.%s()" % m, o, lambda x, m=m: getattr(x, m)()))
        m = names[-1]
        f = getattr(np, np_name(m))
        r.append(("np.%s(x)" % m, o, lambda x, f=f: f(x)))
        r.append(("np.%s([x, x])" % m, o, lambda x, f=f: f(np.array([x, x], dtype=object))[1]))
    r.append(("abs(x)", "ABS", abs))
    r.append(("-x", "NEG", op.neg))
    r.append(("np.negative(x)", "NEG", np.negative))
    r.append(("1/x", "RECIP", lambda x: 1 / x))
    return r


BINOPS = [("+", "ADD", op.add, op.iadd, np.add), ("-", "SUB", op.sub, op.isub, np.subtract), ("*", "MUL", op.mul, op.imul, np.multiply),
          ("/", "DIV", op.truediv, op.itruediv, np.true_divide)]


def binary_forms(hj):
    r = []
    for s, o, f, i, u in BINOPS:
        r.append(("x %s y" % s, o, f))
        r.append(("np %s" % s, o, u))
        r.append(("[x] %s [y]" % s, o, lambda x, y, f=f: f(np.array([x, x], dtype=object), np.array([y, y], dtype=object))[1]))
        r.append(("[x] %s y" % s, o, lambda x, y, f=f: f(np.array([x, x], dtype=object), y)[1]))
        r.append(("x %s [y]" % s, o, lambda x, y, f=f: f(x, np.array([y, y], dtype=object))[1]))
    r += [("x.atan2(y)", "ATAN2", lambda x, y: x.atan2(y)), ("x.arctan2(y)", "ATAN2", lambda x, y: x.arctan2(y)), ("np.arctan2(x, y)", "ATAN2", np.arctan2),
          ("x.hypot(y)", "HYPOT2", lambda x, y: x.hypot(y)), ("np.hypot(x, y)", "HYPOT2", np.hypot)]
    return r


NUMBERS = [("float", float), ("int", int), ("np.float64", np.float64), ("np.float32", np.float32), ("np.int64", np.int64), ("np.int32", np.int32), ("bool", bool)]


def number_forms():
    """name, operation, function(x, s)"""
    r = []
    for (s, _, f, _, u), right, left in zip(BINOPS, ["ADDS", "SUBS", "MULS", "DIVS"], ["SADD", "SSUB", "SMUL", "SDIV"]):
        r.append(("x %s s" % s, right, f))
        r.append(("s %s x" % s, left, lambda x, s, f=f: f(s, x)))
        r.append(("np x %s s" % s, right, u))
        r.append(("np s %s x" % s, left, lambda x, s, u=u: u(s, x)))
        r.append(("[x] %s s" % s, right, lambda x, s, f=f: f(np.array([x, x], dtype=object), s)[1]))
        r.append(("s %s [x]" % s, left, lambda x, s, f=f: f(s, np.array([x, x], dtype=object))[1]))
        r.append(("x %s [s, s]" % s, right, lambda x, s, f=f: f(x, np.array([s, s]))[1]))
        r.append(("[s, s] %s x" % s, left, lambda x, s, f=f: f(np.array([s, s]), x)[1]))
    r += [("x ** s", "POW", op.pow), ("pow(x, s)", "POW", lambda x, s: pow(x, s)), ("np.power(x, s)", "POW", np.power),
          ("x.__pow__(s)", "POW", lambda x, s: x.__pow__(s)), ("[x] ** s", "POW", lambda x, s: np.power(np.array([x, x], dtype=object), s)[1]),
          ("x.log(s)", "LOGB", lambda x, s: x.log(s)), ("x.log(base=s)", "LOGB", lambda x, s: x.log(base=s))]
    return r


COMPARE = [("==", op.eq), ("!=", op.ne), ("<", op.lt), (">", op.gt), ("<=", op.le), (">=", op.ge)]

VALUES = [0.0, 0.3, -0.3, 0.75, -0.75, 1.0, -1.0, 1.5, -1.5, 2.75, -2.75, 7.0, 30.0, -30.0]
FEW = [0.0, 0.625, -0.625, 1.5, -2.75, 7.0]
SCALARS = [2.0, 0.5, -1.5, 3.0, 1.0, 0.0, -1.0, -2.0, 10.0]


class Explorer:
    def __init__(self, run, hj):
        self.run, self.hj, self.oracle = run, hj, Oracle(run.oracle)
        self.cache = {}

    def ref(self, c, o, args, s=0.0):
        key = (o, c.order, c.n, tuple(map(tuple, args)), s)
        if key not in self.cache:
            if len(self.cache) > 200000:
                self.cache.clear()
            self.cache[key] = self.oracle(o, c.order, c.n, args, s)
        return self.cache[key]

    def check(self, c, form, f, datas, want, extra=()):
        """one transition: f on freshly made operands"""
        run = self.run
        xs = [c.make(d) for d in datas]
        what = "%s: %s with %s%s" % (c.label, form, " ".join(map(show, datas)), "".join(" s=%r(%s)" % (e, type(e).__name__) for e in extra))
        run.doing(what)
        run.count("transitions")
        try:
            got = f(*xs, *extra)
        except Exception as e:
            if want is None:
                run.count("outside_domain")
                return
            run.violation(what, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], what))
            return
        for x, d in zip(xs, datas):
            if bits(c.read(x)) != bits(d):
                run.violation(what, "an operand changed in " + what)
        if not c.fits(got):
            run.violation(what, "the result is %s in %s" % (type(got), what))
            return
        if want is None:
            run.count("outside_domain")
            return
        run.count("traces")
        g = c.read(got)
        if not close(g, want):
            run.violation(what, "expected %s got %s in %s" % (show(want[0]), show(g), what))

    def unary(self, c):
        full = self.run.thorough or c.len <= 15
        forms = unary_forms()
        ps = list(patterns(c, 1, full))
        for k, p in enumerate(ps):
            if not self.run.mine():
                continue
            for v in VALUES if (c.n <= 3 or k < 5 or self.run.thorough) else FEW:
                d = [v] + p[0][1:]
                self.run.count("states")
                for name, o, f in forms:
                    self.check(c, name, f, [d], self.ref(c, o, [d]))

    def numbers(self, c):
        ps = list(patterns(c, 1, False))[: None if self.run.thorough else 6]
        for (name, o, f), p in itertools.product(number_forms(), ps):
            if not self.run.mine():
                continue
            for v in FEW + [2.75]:
                d = [v] + p[0][1:]
                self.run.count("states")
                for s in SCALARS:
                    for tn, t in NUMBERS:
                        if float(t(s)) != s:
                            continue
                        if tn != "float" and p is not ps[0]:
                            continue
                        if o == "POW" and v == 0 and s < 0:
                            continue
                        if o in ("DIVS", "SDIV") and (s if o == "DIVS" else v) == 0:
                            continue
                        if tn == "bool" and "-" in name:
                            continue
                        self.check(c, name, f, [d], self.ref(c, o, [d], s), (t(s),))

    def binary(self, c):
        full = self.run.thorough or c.len <= 6
        forms = binary_forms(self.hj)
        forms += self.module_hypot(c)
        for p in patterns(c, 2, full):
            if not self.run.mine():
                continue
            for v, w in itertools.product(FEW, FEW):
                d, e = [v] + p[0][1:], [w] + p[1][1:]
                self.run.count("states")
                for name, o, f in forms:
                    self.check(c, name, f, [d, e], self.ref(c, o, [d, e]))

    def same(self, c):
        """the same object on both sides"""
        forms = binary_forms(self.hj) + self.module_hypot(c)
        for p in patterns(c, 1, False):
            if not self.run.mine():
                continue
            for v in FEW:
                d = [v] + p[0][1:]
                for name, o, f in forms:
                    self.check(c, name + " y is x", lambda x, f=f: f(x, x), [d], self.ref(c, o, [d, d]))
                self.check(c, "np.square(x)", np.square, [d], self.ref(c, "MUL", [d, d]))
                for k, (a, b) in enumerate([("x", "x"), ("x", "y"), ("y", "x")]):
                    e = [1.25 - v] + [irr(20, i) for i in range(1, c.len)]
                    if k == 0 and not c.sparse:
                        self.check(c, "hj.hypot(x, x, x)", lambda x: self.hj.hypot(x, x, x), [d], self.ref(c, "HYPOT3", [d, d, d]))
                    elif k == 1:
                        self.check(c, "x.hypot(x, y)", lambda x, y: x.hypot(x, y), [d, e], self.ref(c, "HYPOT3", [d, d, e]))
                    else:
                        self.check(c, "x.hypot(y, x)", lambda x, y: x.hypot(y, x), [d, e], self.ref(c, "HYPOT3", [d, e, d]))

    def ternary(self, c):
        forms = [("x.hypot(y, z)", lambda x, y, z: x.hypot(y, z)), ("hj.hypot(x, y, z)", lambda x, y, z: self.hj.hypot(x, y, z))]
        if c.sparse:
            forms = forms[:1]
        for p in patterns(c, 3, c.len <= 6):
            if not self.run.mine():
                continue
            for vs in itertools.product([0.0, 0.625, -2.75], repeat=3):
                ds = [[v] + q[1:] for v, q in zip(vs, p)]
                self.run.count("states")
                for name, f in forms:
                    self.check(c, name, f, ds, self.ref(c, "HYPOT3", ds))

    def module_hypot(self, c):
        # not offered for sparse numbers
        return [] if c.sparse else [("hj.hypot(x, y)", "HYPOT2", lambda x, y: self.hj.hypot(x, y))]

    def comparisons(self, c):
        """values only; derivatives do not matter"""
        run = self.run
        vals = [-2.0, -0.0, 0.0, 1.0, 1.5]
        for v, w, k in itertools.product(vals, vals, range(2)):
            d = [v] + [irr(k, i) for i in range(1, c.len)]
            e = [w] + [irr(1, i) for i in range(1, c.len)]
            x, y = c.make(d), c.make(e)
            run.count("states")
            for s, f in COMPARE:
                cases = [("x %s y" % s, f(v, w), lambda: f(x, y)), ("x %s [y]" % s, f(v, w), lambda: f(np.array([x, x], dtype=object), np.array([y, y], dtype=object))[0])]
                for tn, t in NUMBERS:
                    if float(t(w)) != w:
                        continue
                    q = t(w)
                    cases.append(("x %s s:%s" % (s, tn), f(v, w), lambda q=q: f(x, q)))
                    cases.append(("s:%s %s x" % (tn, s), f(w, v), lambda q=q: f(q, x)))
                for name, want, call in cases:
                    what = "%s: %s with %s %s" % (c.label, name, show(d), show(e))
                    run.doing(what)
                    run.count("transitions")
                    run.count("traces")
                    try:
                        got = call()
                    except Exception as ex:
                        run.violation(what, "unexpected %s (%s) in %s" % (type(ex).__name__, str(ex)[:200], what))
                        continue
                    if bool(got) != want:
                        run.violation(what, "expected %s got %r in %s" % (want, got, what))
            for name, f, want in [("np.maximum", np.maximum, max(v, w)), ("np.minimum", np.minimum, min(v, w)), ("max", max, max(v, w)), ("min", min, min(v, w))]:
                what = "%s: %s with %s %s" % (c.label, name, show(d), show(e))
                run.count("transitions")
                got = f(x, y)
                if got.f != want or (v != w and bits(c.read(got)) != bits(d if v == want else e)):
                    run.violation(what, "expected the number with value %r, got %s in %s" % (want, show(c.read(got)), what))

    # ---- programs of in-place statements over names that may refer to the same object ----
    def programs(self, c, depth):
        run = self.run
        names = ["x", "y"]
        alphabet = []
        for s, o, f, i, u in BINOPS:
            for a in names:
                for b in names:
                    alphabet.append(("%s %s= %s" % (a, s, b), a, b, o, i, None))
            so = {"ADD": "ADDS", "SUB": "SUBS", "MUL": "MULS", "DIV": "DIVS"}[o]
            alphabet.append(("x %s= 1.5" % s, "x", None, so, i, 1.5))
            alphabet.append(("x %s= 2 (int)" % s, "x", None, so, i, 2))
        alphabet.append(("x **= 2", "x", None, "POW", op.ipow, 2.0))
        alphabet.append(("y = x", "y", "x", "=", None, None))
        for seq in itertools.product(range(len(alphabet)), repeat=depth):
            if not run.mine():
                continue
            d = [1.5] + [irr(30, i) for i in range(1, c.len)]
            e = [-0.625] + [irr(31, i) for i in range(1, c.len)]
            env = {"x": c.make(d), "y": c.make(e)}
            model = {"x": (d, [0.0] * c.len), "y": (e, [0.0] * c.len)}
            run.count("states")
            text = "%s: x=%s y=%s; " % (c.label, show(d), show(e))
            for k in seq:
                st, a, b, o, f, s = alphabet[k]
                text += st + "; "
                run.doing(text)
                run.count("transitions")
                if o == "=":
                    env["y"] = env["x"]
                    model["y"] = model["x"]
                    continue
                old = env[a]
                before = {n: c.read(env[n]) for n in names}
                args = [before[a]] + ([before[b]] if b else [])
                want = self.oracle(o, c.order, c.n, args, s or 0.0)
                try:
                    new = f(env[a], env[b] if b else s)
                except Exception as ex:
                    if want:
                        run.violation(text, "unexpected %s (%s) in %s" % (type(ex).__name__, str(ex)[:200], text))
                    break
                env[a] = new
                if want is None:
                    run.count("outside_domain")
                    break
                run.count("traces")
                if not c.fits(new) or not close(c.read(new), want):
                    run.violation(text, "expected %s got %s in %s" % (show(want[0]), show(c.read(new)), text))
                    break
                # whoever else holds the old object sees either the old or the new value, all of it
                if old is not new and bits(c.read(old)) not in (bits(args[0]), bits(c.read(new))):
                    run.violation(text, "the object updated in place was left as %s in %s" % (show(c.read(old)), text))
                    break
                o2 = "y" if a == "x" else "x"
                if env[o2] is not old and bits(c.read(env[o2])) != bits(before[o2]):
                    run.violation(text, "%s changed in %s" % (o2, text))
                    break

    # ---- arrays ----
    def arrays(self, c):
        """numpy reductions and products over object arrays"""
        run = self.run

        def R(d):
            return (list(d), 1.0)

        def comb(o, *a, s=0.0):
            r = self.oracle(o, c.order, c.n, [x for x in a], s)
            return r[0] if r else None

        for k in range(4):
            ds = [[0.25 * ((i * 5 + k * 3) % 7) + 0.375] + [irr(40 + k + i, j) for j in range(1, c.len)] for i in range(6)]
            ps = [0.5 * ((i * 3 + k) % 5) - 0.75 for i in range(6)]
            xs = np.array([c.make(d) for d in ds] + [None], dtype=object)[:-1]
            pv = np.array(ps)
            run.count("states")

            def total(v):
                t = v[0]
                for w in v[1:]:
                    t = comb("ADD", t, w)
                return t

            def prod(v):
                t = v[0]
                for w in v[1:]:
                    t = comb("MUL", t, w)
                return t

            mul = lambda i, j: comb("MUL", ds[i], ds[j])
            sub = lambda a, b: comb("SUB", a, b)
            plain = lambda i, j: comb("MULS", ds[i], s=ps[j])
            A, B, u, v, w = xs.reshape(2, 3), pv.reshape(3, 2), xs[:3], xs[3:], pv[:3]
            M = A.reshape(3, 2)
            sq = np.array([[c.make(ds[0]), c.make(ds[1])], [c.make(ds[2]), c.make(ds[3])]], dtype=object)
            cases = [("sum", lambda: xs.sum(), lambda: total(ds)), ("np.sum", lambda: np.sum(A), lambda: total(ds)), ("prod", lambda: xs[:4].prod(), lambda: prod(ds[:4])),
                     ("cumsum", lambda: np.cumsum(xs)[3], lambda: total(ds[:4])), ("mean", lambda: xs[:4].mean(), lambda: comb("DIVS", total(ds[:4]), s=4.0)),
                     ("dot", lambda: u.dot(v), lambda: total([mul(i, i + 3) for i in range(3)])), ("u @ v", lambda: u @ v, lambda: total([mul(i, i + 3) for i in range(3)])),
                     ("dot plain", lambda: u.dot(w), lambda: total([plain(i, i) for i in range(3)])), ("plain @ u", lambda: w @ u, lambda: total([plain(i, i) for i in range(3)])),
                     ("norm", lambda: np.linalg.norm(u), lambda: comb("SQRT", total([mul(i, i) for i in range(3)]))),
                     ("u @ u", lambda: u @ u, lambda: total([mul(i, i) for i in range(3)])),
                     ("sum axis", lambda: A.sum(axis=0)[1], lambda: comb("ADD", ds[1], ds[4])),
                     ("A @ M", lambda: (A @ M)[1, 0], lambda: total([mul(3, 0), mul(4, 2), mul(5, 4)])),
                     ("A @ plain", lambda: (A @ B)[1, 1], lambda: total([plain(3, 1), plain(4, 3), plain(5, 5)])),
                     ("outer", lambda: np.outer(u, v)[1, 2], lambda: mul(1, 5)), ("outer plain", lambda: np.outer(w, u)[2, 1], lambda: plain(1, 2)),
                     ("cross", lambda: np.cross(u, v)[0], lambda: sub(mul(1, 5), mul(2, 4))), ("cross 2", lambda: np.cross(u, v)[2], lambda: sub(mul(0, 4), mul(1, 3))),
                     ("trace", lambda: sq.trace(), lambda: comb("ADD", ds[0], ds[3])),
                     ("sum(list)", lambda: sum(list(u)), lambda: total(ds[:3])),
                     ("einsum", lambda: np.einsum("i,i->", u, v), lambda: total([mul(i, i + 3) for i in range(3)])),
                     ("A * 2", lambda: (A * 2)[1, 2], lambda: comb("MULS", ds[5], s=2.0)), ("A / s", lambda: (A / ps[5])[0, 1], lambda: comb("DIVS", ds[1], s=ps[5]) if ps[5] else None),
                     ("A + plain", lambda: (A + B.reshape(2, 3))[1, 1], lambda: comb("ADDS", ds[4], s=ps[4])),
                     ("A ** 2", lambda: (A ** 2)[1, 1], lambda: comb("MUL", ds[4], ds[4])), ("A.T", lambda: (A.T * 1.0)[2, 1], lambda: ds[5]),
                     ("array +=", lambda: iadd(xs.copy(), pv)[3], lambda: comb("ADDS", ds[3], s=ps[3])),
                     ("array *= x", lambda: imul(np.array([c.make(d) for d in ds[:2]] + [None], dtype=object)[:-1], u[0])[1], lambda: mul(1, 0))]

            def iadd(a, b):
                a += b
                return a

            def imul(a, b):
                a *= b
                return a

            for name, f, g in cases:
                if c.n == 0 and name == "norm" and False:
                    continue
                want = g()
                if want is None:
                    continue
                what = "%s: array %s variant %d" % (c.label, name, k)
                run.doing(what)
                run.count("transitions")
                try:
                    got = f()
                except Exception as ex:
                    run.violation(what, "unexpected %s (%s) in %s" % (type(ex).__name__, str(ex)[:200], what))
                    continue
                run.count("traces")
                if not c.fits(got) or any(abs(a - b) > 1e-10 * (1 + abs(b)) * 10 for a, b in zip(c.read(got), want)):
                    run.violation(what, "expected %s got %s in %s" % (show(want), show(c.read(got)) if c.fits(got) else type(got), what))

    def attributes(self, c):
        run = self.run
        what = c.label + ": attributes"
        run.doing(what)
        d = [irr(50, i) for i in range(c.len)]
        x = c.make(d)
        run.count("transitions")
        ok = x.f == d[0] and type(x.f) is float and x.size == c.n and len(x) == c.n
        if not c.sparse:
            ok &= c.cls.order == c.order and x.order == c.order and bool(c.cls.is_dynamic) == c.dynamic and bool(x.is_dynamic) == c.dynamic
            ok &= bits(x.g) == bits(d[1:1 + c.n])
            y = c.make(d)
            y.f = 4.25
            ok &= bits(c.read(y)) == bits([4.25] + d[1:])
            for k in (2, -3):
                y.f = k
                ok &= bits(c.read(y)) == bits([float(k)] + d[1:])
        if not ok:
            run.violation(what)
        # Taylor evaluation
        for k in range(6):
            off = [irr(60 + k, i) / 4 if k % 3 else float((i + k) % 3 - 1) for i in range(c.n)]
            if k == 5:
                off = [0.0] * c.n
            for form, arg in [("list", off), ("tuple", tuple(off)), ("array", np.array(off)), ("strided", np.array([t for o in off for t in (o, 9.0)])[::2])]:
                what = "%s: eval(%s %s) of %s" % (c.label, form, show(off), show(d))
                run.doing(what)
                run.count("transitions")
                if c.sparse:
                    if form != "list":
                        continue
                    # derivative part for the names given
                    arg = dict(zip(c.names, off))
                    want = math.fsum(g * o for g, o in zip(d[1:], off))
                    alt = d[0] + want
                else:
                    want = [d[0]] + [d[1 + i] * off[i] for i in range(c.n)]
                    if c.order == 2:
                        for i in range(c.n):
                            for j in range(c.n):
                                a, b = min(i, j), max(i, j)
                                pos = 1 + c.n + sum(c.n - r for r in range(a)) + b - a
                                want.append(0.5 * d[pos] * off[i] * off[j])
                    alt = want = math.fsum(want)
                try:
                    got = x.eval(arg)
                except Exception as ex:
                    run.violation(what, "unexpected %s (%s) in %s" % (type(ex).__name__, str(ex)[:200], what))
                    continue
                run.count("traces")
                if abs(got - want) > 1e-11 * (1 + sum(map(abs, d))) ** 2 and abs(got - alt) > 1e-11 * (1 + sum(map(abs, d))) ** 2:
                    run.violation(what, "expected %.17g got %.17g in %s" % (want, got, what))

    def mismatched(self, hj):
        """run-time sizes that do not fit are an error"""
        run = self.run
        for cn in ("DScalar", "DDScalar"):
            cs = {c.n: c for c in classes(hj, dyn=(0, 1, 2, 3, 4)) if c.name == cn}
            for n, m in itertools.permutations(cs, 2):
                x, y = cs[n].make([1.5] * cs[n].len), cs[m].make([0.5] * cs[m].len)
                for name, o, f in binary_forms(hj) + [("hj.hypot(x, y)", "", hj.hypot)] + [("inplace" + s, "", i) for s, _, _, i, _ in BINOPS]:
                    what = "%s: %s with sizes %d, %d" % (cn, name, n, m)
                    run.doing(what)
                    run.count("transitions")
                    try:
                        f(x, y)
                    except Exception:
                        run.count("traces")
                        if bits(cs[n].read(x)) != bits([1.5] * cs[n].len):
                            run.violation(what, "operand changed in " + what)
                        continue
                    run.violation(what, "no error in " + what)


def explore(run, hj):
    e = Explorer(run, hj)
    for c in classes(hj):
        for leg in ("unary", "numbers", "binary", "same", "ternary"):
            getattr(e, leg)(c)
        for leg in ("comparisons", "arrays", "attributes"):
            if run.mine():
                getattr(e, leg)(c)
    for c in classes(hj):
        if c.label in ("DD2Scalar", "DDScalar size 2", "SScalar", "D1Scalar"):
            e.programs(c, 2)
            if run.thorough or c.label in ("DD2Scalar", "SScalar"):
                e.programs(c, 3)
    if run.mine():
        e.mismatched(hj)
    run.sample("all 36 dense classes (run-time sizes 0, 1, 2, 3, 5, 17) and SScalar: x.arcsinh(), np.arcsinh(x), np.arcsinh([x, x]), x - np.int32(3), ...")


main(explore)
