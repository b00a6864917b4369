"""Array access of the Python numbers and extraction from arrays."""
import copy
import gc
import itertools
import warnings

import numpy as np

from pykit import Dense, Sparse, bits, classes, hidx, irr, main, packed_len, show

warnings.simplefilter("ignore")


class Explorer:
    def __init__(self, run, hj):
        self.run, self.hj = run, hj

    # ---- one number ----
    def observe(self, c, x, m, text, held):
        """every accessor against the shadow coefficients; returns False after a violation"""
        run, n = self.run, c.n
        bad = []
        run.count("traces")
        if bits([x.f]) != bits(m[:1]):
            bad.append("f is %r" % x.f)
        if x.size != n or len(x) != n:
            bad.append("size")
        d, g = x.data, x.g
        if type(d) is not np.ndarray or d.shape != (c.len,) or d.dtype != np.float64 or bits(d) != bits(m):
            bad.append("data is %r" % (d,))
        if type(g) is not np.ndarray or g.shape != (n,) or g.dtype != np.float64 or bits(g) != bits(m[1:1 + n]):
            bad.append("g is %r" % (g,))
        if c.order == 2:
            full = np.array([[m[hidx(n, i, j)] for j in range(n)] for i in range(n)]).reshape(n, n)
            zeros = np.array([[m[hidx(n, i, j)] if j >= i else 0.0 for j in range(n)] for i in range(n)]).reshape(n, n)
            for how, h, want in [("hm()", x.hm(), full), ("hm('full')", x.hm("full"), full), ("hm(mode='full')", x.hm(mode="full"), full), ("hm('zeros')", x.hm("zeros"), zeros)]:
                if type(h) is not np.ndarray or h.shape != (n, n) or h.dtype != np.float64 or bits(h) != bits(want):
                    bad.append("%s is %r" % (how, h))
                h += 1.0  # a copy: no effect
            if c.n <= 4:
                for i, j in itertools.product(range(n), range(n)):
                    if bits([x.h(i, j)]) != bits([full[i, j]]) or bits([x.h(row=i, col=j)]) != bits([full[i, j]]):
                        bad.append("h(%d, %d) is %r" % (i, j, x.h(i, j)))
            if bits(x.data) != bits(m):
                bad.append("writing to a Hessian copy changed the number")
        for name, v, lo, hi in held:
            if bits(v) != bits(m[lo:hi]):
                bad.append("the %s view taken earlier is %s" % (name, show([float(t) for t in v])))
        if bad:
            run.violation(text, "expected %s: %s in %s" % (show(m), "; ".join(bad)[:800], text))
        return not bad

    def actions(self, c, few):
        """name, f(x, held, m): performs the write on the number and on the shadow m"""
        n, L = c.n, c.len
        ix = range(n) if not few else sorted({0, n // 2, n - 1} & set(range(n)))
        dx = range(L) if not few else sorted({0, 1, n, n + 1, L // 2, L - 1} & set(range(L)))
        r = []

        def add(name, f):
            r.append((name, f))

        def mset(m, i, v):
            m[i] = v

        def setattr_f(v):
            def f(x, held, m):
                x.f = v
                m[0] = float(v)
            return f
        for v in (2.5, -3, np.float32(0.5)):
            add("f = %r" % v, setattr_f(v))

        def data_i(i, v):
            def f(x, held, m):
                x.data[i] = v
                m[i] = v
            return f

        def held_i(k, i, off, v):
            def f(x, held, m):
                held[k][1][i] = v
                m[off + i] = v
            return f

        def g_i(i, v):
            def f(x, held, m):
                x.g[i] = v
                m[1 + i] = v
            return f
        for i in dx:
            add("data[%d] = 7" % i, data_i(i, 7.0))
            add("held data[%d] = 8" % i, held_i(0, i, 0, 8.0))
        for i in ix:
            add("g[%d] = 9" % i, g_i(i, 9.0))
            add("held g[%d] = -9" % i, held_i(1, i, 1, -9.0))

        def whole(name, f, g):
            def act(x, held, m):
                f(x)
                g(m)
            add(name, act)

        def fill(m, lo, hi, vals):
            for k in range(lo, hi):
                m[k] = vals[k - lo]
        vals = [irr(90, i) for i in range(L)]
        whole("data[:] = list", lambda x: x.data.__setitem__(slice(None), vals), lambda m: fill(m, 0, L, vals))
        whole("data[::-1] = list", lambda x: x.data[::-1].__setitem__(slice(None), vals), lambda m: fill(m, 0, L, vals[::-1]))
        whole("g[:] = list", lambda x: x.g.__setitem__(slice(None), vals[:n]), lambda m: fill(m, 1, 1 + n, vals[:n]))
        whole("np.negative(g, out=g)", lambda x: np.negative(x.g, out=x.g), lambda m: fill(m, 1, 1 + n, [-t for t in m[1:1 + n]]))
        whole("data.fill(0.25)", lambda x: x.data.fill(0.25), lambda m: fill(m, 0, L, [0.25] * L))

        def inplace(x):
            d = x.data
            d *= 2.0
        whole("data *= 2", inplace, lambda m: fill(m, 0, L, [2.0 * t for t in m]))

        def through(op):
            # in-place arithmetic of the number itself: the held views follow
            def act(x, held, m):
                y = op(x)
                if y is not x:
                    raise Rebound
                fill(m, 0, L, [float(t) for t in copy.copy(x).data])
            return act

        def imul(x):
            x *= x
            return x

        def iadd(x):
            x += x
            return x
        add("x *= x", through(imul))
        add("x += x", through(iadd))
        if c.order == 2:
            def seth(i, j, v):
                def act(x, held, m):
                    x.set_h(i, j, v)
                    m[hidx(n, i, j)] = v
                return act
            for i, j in itertools.product(ix, ix):
                add("set_h(%d, %d, 4)" % (i, j), seth(i, j, 4.0))
            def sethk(x, held, m):
                x.set_h(row=0, col=n - 1, value=-4.0)
                m[hidx(n, 0, n - 1)] = -4.0
            if n:
                add("set_h(row=0, col=last, value=-4)", sethk)

            def sethm(name, M):
                M = np.asarray(M)

                def act(x, held, m):
                    keep = M.copy()
                    x.set_hm(M)
                    if bits(M) != bits(keep):
                        raise AssertionError("set_hm changed its argument")
                    for i in range(n):
                        for j in range(i, n):
                            m[hidx(n, i, j)] = float(M[i, j])
                add("set_hm(%s)" % name, act)
            A = np.array([[irr(91, i * n + j) for j in range(n)] for i in range(n)]).reshape(n, n)
            big = np.zeros((2 * n, 2 * n))
            big[::2, ::2] = A
            sethm("C order, any lower triangle", A)
            sethm("Fortran order", np.asfortranarray(A))
            sethm("transposed", A.T)
            sethm("strided", big[::2, ::2])
            if n > 1:
                sethm("reversed", A[::-1, ::-1])
            sethm("integers", np.arange(n * n).reshape(n, n))
            sethm("float32", A.astype(np.float32))

            def roundtrip(mode):
                def act(x, held, m):
                    x.set_hm(x.hm(mode))
                return act
            add("set_hm(hm())", roundtrip("full"))
            add("set_hm(hm('zeros'))", roundtrip("zeros"))
        return r

    def histories(self, c, depth, few):
        run = self.run
        acts = self.actions(c, few)
        for seq in itertools.product(range(len(acts)), repeat=depth):
            if not run.mine():
                continue
            run.count("states")
            m = [irr(1, i) for i in range(c.len)]
            x = c.make(m)
            held = [("data", x.data, 0, c.len), ("gradient", x.g, 1, 1 + c.n)]
            text = c.label + ": "
            for k in seq:
                text += acts[k][0] + "; "
                run.doing(text)
                run.count("transitions")
                try:
                    acts[k][1](x, held, m)
                except Rebound:
                    break
                except Exception as e:
                    run.violation(text, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], text))
                    break
                if not self.observe(c, x, m, text, held):
                    break

    def lifetime(self, c):
        """a view keeps the number's coefficients alive; the Hessian copy is on its own"""
        run = self.run
        for which in range(3):
            for make in range(3):
                m = [irr(2 + which, i) for i in range(c.len)]
                x = c.make(m)
                if make == 1:
                    x = x + c.make([0.0] * c.len)
                if make == 2:
                    x = copy.copy(x)
                m = [float(t) for t in x.data]
                what = "%s: %s after the number is gone (made by %s)" % (c.label, ["data", "g", "hm()"][which], ["constructor", "sum", "copy"][make])
                run.doing(what)
                if which == 2 and c.order == 1:
                    continue
                v = x.data if which == 0 else x.g if which == 1 else x.hm("full")
                want = bits(v)
                w = v[::-1]
                del x
                gc.collect()
                junk = [c.make([float(i)] * c.len) for i in range(20)]
                run.count("transitions")
                run.count("traces")
                if bits(v) != want or bits(w[::-1]) != want:
                    run.violation(what)
                del junk

    def modes(self, c):
        run = self.run
        x = c.make([irr(3, i) for i in range(c.len)])
        for bad in ["", "Full", "full ", "zero", "upper", "lower", "zeross", "fullzeros", "full\0"]:
            what = "%s: hm(%r)" % (c.label, bad)
            run.doing(what)
            run.count("transitions")
            run.count("traces")
            try:
                x.hm(bad)
            except Exception:
                continue
            run.violation(what, "no error in " + what)

    def readonly(self, c):
        """g, data and size cannot be replaced"""
        run = self.run
        x = c.make([irr(3, i) for i in range(c.len)])
        for a in ("g", "data", "size"):
            what = "%s: assignment to %s" % (c.label, a)
            run.count("transitions")
            run.count("traces")
            try:
                setattr(x, a, np.zeros(c.n if a == "g" else c.len))
            except AttributeError:
                pass
            else:
                if bits(x.data) != bits([irr(3, i) for i in range(c.len)]) and bits(x.data) != bits(np.zeros(c.len)):
                    run.violation(what)

    # ---- arrays of numbers ----
    def extraction(self, cs, plain, label):
        """hj.f, hj.d, hj.dd on every arrangement of elements: the classes in cs share size, numbers of all plain types"""
        run, hj = self.run, self.hj
        n = cs[0].n
        els = []
        for k, c in enumerate(cs):
            for v in range(2):
                m = [2.75 - k + v] + [irr(100 + 10 * k + v, i) for i in range(1, c.len)]
                els.append((c, m))
        els += [(None, p) for p in plain]
        shapes = [(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (4,), (0,), (2, 0)]
        for shape in shapes:
            count = int(np.prod(shape, dtype=int))
            for combo in itertools.product(range(len(els)), repeat=min(count, 2 if not run.thorough else 3)):
                if not run.mine():
                    continue
                run.count("states")
                # the rest of a larger array repeats the combination
                items = [els[combo[(i * 7 // 3) % len(combo)]] if i >= len(combo) else els[combo[i]] for i in range(count)]
                objs = [c.make(m) if c else m for c, m in items]
                arr = np.empty(shape, dtype=object)
                for i, ix in enumerate(np.ndindex(shape)):
                    arr[ix] = objs[i]
                vals = [m[0] if c else float(m) for c, m in items]
                forms = [("object array", arr)]
                if shape == ():
                    forms = [("element", objs[0])]
                elif count:
                    forms.append(("nested list", arr.tolist()))
                    if len(shape) == 2:
                        forms.append(("transposed", arr.T))
                    if len(shape) == 1:
                        forms.append(("reversed", arr[::-1]))
                        forms.append(("tuple", tuple(arr)))
                    if not any(c for c, m in items):
                        forms.append(("plain array", np.array(arr.tolist())))
                for fname, arg in forms:
                    order = np.arange(count).reshape(shape)
                    order = order.T if fname == "transposed" else order[::-1] if fname == "reversed" else order
                    text = "%s: %s %s of %s" % (label, fname, shape, ", ".join("%s %s" % (c.name, show(m)) if c else "%r (%s)" % (m, type(m).__name__) for c, m in items))
                    self.extract(text, "f", hj.f, arg, order, [np.float64(v) for v in vals], ())
                    grads = [np.array(m[1:1 + n]) if c else np.zeros(n) for c, m in items]
                    if all(c is None for c, m in items):
                        grads = [np.zeros(0) for _ in items]
                    self.extract(text, "d", hj.d, arg, order, grads, (n if any(c for c, m in items) else 0,))
                    # Hessians: second-order numbers, with or without plain ones
                    if all(c is None or c.order == 2 for c, m in items):
                        k = n if any(c for c, m in items) else 0
                        hs = [np.array([[m[hidx(n, i, j)] for j in range(n)] for i in range(n)]).reshape(n, n) if c else np.zeros((k, k)) for c, m in items]
                        self.extract(text, "dd", hj.dd, arg, order, hs, (k, k))
                    if any(bits(o.data) != bits(m) for o, (c, m) in zip(objs, items) if c):
                        run.violation(text, "a number changed in " + text)

    def extract(self, text, name, f, arg, order, want, tail):
        run = self.run
        what = "hj.%s of %s" % (name, text)
        run.doing(what)
        run.count("transitions")
        if order.size == 0 and name != "f":
            # no elements: nothing to say but the shape, if there is an answer at all
            try:
                got = f(arg)
            except ValueError:
                return
            run.count("traces")
            if got.size != 0 or got.shape[:order.ndim] != order.shape:
                run.violation(what, "got %r in %s" % (got, what))
            return
        try:
            got = f(arg)
        except Exception as e:
            run.violation(what, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], what))
            return
        run.count("traces")
        exp = np.zeros(order.shape + tail)
        for ix in np.ndindex(order.shape):
            exp[ix] = want[order[ix]]
        if not isinstance(got, np.ndarray) or got.shape != exp.shape or got.dtype != np.float64 or bits(got) != bits(exp):
            run.violation(what, "expected %r got %r in %s" % (exp, got, what))
            return
        # a copy: writing to it leaves the numbers alone (checked by the caller)
        if got.flags.writeable:
            got += 1.0

    def different(self, hj):
        """gradients of numbers with different variables do not fit in one array"""
        run = self.run
        cs = [Dense(hj, "D1Scalar", 1, 1), Dense(hj, "D2Scalar", 1, 2), Dense(hj, "DD1Scalar", 2, 1), Dense(hj, "DD3Scalar", 2, 3), Dense(hj, "DScalar", 1, 3),
              Dense(hj, "DDScalar", 2, 2), Dense(hj, "DScalar", 1, 1)]
        for a, b in itertools.product(cs, cs):
            for extra in ([], [1.0]):
                for first in (True, False):
                    xs = [a.make([irr(1, i) for i in range(a.len)]), b.make([irr(2, i) for i in range(b.len)])]
                    arr = np.empty(2 + len(extra), dtype=object)
                    for i, v in enumerate(extra + xs if first else xs + extra):
                        arr[i] = v
                    for name, f in [("d", hj.d)] + ([("dd", hj.dd)] if a.order == b.order == 2 else []):
                        what = "hj.%s of %s, %s%s" % (name, a.label, b.label, " and a plain number" if extra else "")
                        run.doing(what)
                        run.count("transitions")
                        run.count("traces")
                        try:
                            got = f(arr)
                        except Exception:
                            if a.n == b.n:
                                run.violation(what, "unexpected error in " + what)
                            continue
                        if a.n != b.n:
                            run.violation(what, "no error, got %r in %s" % (got, what))
                    got = hj.f(arr)
                    if list(got) != [v if isinstance(v, float) else v.f for v in arr]:
                        run.violation("hj.f of " + what)


class Rebound(Exception):
    pass


PLAIN = [1.5, 2, True, np.float32(0.25), np.int64(3), np.float64(-0.0), np.int8(-4), np.bool_(True)]


def explore(run, hj):
    e = Explorer(run, hj)
    for c in classes(hj, dyn=(0, 1, 2, 3, 5, 17, 20), sparse=False):
        e.histories(c, 1, c.len > 60 and not run.thorough)
        if c.n <= 3 or run.thorough:
            e.histories(c, 2, c.n > 2)
        if c.label in ("DD1Scalar", "DDScalar size 1", "D2Scalar") or run.thorough and c.n <= 2:
            e.histories(c, 3, True)
        for leg in [e.lifetime, e.readonly] + ([e.modes] if c.order == 2 else []):
            if run.mine():
                leg(c)
    for n in list(range(0, 6)) + ([16] if not run.thorough else list(range(6, 17))):
        for dyn in (False, True):
            name = ["D%dScalar", "DD%dScalar"] if not dyn else ["DScalar", "DDScalar"]
            cs = [Dense(hj, (t % n if not dyn else t), i + 1, n) for i, t in enumerate(name)]
            e.extraction([cs[1]], PLAIN, "size %d" % n)
            e.extraction([cs[0]], PLAIN[:4], "size %d" % n)
            e.extraction(cs, PLAIN[:2], "size %d" % n)
    if run.mine():
        e.different(hj)
    run.sample("DD2Scalar: held g[1] = -9; set_hm(transposed); x *= x; every accessor and both held views compared after every step")


main(explore)
