"""Copies and pickles: exact, independent, and nothing else is accepted as a state."""
import copy
import itertools
import pickle
import warnings

import numpy as np

from pykit import bits, classes, irr, main, packed_len, show

warnings.simplefilter("ignore")
SPECIAL = [0.0, -0.0, 1.0, -2.5, 1e-300, -1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 2 ** 53 + 2.0]


def forms():
    r = [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy), ("x.__copy__()", lambda x: x.__copy__()), ("x.__deepcopy__({})", lambda x: x.__deepcopy__({})),
         ("x.__deepcopy__(memodict={})", lambda x: x.__deepcopy__(memodict={})),
         ("deepcopy of a list", lambda x: copy.deepcopy([x, x])[1]), ("deepcopy of a dict", lambda x: copy.deepcopy({"a": (x,)})["a"][0]),
         ("deepcopy of an array", lambda x: copy.deepcopy(np.array([x, None], dtype=object))[0]),
         ("pickle of an array", lambda x: pickle.loads(pickle.dumps(np.array([x, None], dtype=object)))[0]),
         ("pickle of a list", lambda x: pickle.loads(pickle.dumps([x, x, 1]))[1])]
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        r.append(("pickle protocol %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))))
    r.append(("pickle twice", lambda x: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))))
    r.append(("copy of copy", lambda x: copy.copy(copy.copy(x))))
    r.append(("pickle of copy", lambda x: pickle.loads(pickle.dumps(copy.deepcopy(x)))))
    r.append(("__reduce_ex__", lambda x: rebuild(x)))
    return r


def rebuild(x):
    f, args, state = x.__reduce_ex__(2)[:3]
    y = f(*args)
    y.__setstate__(state)
    return y


def mutators(c):
    """name, change made in the real number, and in the list of coefficients"""
    r = []

    def setf(x, m, v):
        x.f = v
        m[0] = v

    def setd(x, m, i, v):
        x.data[i] = v
        m[i] = v

    def setg(x, m, i, v):
        x.g[i] = v
        m[1 + i] = v

    def fill(x, m, v):
        x.data[:] = v
        m[:] = [v] * len(m)

    def seth(x, m, i, v):
        x.set_h(i, i, v)
        k = 1 + c.n + sum(c.n - q for q in range(i))
        m[k] = v

    def sethm(x, m, v):
        x.set_hm(np.full((c.n, c.n), v))
        m[1 + c.n:] = [v] * (len(m) - 1 - c.n)

    def op(x, m, f):
        f(x)
        m[:] = [float(t) for t in x.data]

    def imul(x):
        x *= x
        return x

    def iadd(x):
        x += x
        return x

    r.append(("f = 3", lambda x, m: setf(x, m, 3.0)))
    r.append(("data[0] = 4", lambda x, m: setd(x, m, 0, 4.0)))
    r.append(("data[last] = 5", lambda x, m: setd(x, m, len(m) - 1, 5.0)))
    r.append(("data[:] = 6", lambda x, m: fill(x, m, 6.0)))
    if c.n:
        r.append(("g[0] = 7", lambda x, m: setg(x, m, 0, 7.0)))
        r.append(("g[last] = 8", lambda x, m: setg(x, m, c.n - 1, 8.0)))
        if c.order == 2:
            r.append(("set_h(last)", lambda x, m: seth(x, m, c.n - 1, 9.0)))
            r.append(("set_hm", lambda x, m: sethm(x, m, 11.0)))
    r.append(("x *= x", lambda x, m: op(x, m, imul)))
    r.append(("x += x", lambda x, m: op(x, m, iadd)))
    return r


class Explorer:
    def __init__(self, run, hj):
        self.run, self.hj = run, hj

    def exact(self, c):
        run = self.run
        datas = [[SPECIAL[(i + k) % len(SPECIAL)] for i in range(c.len)] for k in range(len(SPECIAL))] + [[irr(k, i) for i in range(c.len)] for k in range(2)]
        for i in range(c.len if c.len <= 30 or run.thorough else 0):
            d = [0.0] * c.len
            d[i] = -1.5
            datas.append(d)
        for d in datas:
            if not run.mine():
                continue
            run.count("states")
            for name, f in forms():
                x = c.make(d)
                what = "%s: %s of %s" % (c.label, name, show(d))
                run.doing(what)
                run.count("transitions")
                try:
                    y = f(x)
                except Exception as e:
                    run.violation(what, "unexpected %s (%s) in %s" % (type(e).__name__, str(e)[:200], what))
                    continue
                run.count("traces")
                if y is x or not c.fits(y) or y.size != c.n or y.order != c.order or bits(y.data) != bits(d) or bits(x.data) != bits(d):
                    run.violation(what, "got %r %s in %s" % (type(y), show([float(t) for t in y.data]), what))
                    continue
                if d[0] == d[0] and not (x == y):
                    run.violation(what, "the copy is not equal in " + what)

    def histories(self, c, depth):
        """x, a copy y of x, a copy z of y; every sequence of changes"""
        run = self.run
        ms = mutators(c)
        # a change may be preceded by another copy: the history is copy, change, change, ... with the second copy at every position
        for (fname, f), (gname, g) in itertools.product(forms(), [forms()[0], forms()[1], forms()[-5]]):
            for seq in itertools.product(range(3 * len(ms)), repeat=depth):
                for when in range(depth):
                    # z exists from step `when` on
                    if any(q // len(ms) == 2 for q in seq[:when]):
                        continue
                    if not run.mine():
                        continue
                    run.count("states")
                    d = [irr(5, i) for i in range(c.len)]
                    objs = [c.make(d)]
                    model = [list(d)]
                    text = "%s: y = %s(x)" % (c.label, fname)
                    objs.append(f(objs[0]))
                    model.append(list(d))
                    for k, q in enumerate(seq):
                        if k == when:
                            objs.append(g(objs[1]))
                            model.append(list(model[1]))
                            text += "; z = %s(y)" % gname
                        o, m = divmod(q, len(ms))
                        text += "; %s: %s" % ("xyz"[o], ms[m][0])
                        run.doing(text)
                        run.count("transitions")
                        ms[m][1](objs[o], model[o])
                        run.count("traces", len(objs))
                        bad = [j for j in range(len(objs)) if bits(objs[j].data) != bits(model[j])]
                        if bad:
                            run.violation(text, "%s is %s, expected %s in %s" % ("xyz"[bad[0]], show([float(t) for t in objs[bad[0]].data]), show(model[bad[0]]), text))
                            break

    def resized(self, c):
        """copies of run-time sized numbers keep their size when the other is resized"""
        run = self.run
        for (name, f), m in itertools.product(forms(), (0, 1, 2, 5, 9)):
            if not run.mine():
                continue
            d = [irr(5, i) for i in range(c.len)]
            for which in range(2):
                x = c.make(d)
                y = f(x)
                what = "%s: %s, then resize(%d) of the %s" % (c.label, name, m, ["original", "copy"][which])
                run.doing(what)
                run.count("transitions")
                run.count("traces")
                (x, y)[which].resize(m)
                o = (y, x)[which]
                (x, y)[which].data[:] = 3.0
                if o.size != c.n or bits(o.data) != bits(d) or (x, y)[which].size != m:
                    run.violation(what)
                for v in (x, y):  # and both can be copied again
                    w = f(v)
                    if w.size != v.size or bits(w.data) != bits(v.data):
                        run.violation(what + ", copied again")

    def states(self, c):
        run = self.run
        lens = {packed_len(c.order, m): m for m in range(60)}
        good = [irr(9, i) for i in range(c.len)]

        def attempt(state, ok_size, what):
            run.doing(what)
            run.count("transitions")
            y = c.cls.__new__(c.cls)
            try:
                y.__setstate__(state)
            except Exception:
                run.count("rejections")
                run.count("traces")
                if ok_size is not None:
                    run.violation(what, "a valid state was rejected in " + what)
                return
            run.count("traces")
            if ok_size is None:
                run.violation(what, "an invalid state was accepted in " + what)
            elif y.size != ok_size or bits(y.data) != bits(state[0]):
                run.violation(what, "wrong number from a valid state in " + what)

        for n in sorted(set(range(c.len + 12)) | set(lens) if c.len < 200 else range(c.len + 3)):
            if n > 700:
                continue
            run.count("states")
            d = [irr(10, i) for i in range(n)]
            ok = (lens.get(n) if c.dynamic else (c.n if n == c.len else None))
            for cont, t in [("list", d), ("tuple", tuple(d)), ("array", np.array(d))]:
                attempt((t,), ok, "%s: state with %d coefficients (%s)" % (c.label, n, cont))
        for name, st in [("()", ()), ("two parts", (good, good)), ("size and data", (c.n, good)), ("data and size", (good, c.n)), ("None", None), ("(None,)", (None,)), ("number", 1.0),
                         ("(number,)", (1.0,)), ("list", [good]), ("bare data", good), ("strings", (["a"] * c.len,)), ("string", ("a" * c.len,)), ("nested", ([good],)),
                         ("dict", {"data": good}), ("three parts", (good, good, good)), ("with None", ([None] * c.len,)), ("bytes", (bytes(c.len),)),
                         ("complex", ([1j] * c.len,))]:
            run.count("states")
            if name == "bytes":
                continue  # a sequence of numbers after all
            attempt(st, None, "%s: malformed state: %s" % (c.label, name))

    def crossed(self, cs):
        """a state of one class given to another"""
        run = self.run
        for a, b in itertools.product(cs, cs):
            if not run.mine():
                continue
            x = a.make([irr(3, i) for i in range(a.len)])
            st = x.__getstate__()
            run.count("states")
            y = b.cls.__new__(b.cls)
            what = "state of %s given to %s" % (a.label, b.label)
            run.doing(what)
            run.count("transitions")
            fits = a.len == b.len if not b.dynamic else a.len in {packed_len(b.order, m) for m in range(400)}
            try:
                y.__setstate__(st)
                ok = True
            except Exception:
                ok = False
            run.count("traces")
            if ok != fits:
                run.violation(what, ("accepted" if ok else "rejected") + " " + what)
            elif ok and bits(y.data) != bits(x.data):
                run.violation(what, "wrong number in " + what)


def explore(run, hj):
    e = Explorer(run, hj)
    cs = classes(hj, dyn=(0, 1, 2, 3, 5, 17, 20), sparse=False)
    for c in cs:
        e.exact(c)
        if run.mine():
            e.states(c)
        if c.dynamic:
            e.resized(c)
        e.histories(c, 1)
        if run.thorough or c.label in ("DD2Scalar", "D3Scalar", "DDScalar size 2", "DScalar size 3"):
            e.histories(c, 2)
        if run.thorough and c.label in ("D1Scalar", "DDScalar size 1"):
            e.histories(c, 3)
    e.crossed(cs)
    run.sample("DD2Scalar: y = pickle(x); y: x *= x; z = deepcopy(y); x: g[0] = 7")


main(explore)
