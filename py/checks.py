"""Registry: which programs decide which property."""
import os
import subprocess

from engine import REPO, VERIF, Obj, Program

COMMON_ASSUMPTIONS = [
    "g++ 13 and its run-time and mathematical libraries are correct; IEEE-754 arithmetic, round to nearest",
    "results are compared with a tolerance of 512 ulp of the sum of the magnitudes of the terms of the chain rule; smaller errors are not claimed to be detected",
    "operands whose coefficients leave [1e-60, 1e60] in magnitude (zero excepted) are outside the claim",
]

FIXED = list(range(0, 17)) + [20, 24]


def subjects(groups, *flags, opt="-O1"):
    """groups: list of (order, sizes, scalar) -> object list and the -DTUS flag"""
    objs, tus = [], []
    for i, (order, sizes, sc) in enumerate(groups):
        name = {"d": "double", "f": "float", "l": "long double"}[sc]
        objs.append(Obj("subject_tu.cpp", "-DTUID=%d" % i, "-DORDER=%d" % order, "-DSIZES=" + ",".join(map(str, sizes)),
                        "-DSCALAR=" + name, "-DSC='%s'" % sc, *flags, opt=opt))
        tus.append("F(%d)" % i)
    return objs, "-DTUS=" + " ".join(tus)


def all_double():
    g = []
    for order in (1, 2):
        g.append((order, [-1, 0, 1, 2], "d"))
        g.append((order, [3, 4, 5, 6, 7], "d"))
        g.append((order, [8, 9, 10, 11, 12], "d"))
        g.append((order, [13, 14, 15, 16, 20, 24], "d"))
    return g


def harness(name, src, groups, *flags, **kw):
    objs, tus = subjects(groups)
    return Program(name, objs + [Obj(src, tus, *flags)], ["-lquadmath"], **kw)


def field(name, flag):
    return [Program("%s%d" % (name, k), [Obj("c_gf.cpp", flag, "-DPART=%d" % k)], ["-lquadmath"], optional=True) for k in range(8)]


def c01(tier):
    return [harness("c01", "c01.cpp", all_double())] + field("c01_field", "-DOUT")


def c02(tier):
    return [harness("c02", "c02.cpp", all_double())]


def c03(tier):
    return [harness("c03", "c03.cpp", all_double())]


def c04(tier):
    return [harness("c04", "c04.cpp", all_double())] + field("c04_field", "-DINPLACE")


def c05(tier):
    extra = [(o, [-1, 0, 1, 2, 3, 7, 16], sc) for o in (1, 2) for sc in "fl"]
    return [harness("c05", "c05.cpp", all_double() + extra)]


def c06(tier):
    return [harness("c06", "c06.cpp", [(o, [-1], sc) for o in (1, 2) for sc in "dfl"])]


def c07(tier):
    return [Program("c07_%d" % k, [Obj("c07.cpp", "-DPART=%d" % k)], ["-lquadmath"]) for k in range(6)]


def c08(tier):
    return [Program("c08", [Obj("c08.cpp")], ["-lquadmath"])]


def c09(tier):
    return [Program("c09_%d" % k, [Obj("c09.cpp", "-DPART=%d" % k)], ["-lquadmath"], shards=4, optional=k >= 6) for k in range(8)]


def c10(tier):
    return [harness("c10", "c10.cpp", all_double())]


def c11(tier):
    return [Program("c11", [Obj("c11.cpp")], ["-lquadmath"])]


def c12(tier):
    extra = [(o, [-1, 0, 1, 2, 3], sc) for o in (1, 2) for sc in "fl"]
    return [harness("c12", "c12.cpp", all_double() + extra)]


QUADMATH_H = ["-idirafter", os.path.dirname(subprocess.run(["gcc", "-print-file-name=include/quadmath.h"], capture_output=True, text=True).stdout.strip())]
QUADMATH_L = ["-L" + os.path.dirname(subprocess.run(["gcc", "-print-file-name=libquadmath.so"], capture_output=True, text=True).stdout.strip()), "-lquadmath"]


def c13(tier):
    rt = Obj("c13_rt.cpp")
    r = [Program("c13_seq", [Obj("c13_seq.cpp")], ["-lquadmath"])]
    for k in range(6):
        r.append(Program("c13_mem%d" % k, [Obj("c13_mem.cpp", "-fsanitize=thread", "-DPART=%d" % k, *QUADMATH_H, cxx="clang++"), rt],
                         ["-lquadmath", "-pthread"], optional=True))
    r.append(Program("c13_race", [Obj("c13_tsan.cpp", "-fsanitize=thread", "-g1", *QUADMATH_H, cxx="clang++")],
                     ["-fsanitize=thread", *QUADMATH_L], cxx="clang++", optional=True))
    return r


NOEXC = ["-fno-exceptions", "-DHYPERJET_NO_EXCEPTIONS"]


def c14(tier):
    objs, tus = [], []
    i = 0
    for order in (1, 2):
        for nx in (0, 1):
            objs.append(Obj("subject_tu.cpp", "-DTUID=%d" % i, "-DORDER=%d" % order, "-DSIZES=-1,1,2,3", "-DSCALAR=double", "-DSC='%s'" % "dx"[nx],
                            *((NOEXC + ["-Dhyperjet=hyperjet_nx"]) if nx else []), opt="-O1"))
            tus.append("F(%d)" % i)
            i += 1
        objs.append(Obj("c14_tu.cpp", "-DEIGEN_NO_DEBUG", "-DTABLE=normal_", "-DORDER=%d" % order))
        objs.append(Obj("c14_tu.cpp", "-DEIGEN_NO_DEBUG", "-DTABLE=nx_", "-DORDER=%d" % order, "-Dhyperjet=hyperjet_nx", *NOEXC))
        objs.append(Obj("c14_tu.cpp", "-DEIGEN_NO_DEBUG", "-DTABLE=nd_", "-DORDER=%d" % order, "-Dhyperjet=hyperjet_nd", "-DNDEBUG", *NOEXC))
    return [Program("c14", objs + [Obj("c14.cpp", "-DTUS=" + " ".join(tus))], ["-lquadmath"])]


def c15(tier):
    types = [(2, 2, "double"), (1, 2, "double"), (1, 3, "double"), (2, 1, "float")]
    if tier == "thorough":
        types += [(2, 3, "double"), (1, 1, "double"), (2, 2, "float"), (2, 2, "long double"), (1, 2, "long double")]
    return [Program("c15_%d%d%s%d" % (o, n, sc[0], k), [Obj("c15.cpp", "-DORDER=%d" % o, "-DNVAR=%d" % n, "-DSC=" + sc, "-DPART=%d" % k, opt="-O0")],
                    ["-lquadmath"]) for k in range(3) for o, n, sc in types]


PY = "/opt/vp/venv/bin/python"


def py_include():
    r = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], capture_output=True, text=True)
    return "-I" + (r.stdout.strip() or "/usr/include/python3.12")


def module(*flags, opt="-O0", ld=()):
    d = os.path.join(REPO, "python", "src")
    base = ["-std=c++17", "-fPIC", "-fvisibility=hidden", "-w", "-DHYPERJET_VERSION=\"0\"", "-DHYPERJET_EXCEPTIONS", "-I" + os.path.join(REPO, "include"),
            "-I/usr/include/eigen3", py_include()]
    # the largest translation units first
    srcs = sorted((os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp")), key=lambda f: (not f.endswith("main.cpp"), f))
    return Program("hyperjet", [Obj(f, *flags, opt=opt, base=base) for f in srcs], list(ld), shared=True, run=False)


def python(name, *args, mod=None, **kw):
    mod = mod or module("-DNDEBUG")
    ref = Program("oracle", [Obj("py_oracle.cpp", "-fPIC")], ["-lquadmath"], shared=True, run=False)
    exp = Program(name, [], argv=[PY, "-B", os.path.join(VERIF, "pyx", name + ".py")], args=["--module", mod.bin, "--oracle", ref.bin, *args], **kw)
    return [mod, ref, exp]


def c16(tier):
    return python("c16")


def c17(tier):
    return python("c17")


def c18(tier):
    return python("c18")


def c19(tier):
    return python("c19")


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "abort_on_error=1"}


def c20(tier):
    r = []
    for k in (0, 2, 1, 3):
        for o in (2, 1):
            for nd in ([], ["-DNDEBUG"]):
                r.append(Program("c20_%d%d%s" % (k, o, "n" if nd else ""),
                                 [Obj("c20.cpp", *SAN, "-D_GLIBCXX_SANITIZE_VECTOR", "-I" + os.path.join(VERIF, "src", "assert_jump"), "-DPART=%d" % k, "-DORDER=%d" % o, *nd)],
                                 ["-fsanitize=address,undefined", "-lquadmath"], env=SAN_ENV))
    r.append(Program("c20_sparse", [Obj("c20.cpp", *SAN, "-I" + os.path.join(VERIF, "src", "assert_jump"), "-DPART=4", "-DORDER=1")], ["-fsanitize=address,undefined", "-lquadmath"], env=SAN_ENV))
    if tier == "thorough":
        for k in (0, 2):
            for o in (2, 1):
                r.append(Program("c20_%d%df" % (k, o), [Obj("c20.cpp", *SAN, "-DSC=float", "-D_GLIBCXX_SANITIZE_VECTOR", "-I" + os.path.join(VERIF, "src", "assert_jump"), "-DPART=%d" % k, "-DORDER=%d" % o)],
                                 ["-fsanitize=address,undefined", "-lquadmath"], env=SAN_ENV))
    lib = lambda n: subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    env = {"LD_PRELOAD": lib("libasan.so") + " " + lib("libstdc++.so"), "PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "",
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:allocator_may_return_null=1"}
    san = module("-DNDEBUG", "-fsanitize=address", ld=["-fsanitize=address"])
    plain = module("-DNDEBUG")
    mods = [san, plain]
    names = [("c20", san, [], env), ("c20", plain, [], {"VERIF_PLAIN": "1"})]
    # the explorations of the other properties of the Python module once more, under memory checking
    if tier == "thorough":
        names += [(n, san, ["--memory", "1"], env) for n in ("c16", "c17", "c18", "c19")]
    ref = Program("oracle", [Obj("py_oracle.cpp", "-fPIC")], ["-lquadmath"], shared=True, run=False)
    for n, m, a, e in names:
        r.append(Program("py_%s%s" % (n, "_plain" if m is plain else ""), [], argv=[PY, "-B", os.path.join(VERIF, "pyx", n + ".py")],
                         args=["--module", m.bin, "--oracle", ref.bin, *a], env=e))
    return mods + [ref] + r


def c21(tier):
    return [Program("c21", [Obj("c21.cpp")], ["-lquadmath"])]


CHECKS = {
    "C01": dict(make=c01, describe="All arithmetic operations on the real templates: (product) every operand value pair of a small binary float "
                "format x derivative basis patterns x every size/order/representation; (programs) every operation sequence to the depth bound; "
                "(field) breadth-first search to a fixpoint over finite-field coefficients, every reachable transition executed."),
    "C02": dict(make=c02, describe="Every one-argument function in method and free form (36 exponents/bases variants included): every value of a small binary float "
                "format plus neighbourhoods of branch points x {order} x {representation} for one variable; all sizes with the full set of "
                "derivative basis patterns."),
    "C03": dict(make=c03, describe="atan2 and hypot: every pair and triple of a small binary float format (all quadrants, axes, magnitudes) x derivative patterns, "
                "all repeated-operand maps, all sizes, both forms."),
    "C04": dict(make=c04, describe="Compound assignments on dense numbers (all sizes, orders, representations) and sparse numbers: right-hand side another number, the "
                "target itself, a plain number or one of the target's own coefficients; every update history to the depth bound over 2-3 objects; "
                "fixpoint exploration over finite-field coefficients."),
    "C05": dict(make=c05, describe="Lockstep exploration: fixed and run-time size, first and second order execute the same calls on the same coefficients and must agree "
                "coefficient by coefficient; single and extended precision must agree with the reference to their own rounding. All operations, "
                "all sizes 0..16 and selected larger ones, and all two-operation programs."),
    "C06": dict(make=c06, describe="Every combining operation of run-time-sized numbers x all tuples of sizes x operand classes (zero, one, constants, dense): must be rejected "
                "exactly when the sizes differ, with every operand bitwise unchanged and the next call correct."),
    "C07": dict(make=c07, describe="All histories of writes (every accessor, every index) to the depth bound, all reads through every accessor compared with a shadow "
                "coefficient vector after each write; all sizes, both orders and representations."),
    "C08": dict(make=c08, describe="Every (old,new) size pair x derivative patterns, left and right, must move coefficients exactly; smaller sizes must be rejected; all "
                "histories of paddings interleaved with operations; padding commutes with every operation."),
    "C09": dict(make=c09, describe="Every creator x sizes, indices, value classes, data lengths and shapes around and beyond the valid range, for all fixed sizes 0..16, run-time "
                "sizes, both orders, three coefficient types: well-formed with exactly the stated coefficients, or rejected."),
    "C10": dict(make=c10, describe="Evaluation of every coefficient basis pattern at every basis offset for all sizes, orders, representations; all small polynomials in two "
                "variables built by arithmetic; all pairs of name subsets for sparse numbers."),
    "C11": dict(make=c11, describe="Sparse numbers: every pair/triple of name subsets x values x every operation and function in both forms; fine argument values; every "
                "two-operation program; compared with a dense model over the union of the names."),
    "C12": dict(make=c12, describe="Six comparisons x every pair of value classes (signed zeros, subnormals, neighbours, infinities, NaN, small float format) x operand kinds "
                "x derivative classes; absolute value, for dense numbers of all sizes and sparse numbers."),
    "C13": dict(make=c13, describe="(histories) every ordered pair of calls with operand values, derivatives and addresses varied independently, every triple of a "
                "reduced alphabet, pairs across types, long repetitions: bitwise the same result as the first time, live numbers bitwise unchanged; "
                "(interleavings) stateless model checking of two threads on the real, compiler-instrumented code: all ordered pairs of calls x every "
                "preemption point before a shared memory access, conflicting accesses detected and then explored to preemption bound 2 (thorough 3), "
                "pairs without conflicts reported as independent; first calls of a process likewise in fresh processes; (races) all pairs of calls "
                "concurrently under a happens-before race detector."),
    "C14": dict(make=c14, describe="Lockstep exploration of the normal and the exception-free build: 28 scenarios of construction, access and operation x sizes, lengths and "
                "indices around and beyond the valid range x 18 types and sparse numbers: bitwise identical results (assertions on and off), or an error in "
                "the normal and an assertion failure (observed in a child process) in the exception-free build; all operations x values x "
                "derivative patterns bit for bit."),
    "C15": dict(make=c15, describe="About 125 matrix and vector expression forms (arithmetic, products, reductions, decomposition-free determinants and inverses, "
                "coefficient-wise functions, mixes with plain matrices and scalars, in-place forms) over every shape up to 3x3, fixed and run-time, x dense operands, every "
                "single coefficient of every entry, every pair of gradient directions in two entries, every combination of small values; each entry compared "
                "with the scalar formula evaluated by the reference."),
    "C16": dict(make=c16, describe="The Python module, built from the current tree: every method, alias, operator, numpy function, module function and in-place "
                "statement of all 36 dense classes (run-time sizes 0-17) and SScalar x operand values x derivative patterns x plain numbers of 7 types on either "
                "side, scalars and arrays; operands compared bit for bit afterwards; all programs of 2 (3) in-place statements over two names that may "
                "refer to one object; mismatched run-time sizes must raise."),
    "C17": dict(make=c17, describe="The Python module, built from the current tree: variables() for every order, every count 0-40, every way to pass the values; every "
                "class-level creator x sizes, indices, value classes, data lengths, array shapes and types around and beyond the valid range; well-formed "
                "with exactly the stated coefficients, or an error."),
    "C18": dict(make=c18, describe="The Python module, built from the current tree: every class x value classes x every way to copy (copy, deepcopy, every pickle protocol, "
                "constructor): bitwise equal; every history of copies and mutations (every coefficient, every way to write) to the depth bound: the other numbers "
                "bitwise unchanged; malformed states rejected."),
    "C19": dict(make=c19, describe="The Python module, built from the current tree: every history of writes through every accessor and live view, all accessors compared with "
                "a shadow vector after each step; Hessian matrices in all modes x sizes x layouts; extraction from arrays of every element mix and shape."),
    "C20": dict(make=c20, describe="(C++) every history of calls, valid or not, to the depth bound over two heap-held numbers: an alphabet of several hundred to a thousand calls per type "
                "(creation, sizes, accessors with indices around and far beyond the valid range, vectors and matrices of every small shape, combinations, "
                "copies, moves) under address and undefined-behaviour checking, with and without assertions: completes with well-formed numbers or is rejected; "
                "(Python) the module built with address checking: every method x every near and far index, size, length, shape: rejected without a change exactly when it does "
                "not fit; every method x every combination of up to 2 (3) arbitrary objects; every history with live array views to the depth bound: views always refer "
                "to allocated memory."),
    "C21": dict(make=c21, describe="Text of every value class x derivative class x stream state for dense numbers; every name subset with signed derivatives for sparse ones."),
}
