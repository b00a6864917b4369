"""Build-and-run engine shared by all checks: compiles harness programs against /repo's working tree, runs their shards in
parallel, confirms every reported violation by running it again, writes evidence and replay files."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HJ_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.environ.get("HJ_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("HJ_JOBS", os.cpu_count() or 8))
SHARD_TIMEOUT = {"quick": 780, "thorough": 4 * 3600}

CXX = "g++"
BASE = ["-std=c++17", "-Wno-deprecated-declarations", "-ftrivial-auto-var-init=pattern", "-DHYPERJET_VERSION=\"0\"", "-w",
        "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + SRC]


class CheckError(Exception):
    pass


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for dirpath, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(dirpath, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_tree = None


def tree():
    global _tree
    if _tree is None:
        _tree = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "python", "src"), SRC])
    return _tree


class Obj:
    """One object file: source, flags."""

    def __init__(self, src, *flags, opt="-O1", cxx=CXX, base=None):
        self.src = src if os.path.isabs(src) else os.path.join(SRC, src)
        self.cmd = [cxx] + (BASE if base is None else base) + [opt] + list(flags)
        key = hashlib.sha256((tree() + self.src + "\0".join(self.cmd)).encode()).hexdigest()[:24]
        self.out = os.path.join(BUILD, key + ".o")
        self.key = key

    def build(self):
        if os.path.exists(self.out):
            return None
        tmp = self.out + ".%d.tmp" % os.getpid()
        r = subprocess.run(self.cmd + ["-c", self.src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return r.stderr[-4000:] or "compiler failed"
        os.rename(tmp, self.out)
        return None


class Program:
    def __init__(self, name, objs, ldflags=(), optional=False, shards=None, args=(), cxx=CXX, env=None, weight=1, shared=False, run=True,
                 argv=None, timeout=None):
        self.name, self.objs, self.ldflags, self.optional = name, objs, list(ldflags), optional
        self.shards = JOBS if shards is None else shards
        self.args, self.cxx, self.env = list(args), cxx, dict(env or {})
        self.shared, self.run, self.argv, self.timeout = shared, run, argv, timeout
        key = hashlib.sha256((self.cxx + "".join(o.key for o in objs) + "\0".join(self.ldflags) + name).encode()).hexdigest()[:24]
        self.bin = os.path.join(BUILD, name + "-" + key + (".so" if shared else ""))
        self.skipped = None


def build(programs):
    os.makedirs(BUILD, exist_ok=True)
    objs = {}
    for p in programs:
        for o in p.objs:
            objs[o.out] = o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = dict(zip(objs, ex.map(lambda o: o.build(), objs.values())))
    live = []
    for p in programs:
        bad = [errs[o.out] for o in p.objs if errs[o.out]]
        if bad:
            if not p.optional:
                raise CheckError("the harness does not compile against the current tree:\n" + bad[0])
            p.skipped = bad[0]
            continue
        live.append(p)

    def link(p):
        if os.path.exists(p.bin) or not p.objs:
            return None
        tmp = p.bin + ".%d.tmp" % os.getpid()
        r = subprocess.run([p.cxx] + (["-shared"] if p.shared else []) + [o.out for o in p.objs] + p.ldflags + ["-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return r.stderr[-4000:]
        os.rename(tmp, p.bin)
        return None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for p, e in zip(live, ex.map(link, live)):
            if e:
                if not p.optional:
                    raise CheckError("link failure:\n" + e)
                p.skipped = e
    return [p for p in programs if not p.skipped]


def run_env(p):
    env = dict(os.environ)
    env["MALLOC_PERTURB_"] = "165"
    env.setdefault("VERIF_SEED", "1")
    env.update(p.env)
    return env


def run_shard(p, shard, tier, only=None):
    out = os.path.join(BUILD, "out.%d.%s.%d.json" % (os.getpid(), p.name, shard))
    if os.path.exists(out):
        os.remove(out)
    argv = (list(p.argv) if p.argv else [p.bin]) + p.args + ["--tier", tier, "--out", out, "--shard", "%d/%d" % (shard, p.shards)]
    if only is not None:
        argv += ["--only", only]
    timeout = p.timeout or SHARD_TIMEOUT[tier]
    proc = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=run_env(p), start_new_session=True)
    try:
        so, se = proc.communicate(timeout=timeout)
        rc = proc.returncode
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        proc.communicate()
        rc, so, se = "timeout", "", ""
    res = None
    if os.path.exists(out):
        try:
            with open(out) as f:
                res = json.load(f)
        except ValueError:
            res = None
        os.remove(out)
    return {"rc": rc, "stdout": so[-2000:], "stderr": se[-6000:], "res": res, "program": p.name, "shard": shard}


def interpret(r):
    """-> list of violations, or raises CheckError"""
    res = r["res"]
    v = list(res["violations"]) if res else []
    if r["rc"] == "timeout":
        raise CheckError("%s shard %d did not finish in time" % (r["program"], r["shard"]))
    if r["rc"] in (0, 1) and res is not None:
        return v
    if res is None or r["rc"] not in (0, 1):
        text = r["stderr"]
        if isinstance(r["rc"], int) and (r["rc"] < 0 or "Sanitizer" in text or r["rc"] in (66, 67)):
            head = next((l for l in text.splitlines() if "ERROR" in l or "runtime error" in l or "WARNING: Thread" in l or "Assertion" in l), "").strip()
            if not v:
                v.append({"key": "crash in %s" % r["program"], "detail": "process ended by %s: %s" % (r["rc"], head or text[-300:])})
            else:
                v[-1]["detail"] += " [process ended by %s %s]" % (r["rc"], head)
            return v
        raise CheckError("%s shard %d failed with exit %s: %s %s" % (r["program"], r["shard"], r["rc"], r["stdout"], text))
    return v


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                rest = line[len("finding: "):].rstrip("\n")
                prop, _, rest = rest.partition(" ")
                key, _, text = rest.partition(" :: ")
                known.append((prop.split("=")[1], key.split("=", 1)[1], text))
    return known


def execute(pid, programs, tier, describe, only=None, only_program=None):
    t0 = time.time()
    live = build(programs)
    t_build = time.time() - t0
    jobs = [(p, s) for p in live if p.run for s in range(p.shards)]
    if only_program:
        jobs = [(p, s) for p, s in jobs if p.name == only_program[0] and s == only_program[1]]
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(run_shard, p, s, tier, only) for p, s in jobs]
        for f in futs:
            results.append(f.result())
    t_run = time.time() - t0 - t_build
    if os.environ.get("HJ_TIMES"):
        for p in live:
            print("  %-20s %7.1f s of processor time" % (p.name, sum(r["res"].get("wall_s", 0) for r in results if r["program"] == p.name and r["res"])))
    bypr = {p.name: p for p in live}
    found = []
    errors = []
    for r in results:
        try:
            for v in interpret(r):
                found.append((r, v))
        except CheckError as e:
            errors.append(str(e))
    if not found and not errors and only is None:
        # the shards divide the same list of units among themselves
        for p in live:
            u = {r["res"]["units"] for r in results if r["program"] == p.name and r["res"] and "units" in r["res"]}
            if len(u) > 1:
                errors.append("%s: the shards disagree about the work (%s)" % (p.name, sorted(u)))
    known = load_known()
    known_hit, fresh = [], []
    for r, v in found:
        k = [x for x in known if x[0] == pid and x[1] == v["key"]]
        if k:
            if k[0] not in known_hit:
                known_hit.append(k[0])
        else:
            fresh.append((r, v))
    confirmed = []
    if fresh and only is None:
        # run the first ones again, on their own
        for r, v in sorted(fresh, key=lambda t: len(t[1]["key"]))[:3]:
            r2 = run_shard(bypr[r["program"]], r["shard"], tier, v["key"])
            try:
                again = interpret(r2)
            except CheckError:
                again = []
            if any(w["key"] == v["key"] for w in again):
                confirmed.append((r, v))
                break
        if not confirmed and not errors:
            # the behaviour depends on something uncontrolled; it is still reported if it shows up at all a second time
            r, v = fresh[0]
            r2 = run_shard(bypr[r["program"]], r["shard"], tier, None)
            again = [w for w in interpret(r2)]
            if again:
                confirmed.append((r, again[0]))
            else:
                errors.append("a reported violation did not reproduce: " + v["detail"][:500])
    elif fresh:
        confirmed = fresh[:1]
    counters, notes, samples = {}, {}, []
    for r in results:
        if r["res"]:
            for k, n in r["res"]["counters"].items():
                counters[k] = counters.get(k, 0) + n
            notes.update(r["res"].get("notes", {}))
            for s in r["res"]["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s)
    skipped = {p.name: p.skipped.splitlines()[-1][:200] if p.skipped.splitlines() else "" for p in programs if p.skipped}
    nviol = len(fresh)
    cov = {
        "states": counters.pop("states", 0),
        "transitions": counters.pop("transitions", 0),
        "traces_validated_against_impl": counters.pop("traces", 0),
        "samples": samples or ["(no sample recorded)"],
        "exhaustive": not skipped and not errors,
        "what": describe,
        "counters": counters,
        "programs_run": sorted({r["program"] for r in results}),
        "skipped_legs": skipped,
        "notes": notes,
        "build_s": round(t_build, 2),
        "run_s": round(t_run, 2),
    }
    evidence = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    return evidence, confirmed, known_hit, errors


def write_replay(pid, tier, r, v):
    os.makedirs(REPLAYS, exist_ok=True)
    name = os.path.join(REPLAYS, "%s-%s.json" % (pid, hashlib.sha256(v["key"].encode()).hexdigest()[:12]))
    with open(name, "w") as f:
        json.dump({"property": pid, "tier": tier, "program": r["program"], "shard": r["shard"], "key": v["key"], "detail": v["detail"]}, f, indent=1)
    return name


def clean_build():
    """keep the cache small"""
    if not os.path.isdir(BUILD):
        return
    files = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    files = [f for f in files if os.path.isfile(f)]
    if sum(os.path.getsize(f) for f in files) > 3 << 30:
        shutil.rmtree(BUILD, ignore_errors=True)
        os.makedirs(BUILD, exist_ok=True)


def main(pid, make, describe, assumptions):
    tier = os.environ.get("VERIF_TIER", "quick")
    only = only_program = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--replay":
            rep = json.load(open(args.pop(0)))
            only, only_program, tier = rep["key"], (rep["program"], rep["shard"]), rep["tier"]
    clean_build()
    try:
        programs = make(tier)
        ev, confirmed, known_hit, errors = execute(pid, programs, tier, describe, only, only_program)
    except CheckError as e:
        print("ERROR:", e)
        return 2
    ev["assumptions"] = assumptions
    if only is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print("%s %s: states=%d transitions=%d traces=%d build=%.1fs run=%.1fs %s" % (
        pid, tier, c["states"], c["transitions"], c["traces_validated_against_impl"], c["build_s"], c["run_s"],
        " ".join("%s=%d" % kv for kv in sorted(c["counters"].items()))))
    for s, why in c["skipped_legs"].items():
        print("note: leg %s skipped (does not compile on this tree): %s" % (s, why))
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if confirmed:
        r, v = confirmed[0]
        path = write_replay(pid, tier, r, v)
        print(v["detail"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("ERROR:", e)
    if errors:
        return 2
    if only is None and c["transitions"] == 0:
        print("ERROR: nothing explored")
        return 2
    return 0
