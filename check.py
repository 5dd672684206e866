#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py ID [--tier quick|thorough] [--seed N] [--case KIND:INDEX] [--mult X]

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not run (build failure, nothing observed).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, pathlib, shutil
import signal, subprocess, sys, tempfile, time

V = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
EVID = pathlib.Path(os.environ.get("VERIF_EVIDENCE", V / "evidence"))
sys.path.insert(0, str(V))
from checks import CHECKS  # noqa: E402

NPROC = os.cpu_count() or 4
CXX = {"gcc": "g++-14", "clang": "clang++-18"}
BASE = ["-std=c++23", "-g1", "-w", f"-I{REPO}/include", f"-I{V}/shim", f"-I{V}/harness",
        "-include", "slp_prelude.hpp", "-isystem", "/usr/include/eigen3"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4",
}


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO / "include", REPO / "src", REPO / "python", V / "shim", V / "harness"]
    for root in roots:
        for f in sorted(root.rglob("*")):
            if f.is_file() and "__pycache__" not in f.parts:
                h.update(str(f).encode())
                h.update(f.read_bytes())
    return h.hexdigest()


TREE = None


def compile_one(cmd, obj, src):
    """Compiles src to obj; a content-addressed cache only saves time in a
    developer's session (every input is in the key)."""
    key = hashlib.sha256((TREE + " ".join(cmd) + str(src)).encode()).hexdigest()
    cache = V / "build" / "cache" / (key + ".o")
    if cache.exists():
        shutil.copyfile(cache, obj)
        os.utime(cache)
        return
    r = subprocess.run(cmd + ["-c", str(src), "-o", str(obj)], capture_output=True, text=True)
    if r.returncode:
        errs = [l for l in r.stderr.splitlines() if "error:" in l] or r.stderr.splitlines()
        raise CheckError(f"compilation of {src} failed:\n" + "\n".join(errs[:8])[:2500])
    if os.environ.get("VERIF_CACHE", "1") == "1":
        cache.parent.mkdir(parents=True, exist_ok=True)
        tmp = cache.with_suffix(f".{os.getpid()}")
        shutil.copyfile(obj, tmp)
        os.replace(tmp, cache)


def prune_cache(limit=3 << 30):
    d = V / "build" / "cache"
    if not d.exists():
        return
    fs = sorted(((f.stat().st_mtime, f.stat().st_size, f) for f in d.iterdir()), reverse=True)
    total = 0
    for _, size, f in fs:
        total += size
        if total > limit:
            f.unlink(missing_ok=True)


LIBS = {
    "none": [],
    "pool": ["src/util/pool.cpp"],
    "ad": ["src/autodiff", "src/util"],
    "all": ["src"],
}


def lib_sources(name):
    out = []
    for p in LIBS[name]:
        p = REPO / p
        out += sorted(p.rglob("*.cpp")) if p.is_dir() else [p]
    return out


def compile_jobs(build, out):
    """(cmd, obj, src) for every translation unit of a build."""
    cc = CXX[build.get("cc", "gcc")]
    flags = BASE + build.get("flags", ["-O1"])
    jobs = []
    srcs = lib_sources(build["lib"]) + [V / "harness" / s for s in build["src"]]
    # longest first: harness TUs, then the solvers
    srcs.sort(key=lambda s: 0 if "harness" in str(s) else 1)
    for i, s in enumerate(srcs):
        fl = flags if "harness" in str(s) else [f for f in flags if not f.startswith("-DVF_")]
        jobs.append(([cc] + fl, out / f"{build['name']}.{i}.o", s))
    return jobs


def build_all(builds, out):
    jobs, links, seen = [], [], {}
    for b in builds:
        js = []
        for cmd, obj, src in compile_jobs(b, out):
            k = (tuple(cmd), src)  # built once for all that link it
            if k not in seen:
                seen[k] = obj
                jobs.append((cmd, obj, src))
            js.append((cmd, seen[k], src))
        exe = out / b["name"]
        san = [f for f in b.get("flags", []) if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        links.append(([CXX[b.get("cc", "gcc")]] + san + [str(o) for _, o, _ in js]
                      + ["-o", str(exe), "-lpthread"] + b.get("libs", []), exe))
    jobs.sort(key=lambda j: 0 if "harness" in str(j[2]) else 1)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
        def link(l):
            r = subprocess.run(l[0], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("link failed:\n" + r.stderr[-4000:])
        list(ex.map(link, links))


def run_proc(cmd, cwd, timeout, env):
    """Runs cmd in its own process group; returns (rc or None on timeout, stderr tail)."""
    errf = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf, env=env,
                         start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    n = errf.seek(0, 2)
    errf.seek(max(0, n - 200000))
    return rc, errf.read().decode(errors="replace")


def crash_summary(err, rc):
    lines = err.splitlines()
    for pat in ("ERROR: AddressSanitizer", "uninitialised value", "Invalid read", "Invalid write", "Invalid free", "Mismatched free", "runtime error:", "WARNING: ThreadSanitizer", "Assertion `", "EIGEN-CONTRACT",
                "terminate called"):
        for i, l in enumerate(lines):
            if pat in l:
                extra = [x for x in lines[i:i + 40] if " in slp::" in x][:3]
                return (l.strip()[:400] + " | " + " <- ".join(e.strip()[:160] for e in extra))
    return f"process ended with status {rc}"


class Result:
    def __init__(self):
        self.viol, self.samples, self.counters, self.maxima = [], [], {}, {}
        self.distinct, self.evals = set(), 0
        self.inconclusive = []
        self.keys, self.ignored = None, 0

    def add(self, v):
        # some builds only decide certain kinds of violations (the others are
        # decided by another property's check)
        if self.keys is None or v["key"].startswith(self.keys):
            self.viol.append(v)
        else:
            self.ignored += 1

    def absorb(self, f, tag):
        done = False
        for line in f.read_text(errors="replace").splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                d["build"] = tag
                self.viol.append(d)
            elif d["t"] == "sample":
                self.samples.append({"build": tag, **{k: d[k] for k in ("kind", "text")}})
            elif d["t"] == "sum":
                done = True
                self.evals += d["evaluations"]
                for k, v in d["counters"].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                for k, v in d["maxima"].items():
                    self.maxima[k] = max(self.maxima.get(k, v), v)
                self.distinct.update(d["distinct"])
        return done


def run_build(prop, b, args, out, res):
    exe = out / b["name"]
    res.keys = b.get("keys")
    env = dict(os.environ, **SAN_ENV, VERIF_MULT=str(args.mult * b.get("mult", 1.0)))
    env.setdefault("MALLOC_PERTURB_", "165") if "cmd" in b else None
    env.update(b.get("env", {}))
    shards = 1 if args.case else b.get("shards", NPROC)
    tmo = b.get("timeout", 240) * (6 if args.tier == "thorough" else 1)

    def cmd(shard, nshards, d, case=None):
        base = b["cmd"](out) if "cmd" in b else b.get("wrap", []) + [str(exe)]
        c = base + [b.get("prop", prop), args.tier, str(args.seed), str(shard), str(nshards), str(d)]
        return c + [case] if case else c

    def one(shard):
        d = out / f"run-{b['name']}"
        w = d / f"w{shard}"
        w.mkdir(parents=True, exist_ok=True)
        rc, err = run_proc(cmd(shard, shards, d, args.case), w, tmo, env)
        return shard, rc, err, d

    with cf.ThreadPoolExecutor(min(shards, NPROC)) as ex:
        runs = list(ex.map(one, range(shards)))
    for shard, rc, err, d in runs:
        f, cur = d / f"out.{shard}", d / f"cur.{shard}"
        done = f.exists() and res.absorb(f, b["name"])
        if rc == 0 and done:
            continue
        case = cur.read_bytes().split(b"\0")[0].decode(errors="replace") if cur.exists() else ""
        if rc in (2, 127, 126) or not case:
            raise CheckError(f"harness {b['name']} failed (status {rc}): {err[-2000:]}")
        kind = case.split()[0] if case else "?"
        if rc is None:
            # A hang? Decide by running that case alone, with time to spare.
            d2 = out / f"rerun-{b['name']}-{shard}"
            (d2 / "w").mkdir(parents=True, exist_ok=True)
            if kind.startswith("after"):
                res.inconclusive.append(f"timeout in {case}")
                continue
            rc2, err2 = run_proc(cmd(0, 1, d2, kind), d2 / "w", 120, env)
            if rc2 == 0:
                res.inconclusive.append(f"shard {shard} of {b['name']} ran out of time at {case}")
            elif rc2 is None:
                res.add({"key": "hang", "case": kind, "msg": f"does not finish within 120 s on its own (normally milliseconds): {case}", "build": b["name"]})
            else:
                res.add({"key": "crash", "case": kind, "msg": crash_summary(err2, rc2) + f" [{case}]", "build": b["name"], "stderr": err2[-6000:]})
        else:
            res.add({"key": "crash", "case": kind, "msg": crash_summary(err, rc) + f" [{case}]", "build": b["name"], "stderr": err[-6000:]})


def known_keys(prop):
    known = {}
    f = V / "known-findings.txt"
    for line in f.read_text().splitlines():
        if line.startswith("known: "):
            head, _, what = line[len("known: "):].partition(" :: ")
            pid, _, key = head.strip().partition(" ")
            fields = {"property": pid.partition("=")[2], "key": key.strip().partition("=")[2]}
            if fields.get("property") == prop:
                known[fields["key"]] = what
    return known


def main():
    global TREE
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case")
    ap.add_argument("--mult", type=float, default=1.0)
    ap.add_argument("--build", help="only this build (replays)")
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    prop, c = args.id, CHECKS[args.id]
    TREE = tree_hash()
    out = pathlib.Path(tempfile.mkdtemp(prefix=f"slpv-{prop}-"))
    res = Result()
    try:
        builds = [b for b in c["builds"] if (not args.build or b["name"] == args.build)
                  and (args.tier == "thorough" or not b.get("thorough_only"))]
        for hook in c.get("prepare", []):
            hook(REPO, V, out, sys.modules[__name__])
        build_all([b for b in builds if "cmd" not in b], out)
        tb = time.time()
        for b in builds:
            run_build(prop, b, args, out, res)
    except CheckError as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        return 2
    finally:
        if not args.keep:
            shutil.rmtree(out, ignore_errors=True)
        prune_cache()

    known, seen_known, new = known_keys(prop), {}, []
    for v in res.viol:
        # a known finding is identified by its key together with its case kind
        ident = f"{v['case'].split(':')[0]}/{v['key']}"
        if ident in known:
            seen_known[ident] = seen_known.get(ident, 0) + 1
        else:
            new.append(v)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{k}, seen {seen_known[k]} times]")

    wall = time.time() - t0
    samples = res.samples[:12]
    ev = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evals, "distinct_nontrivial": len(res.distinct), "rule": c["rule"],
            "samples": samples,
            "observed": {k: (int(v) if v == int(v) else v) for k, v in sorted(res.counters.items())},
            "maxima": res.maxima,
            "builds": [{"name": b["name"], "flags": " ".join(b.get("flags", [])), "compiler": CXX[b.get("cc", "gcc")] if "cmd" not in b else "python"} for b in builds],
            "inconclusive": res.inconclusive,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    (EVID).mkdir(exist_ok=True)
    if not args.case:
        (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False))
    print(f"{prop}: {res.evals} evaluations, {len(res.distinct)} distinct non-trivial, {len(new)} violations, "
          f"build {tb - t0:.1f} s, total {wall:.1f} s" + (f", inconclusive: {res.inconclusive}" if res.inconclusive else ""))
    if new:
        rp = EVID / f"{prop}.violation.json"
        first = new[0]
        rp.write_text(json.dumps({
            "property": prop, "seed": args.seed, "tier": args.tier,
            "replay_cmd": f"cd /verif && python3 check.py {prop} --tier {args.tier} --seed {args.seed} --build {first['build']} --case {first['case']}",
            "violations": new[:50]}, indent=1, ensure_ascii=False))
        seen = set()
        for v in new:
            if v["key"] not in seen and len(seen) < 8:
                seen.add(v["key"])
                print(f"  {v['key']} [{v['build']} {v['case']}]: {v['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if not args.case:
        for name, least in c.get("require", {}).items():
            if res.counters.get(name, 0) < least * args.mult:
                print(f"ERROR property={prop}: observed too little: {name} = {res.counters.get(name, 0)} < {least}", file=sys.stderr)
                return 2
        if len(res.distinct) < 2:
            print(f"ERROR property={prop}: nothing non-trivial observed", file=sys.stderr)
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
