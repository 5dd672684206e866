#!/usr/bin/env python3
"""Makes and tries a planted bug in a scratch copy of /repo (development only).

  seed.py make SPEC.py...   writes seeded/<id>/ and confirms it in a scratch copy
  seed.py try ID...         runs the check of the bug's property against the bug
  seed.py tryall            the same for every planted bug

A SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO
(C++ text, or None), LIB ("ad" | "all" | "none"), FLAGS, and optionally DEMO_SH.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent
SH = r'''#!/bin/bash
# Run with the repository as working directory: compiles demo.cpp against its
# sources and runs it. Exit 0: behaves.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
F="-std=c++23 @FLAGS@ -w -I$PWD/include -I$D/shim -include slp_prelude.hpp -isystem /usr/include/eigen3"
i=0
for s in @SRCS@ "$D/demo.cpp"; do
  i=$((i+1)); echo "$s $T/$i.o"
done | xargs -P8 -L1 sh -c 'g++-14 '"$F"' -c "$0" -o "$1"' || { echo "demo does not compile"; exit 3; }
g++-14 @FLAGS@ "$T"/*.o -lpthread -o "$T/demo" || exit 3
mkdir "$T/cwd" && cd "$T/cwd" && timeout 120 "$T/demo"
'''
SRCS = {"none": "", "pool": "src/util/pool.cpp", "ad": "$(find src/autodiff src/util -name '*.cpp')", "all": "$(find src -name '*.cpp')"}


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = pathlib.Path(tempfile.mkdtemp(prefix="seedrepo-", dir="/tmp"))
    sh(f"cp -a /repo {d}/repo")
    r = d / "repo"
    sh("git checkout -q -- . && git clean -fdq", r)
    return d, r


def make(spec):
    ns = {}
    exec(pathlib.Path(spec).read_text(), ns)
    out = V / "seeded" / ns["ID"]
    if out.exists():
        shutil.rmtree(out)
    out.mkdir(parents=True)
    d, r = scratch()
    try:
        for f, old, new in ns["EDITS"]:
            p = r / f
            s = p.read_text()
            if s.count(old) < 1:
                print(f"{ns['ID']}: text not found in {f}"); return False
            if s.count(old) > 1:
                print(f"{ns['ID']}: text found {s.count(old)} times in {f}"); return False
            p.write_text(s.replace(old, new))
        rc, diff = sh("git diff", r)
        (out / "patch.diff").write_text(diff)
        # every removed line must be the original repository's
        rc, o = sh("git diff -U0 | grep '^-' | grep -v '^---'", r)
        base = sh("git rev-list --max-parents=0 HEAD", r)[1].strip()
        removed = [l[1:] for l in o.splitlines() if l[1:].strip()]
        for l in removed:
            hit = any(sh(f"git show {base}:{f}", r)[1].splitlines().count(l) for f, _, _ in ns["EDITS"])
            if not hit:
                print(f"{ns['ID']}: NOT an original line: {l}")
        if ns.get("DEMO"):
            shutil.copytree(V / "shim", out / "shim")
            (out / "demo.cpp").write_text(ns["DEMO"])
            text = SH.replace("@FLAGS@", ns.get("FLAGS", "-O1")).replace("@SRCS@", SRCS[ns.get("LIB", "ad")])
        else:
            text = ns["DEMO_SH"]
        for n, t in ns.get("FILES", {}).items():
            (out / n).parent.mkdir(parents=True, exist_ok=True)
            (out / n).write_text(t)
        (out / "demo.sh").write_text(text)
        os.chmod(out / "demo.sh", 0o755)
        (out / "meta.json").write_text(json.dumps({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, indent=1) + "\n")
        # the existing tests, built in the scratch copy
        b = sh(f"sed 's#/repo#{r}#g' /opt/vp/build.sh > {d}/build.sh; cat {d}/build.sh | head -50", None)
        rc1, o1 = sh(f"{out}/demo.sh", r)
        sh("git checkout -q -- .", r)
        rc0, o0 = sh(f"{out}/demo.sh", r)
        ok = rc0 == 0 and rc1 not in (0, 3)
        print(f"{ns['ID']} [{ns['PROPERTY']}]: demo clean={rc0} patched={rc1} {'OK' if ok else 'BAD'} | {o1.strip()[-200:]!r}" + ("" if ok else f" | clean: {o0[-800:]}"))
        return ok
    finally:
        shutil.rmtree(d)


def try_one(i, extra=()):
    out = V / "seeded" / i
    prop = json.loads((out / "meta.json").read_text())["property"]
    d, r = scratch()
    try:
        rc, o = sh(f"git apply {out}/patch.diff", r)
        if rc:
            print(f"{i}: patch does not apply: {o[:300]}"); return
        for p in [prop, *extra]:
            env = dict(os.environ, VERIF_REPO=str(r), VERIF_EVIDENCE=str(d / "ev"))
            rc, o = sh(f"python3 {V}/check.py {p}", None, env)
            verdict = {0: "MISSED", 1: "caught"}.get(rc, f"exit {rc}")
            lines = [l for l in o.splitlines() if not l.startswith("KNOWN")]
            print(f"{i} [{p}]: {verdict} | " + " | ".join(l.strip()[:230] for l in lines[:3]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    what, rest = sys.argv[1], sys.argv[2:]
    if what == "make":
        for s in rest:
            make(s)
    elif what == "try":
        for s in rest:
            try_one(s)
    elif what == "tryall":
        for s in sorted(os.listdir(V / "seeded")):
            try_one(s)
