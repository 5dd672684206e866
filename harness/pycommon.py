"""The case runner of the Python harnesses (see common.hpp for the C++ one)."""
import hashlib
import json
import math
import os
import random
import sys


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Runner:
    def __init__(self):
        a = sys.argv
        self.prop, tier, self.seed, self.shard, self.shards, self.dir = a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6]
        self.thorough = tier == "thorough"
        self.only = a[7] if len(a) > 7 else None
        self.mult = float(os.environ.get("VERIF_MULT", "1"))
        self.verbose = "VERIF_VERBOSE" in os.environ
        self.out = open(f"{self.dir}/out.{self.shard}", "w")
        self.cur = os.open(f"{self.dir}/cur.{self.shard}", os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        self.evaluations, self.violations = 0, 0
        self.distinct, self.counters, self.maxima, self.samples = set(), {}, {}, {}
        self.kind, self.index = "", 0

    def mark(self, text):
        b = text.encode()[:4000]
        os.pwrite(self.cur, b + b"\0", 0)

    def fail(self, key, msg):
        self.violations += 1
        self.out.write(json.dumps({"t": "viol", "key": key, "case": f"{self.kind}:{self.index}", "msg": msg[:3000]}) + "\n")
        self.out.flush()
        if self.verbose:
            print("VIOL", key, f"[{self.kind}:{self.index}]", msg, file=sys.stderr)
        if self.violations > 200:
            self.finish()
            os._exit(0)

    def check(self, cond, key, msg):
        if not cond:
            raise Violation(key, msg if isinstance(msg, str) else msg())

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def nontrivial(self, text):
        if len(self.distinct) < 200000:
            self.distinct.add(int.from_bytes(hashlib.blake2b(text.encode(), digest_size=6).digest(), "big"))

    def sample(self, text):
        n = self.samples.get(self.kind, 0)
        self.samples[self.kind] = n + 1
        if n < 2 and self.shard == 0:
            self.out.write(json.dumps({"t": "sample", "kind": self.kind, "text": text[:600]}) + "\n")

    def cases(self, kind, n, f, factor=12):
        n = int(n * self.mult * (factor if self.thorough else 1))
        self.kind = kind
        only = -1
        if self.only:
            k, _, i = self.only.rpartition(":")
            if k != kind:
                return
            only = int(i)
        for i in [only] if only >= 0 else range(self.shard, n, self.shards):
            self.index = i
            self.mark(f"{kind}:{i}")
            rng = random.Random(f"{self.prop}/{kind}/{self.seed}/{i}")
            self.evaluations += 1
            self.count("cases " + kind)
            try:
                f(rng)
            except Violation as v:
                self.fail(v.key, str(v))
            except Exception as e:
                import traceback
                self.fail("exception", f"unexpected {type(e).__name__}: {e} | " + " <- ".join(traceback.format_exc().splitlines()[-7:]))
        self.mark(f"after {kind}")

    def finish(self):
        fin = {k: (v if math.isfinite(v) else 1e308) for k, v in self.maxima.items()}
        self.out.write(json.dumps({"t": "sum", "evaluations": self.evaluations, "counters": self.counters, "maxima": fin, "distinct": list(self.distinct)}) + "\n")
        self.out.close()
        # (interpreter shutdown is not what is judged)
        sys.stdout.flush()
        os._exit(0)
