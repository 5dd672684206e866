"""P02: problems and optimal control problems solved from Python.

Every problem is built twice: through the Python API and, word for word, in a
C++ program linked with the same library. Statuses, iteration data, solutions
and types must agree; callbacks, exceptions, signals and multistart are judged
by what was observed of them.
"""
import gc
import json
import math
import os
import signal
import subprocess
import tempfile
import threading
import time
import weakref
from datetime import timedelta

import numpy as np
import scipy.sparse
from pycommon import Runner

from sleipnir import autodiff as ad
from sleipnir.autodiff import ExpressionType, Variable, VariableMatrix
from sleipnir.optimization import OCP, DynamicsType, EqualityConstraints, ExitStatus, InequalityConstraints, Problem, TimestepMethod, TranscriptionMethod, bounds, multistart

R = Runner()
SCRATCH = tempfile.mkdtemp(prefix="p02.", dir=R.dir)
os.chdir(SCRATCH)

STATUS = ["SUCCESS", "CALLBACK_REQUESTED_STOP", "TOO_FEW_DOFS", "LOCALLY_INFEASIBLE", "GLOBALLY_INFEASIBLE", "FACTORIZATION_FAILED", "LINE_SEARCH_FAILED",
          "FEASIBILITY_RESTORATION_FAILED", "NONFINITE_INITIAL_GUESS", "DIVERGING_ITERATES", "MAX_ITERATIONS_EXCEEDED", "TIMEOUT"]
TYPES = ["NONE", "CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR"]
REF = subprocess.Popen([os.environ["SLEIPNIR_REF"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)


def reference(words):
    REF.stdin.write("problem " + " ".join(words) + " end\n")
    REF.stdin.flush()
    line = REF.stdout.readline()
    if not line:
        raise RuntimeError("the reference program ended")
    return json.loads(line)


UN = ["neg", "sin", "cos", "exp", "sq", "cube"]


class Model:
    """A problem in Python and the words that describe it to the reference."""

    def __init__(self, g):
        self.g, self.p, self.words, self.vars = g, Problem(), [], []
        self.nodes = []  # Variables by number
        self.eqs = []  # where equality constraints are described: (place, entries)
        self.x = []  # numbers of the decision variables

    def add(self, v, *words):
        self.words += [str(w) for w in words]
        self.nodes.append(v)
        return len(self.nodes) - 1

    def variables(self):
        g = self.g
        k = g.randint(0, 5)
        if k == 0:
            i = self.add(self.p.decision_variable(), "dv", 0, 0)
            ids = [i]
        elif k == 1:
            n = g.randint(1, 2)
            m = self.p.symmetric_decision_variable(n)
            ids = []
            self.words += ["sdv", str(n)]
            for i in range(n):
                for j in range(n):
                    self.nodes.append(m[i, j])
                    if j <= i:
                        ids.append(len(self.nodes) - 1)
        else:
            r, c = (g.randint(1, 3), 1) if k < 4 else (g.randint(1, 2), g.randint(1, 2))
            m = self.p.decision_variable(r) if c == 1 and g.random() < 0.5 else self.p.decision_variable(r, c)
            R.check(tuple(m.shape) == (r, c), "decision variables", lambda: f"{m.shape} instead of {(r, c)}")
            self.words += ["dv", str(r), str(c)]
            ids = []
            for i in range(r):
                for j in range(c):
                    self.nodes.append(m[i, j])
                    ids.append(len(self.nodes) - 1)
        self.x += ids
        return ids

    def start(self, i, x):
        self.words += ["x", str(i), repr(float(x))]
        self.nodes[i].set_value(float(x) if self.g.random() < 0.8 or not math.isfinite(x) or x != int(x) else int(x))

    # expressions: numbers of nodes
    def k(self, c): return self.add(Variable(float(c)), "k", repr(float(c)))
    def bin(self, op, a, b):
        x, y = self.nodes[a], self.nodes[b]
        v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "hypot": lambda: ad.hypot(x, y)}[op]()
        return self.add(v, op, a, b)
    def un(self, op, a):
        x = self.nodes[a]
        v = {"neg": lambda: -x, "sin": lambda: ad.sin(x), "cos": lambda: ad.cos(x), "exp": lambda: ad.exp(x), "sqrt": lambda: ad.sqrt(x), "log": lambda: ad.log(x), "sq": lambda: x**2, "cube": lambda: x**3}[op]()
        return self.add(v, op, a)
    def num(self, op, a, c):
        x = self.nodes[a]
        if self.g.random() < 0.3 and c == int(c):
            c = int(c)
        v = {"+k": lambda: x + c, "*k": lambda: x * c, "k-": lambda: c - x}[op]()
        return self.add(v, op, a, repr(float(c)))

    def linear(self, ids):
        g = self.g
        e = self.num("*k", ids[0], g.choice([1.0, -1.0, 2.0, 0.5, 3.0]))
        for i in ids[1:]:
            e = self.bin("+" if g.random() < 0.6 else "-", e, self.num("*k", i, g.choice([1.0, 2.0, 0.25, 1.5])))
        return e

    def cost(self, hard):
        """A smooth cost, convex unless hard."""
        g = self.g
        e = None
        for i in self.x:
            t = self.num("+k", i, -g.randint(-4, 4) / 2)
            t = self.un("sq", t)
            t = self.num("*k", t, g.choice([1.0, 0.5, 2.0, 10.0]))
            e = t if e is None else self.bin("+", e, t)
        for _ in range(g.randint(0, 2)):
            a, b = g.choice(self.x), g.choice(self.x)
            if hard:
                t = g.choice([lambda: self.un("sin", self.bin("*", a, b)), lambda: self.un("exp", self.num("*k", a, 0.5)), lambda: self.un("sq", self.bin("-", self.un("sq", a), b)), lambda: self.un("cos", self.num("*k", a, 2.0))])()
            else:
                t = g.choice([lambda: self.un("exp", self.num("*k", a, 0.5)), lambda: self.un("sq", self.bin("-", a, b)), lambda: self.un("sq", self.num("*k", a, 2.0))])()
            e = self.bin("+", e, t)
        return e

    def matrix(self, ids, r, c):
        """The same nodes as a Python matrix."""
        g = self.g
        if r * c == 1 and g.random() < 0.5:
            return self.nodes[ids[0]]
        m = VariableMatrix([[self.nodes[ids[i * c + j]] for j in range(c)] for i in range(r)])
        return m if g.random() < 0.6 else m[:, :]

    def side(self, r, c, lo=-3, hi=3):
        """Numbers in one of the forms a constraint takes: (object, ids)."""
        g = self.g
        vals = [g.randint(4 * lo, 4 * hi) / 4 for _ in range(r * c)]
        k = g.randint(0, 4)
        if k <= 1:
            x = vals[0] if k == 0 else float(int(vals[0]))
            i = self.k(x)
            return (x if k == 0 else int(x)), [i] * (r * c)
        ids = [self.k(v) for v in vals]
        a = np.array(vals).reshape(r, c)
        if k == 2:
            return g.choice([a, np.asfortranarray(a), np.ascontiguousarray(a.T).T]), ids
        return self.matrix(ids, r, c), ids

    def constrain(self, kinds):
        g = self.g
        kind = g.choice(kinds)
        r, c = g.choice([(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)])
        ids = []
        for _ in range(r * c):
            k = g.randint(0, 3)
            some = g.sample(self.x, min(len(self.x), g.randint(1, 2)))
            ids.append(some[0] if k == 0 else self.linear(some) if k < 3 else self.num("+k", self.linear(some), g.randint(-2, 2)))
        lhs = self.matrix(ids, r, c)
        both = lambda a, b: ["%d" % n for n in (r, c)] + [str(i) for i in a] + ["%d" % n for n in (r, c)] + [str(i) for i in b]
        if kind == "bounds":
            lo, lids = self.side(r, c, -6, -3)
            hi, hids = self.side(r, c, 3, 6)
            con = bounds(lo, lhs, hi)
            self.words += ["bnd"] + [str(r), str(c)] + [str(i) for i in lids] + both(ids, hids)
        else:
            rhs, rids = self.side(r, c, *((-1, 1) if kind == "eq" else (2, 6) if kind == "le" else (-6, -2)))
            if kind == "eq":
                self.eqs.append((len(self.words), r * c))
            if isinstance(rhs, np.ndarray) and isinstance(lhs, Variable):
                lhs = VariableMatrix(lhs)
            if g.random() < 0.3:
                con = {"eq": lambda: rhs == lhs, "le": lambda: rhs >= lhs, "ge": lambda: rhs <= lhs}[kind]()
                self.words += [{"eq": "eq", "le": "ge", "ge": "le"}[kind]] + both(rids, ids)
            else:
                con = {"eq": lambda: lhs == rhs, "le": lambda: lhs <= rhs, "ge": lambda: lhs >= rhs}[kind]()
                self.words += [kind] + both(ids, rids)
        if g.random() < 0.2:  # joined lists mean the same
            con = EqualityConstraints([con]) if kind == "eq" else InequalityConstraints([con])
        R.check(isinstance(con, EqualityConstraints if kind == "eq" else InequalityConstraints), "constraint type", lambda: f"{kind} gives a {type(con)}")
        self.p.subject_to(con)
        R.count(f"constraints: {kind}")


def build(g, hard):
    """A problem, and its description to the reference.  a == b may mean a - b
    or b - a; which it is is read off a copy, so that the reference solves the
    same problem up to rounding and not only an equivalent one."""
    state = g.getstate()
    m = build1(g, hard)
    if m.eqs:
        g2 = type(g)()
        g2.setstate(state)
        m2, jac = build1(g2, hard), []
        for k, i in enumerate(m2.x):  # (from somewhere finite that is not a solution)
            m2.nodes[i].set_value(0.3717 + 0.0113 * k)
            m2.words += ["x", str(i), repr(0.3717 + 0.0113 * k)]
        with Output():
            m2.p.add_callback(lambda info: jac.append(record(info)["A_e"]) or True)
            m2.p.solve()
        a = reference(m2.words + ["stop", "0", "solve 1e-8 5000 inf 0"])[0]
        if jac and a["iterations"]:
            b = a["iterations"][0]["A_e"]
            b = np.array(b[2:], dtype=float).reshape(int(b[0]), int(b[1]))
            R.check(jac[0].shape == b.shape, "iteration data", lambda: f"A_e of shape {jac[0].shape} instead of {b.shape}: {' '.join(m.words)[:1000]}")
            row = 0
            for at, n in m.eqs:
                x, y = jac[0][row:row + n], b[row:row + n]
                row += n
                if same(x, -y) and not same(x, y):
                    k = 3 + n
                    m.words[at + 1:at + 1 + 2 * (2 + n)] = m.words[at + k:at + k + 2 + n] + m.words[at + 1:at + k]
                    R.count("equality constraints the other way round")
    return m


def build1(g, hard):
    m = Model(g)
    for _ in range(g.randint(1, 3)):
        m.variables()
    for i in m.x:
        if g.random() < 0.8:
            m.start(i, g.randint(-8, 8) / 4)
    if hard and g.random() < 0.04:
        m.start(g.choice(m.x), g.choice([math.nan, math.inf, -math.inf]))
    k = g.randint(0, 9)
    if k > 0:
        c = m.linear(m.x) if hard and g.random() < 0.08 else m.cost(hard)
        if g.random() < 0.25:
            n = m.un("neg", c)
            m.p.maximize(m.nodes[n] if g.random() < 0.5 else VariableMatrix(m.nodes[n]))
            m.words += ["max", str(n)]
        else:
            m.p.minimize(m.nodes[c] if g.random() < 0.5 else VariableMatrix(m.nodes[c]))
            m.words += ["min", str(c)]
    elif g.random() < 0.5:
        x = float(g.randint(-3, 3))
        m.p.minimize(x)
        m.words += ["min", str(m.k(x))]
    which = g.randint(0, 3)
    kinds = [[], ["eq"], ["le", "ge", "bounds"], ["eq", "le", "ge", "bounds"]][which]
    if kinds:
        for _ in range(g.randint(1, 3)):
            m.constrain(kinds)
    return m


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
      return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))


def options(g):
    """Random keyword arguments and the same for the reference."""
    kw, tol, it, to, feas = {}, 1e-8, 5000, "inf", 0
    if g.random() < 0.4:
        tol = g.choice([1e-2, 1e-4, 1e-6, 1e-10, 0.5])
        kw["tolerance"] = tol
    if g.random() < 0.35:
        it = g.choice([0, 1, 2, 3, 5, 8, 5000])
        kw["max_iterations"] = it
    if g.random() < 0.15:
        to = g.choice([0.0, 1e6, 60, -1.0])
        kw["timeout"] = to
    if g.random() < 0.4:
        kw["feasible_ipm"] = g.random() < 0.7
        feas = int(kw["feasible_ipm"])
    if g.random() < 0.2:
        kw["diagnostics"] = g.random() < 0.6
    if g.random() < 0.2:
        kw["spy"] = g.random() < 0.6
    items = list(kw.items())
    g.shuffle(items)
    return dict(items), [repr(tol), str(it), to if to == "inf" else repr(float(to)), str(feas)]


FIELDS = ("x", "s", "y", "z", "g", "H", "A_e", "A_i")


def record(info):
    out = {"iteration": info.iteration}
    for f in FIELDS:
        v = getattr(info, f)
        out[f] = v.toarray() if scipy.sparse.issparse(v) else np.array(v)
        if f in "gH" or f in ("A_e", "A_i"):
            R.check(scipy.sparse.issparse(v) or f == "g", "iteration data", lambda: f"{f} is a {type(v)}")
    return out


def same_iteration(mine, theirs, what):
    R.check(mine["iteration"] == theirs["iteration"], "iteration data", lambda: f"iteration {mine['iteration']} instead of {theirs['iteration']}: {what()}")
    for f in FIELDS:
        want = np.array(theirs[f], dtype=float)
        if f not in ("x", "s", "y", "z"):
            want = want[2:].reshape(int(want[0]), int(want[1]))
        got = mine[f]
        if f in ("x", "s", "y", "z", "g"):
            got, want = got.reshape(-1), want.reshape(-1)
        R.check(same(got, want), "iteration data", lambda: f"{f} of iteration {mine['iteration']} is {got.tolist()} instead of {want.tolist()}: {what()}")
        R.count("iteration fields compared")


class Output:
    """What the process prints while solving."""

    def __enter__(self):
        import sys
        sys.stdout.flush()
        self.f = open("stdout.txt", "w+b")
        self.old = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        os.dup2(self.old, 1)
        os.close(self.old)
        self.f.seek(0)
        self.text = self.f.read().decode(errors="replace")
        self.f.close()


SPIES = ("H.spy", "A_e.spy", "A_i.spy")


def solve(m, kw, **more):
    """Solves and checks output and files against the options."""
    for f in SPIES:
        if os.path.exists(f):
            os.remove(f)
    with Output() as o:
        st = m.p.solve(**kw, **more)
    R.check(bool(o.text.strip()) == kw.get("diagnostics", False), "diagnostics", lambda: f"diagnostics={kw.get('diagnostics')}: printed {o.text[:200]!r}")
    R.count("outputs judged")
    return st, o.text


def check_spies(kw, m, log, what):
    present = [f for f in SPIES if os.path.exists(f)]
    if not kw.get("spy", False):
        R.check(not present, "spy", lambda: f"{present} written: {what()}")
        return
    R.count("spy files judged")
    if not log:
        return
    want = ["H.spy"] + (["A_e.spy"] if log[0]["A_e"].size or log[0]["A_i"].size else []) + (["A_i.spy"] if log[0]["A_i"].size else [])
    R.check(set(want) <= set(present), "spy", lambda: f"{present} instead of {want}: {what()}")
    for f in present:
        R.check(os.path.getsize(f) > 20, "spy", lambda: f"{f} is empty: {what()}")


# ------------------------------------------------------------------ problems
def problems(g):
    m = build(g, g.random() < 0.5)
    text = lambda: " ".join(m.words)[:1500]
    if g.random() < 0.5:
        t = [m.p.cost_function_type(), m.p.equality_constraint_type(), m.p.inequality_constraint_type()]
        m.words.append("types")
    else:
        t = None
    runs = []
    stop = g.randint(0, 6) if g.random() < 0.35 else -1
    m.words += ["stop", str(stop)]
    answers = []
    for rep in range(g.choice([1, 1, 2, 3])):
        if rep:
            for i in m.x:
                if g.random() < 0.6:
                    m.start(i, g.randint(-8, 8) / 4)
        kw, ref = options(g)
        log, order, extra = [], [], []
        mode = g.randint(0, 3)
        if stop >= 0 and mode == 0:
            mode = 1
        if mode == 3:
            def other(info):
                extra.append(info.iteration)
                return False
            m.p.add_callback(other)
        if mode:
            def cb(info):
                log.append(record(info))
                return g_true(len(log) - 1 == stop)
            m.p.add_callback(cb)
        st, printed = solve(m, kw)
        if mode and g.random() < 0.2:  # cleared callbacks stay silent, also the one that stops
            pass
        m.p.clear_callbacks()
        m.words += ["solve"] + ref
        ends = [m.nodes[i].value() for i in m.x]
        for i in m.x:
            m.words += ["value", str(i)]
        runs.append((kw, mode, st, log, extra, ends, printed))
        check_spies(kw, m, log, text)
    a = reference(m.words)
    if t is not None:
        want = a.pop(0)
        R.check([e.name for e in t] == want, "types", lambda: f"{t} instead of {want}: {text()}")
        R.count("types compared")
    for kw, mode, st, log, extra, ends, printed in runs:
        r = a.pop(0)
        vals, a = a[:len(m.x)], a[len(m.x):]
        what = lambda: f"{kw}: {text()}"
        R.check(isinstance(st, ExitStatus) and st.name == r["status"], "status", lambda: f"{st} instead of {r['status']}: {what()}")
        R.check(same(ends, vals), "solution", lambda: f"{ends} instead of {vals}: {what()}")
        R.count("solves compared")
        R.count("status " + st.name)
        if mode:
            R.check(len(log) == r["count"], "callback calls", lambda: f"{len(log)} calls instead of {r['count']}: {what()}")
            for mine, theirs in zip(log, r["iterations"]):
                same_iteration(mine, theirs, what)
            R.check(mode != 3 or extra == [e["iteration"] for e in log], "callback calls", lambda: f"two callbacks saw {extra} and {[e['iteration'] for e in log]}: {what()}")
        if kw.get("diagnostics") and printed:
            R.check("SUCCESS" in printed.upper() or st != ExitStatus.SUCCESS or "no-op" in printed or "success" in printed.lower(), "diagnostics", lambda: f"no result in the output: {printed[-300:]!r}")
    R.nontrivial(" ".join(m.words))
    R.sample(text())


def g_true(b):
    return bool(b)


# -------------------------------------------------------------------- misuse
class Mine(Exception):
    pass


class Base(BaseException):
    pass


def refused(key, f, kinds=Exception, what=""):
    try:
        r = f()
    except kinds:
        R.count("misuse refused")
        return
    R.check(False, key, f"no exception, but {r!r}: {what}")


def misuse(g):
    m = build(g, False)
    words = list(m.words)
    before = [m.nodes[i].value() for i in m.x]
    for _ in range(g.randint(1, 4)):
        k = g.randint(0, 11)
        if k == 0:
            name = g.choice(["tol", "Tolerance", "max_iteration", "maxIterations", "time_out", "feasible", "diagnostic", "spys", "options", "", "x", "tolerance "])
            refused("unknown option", lambda: m.p.solve(**{name: 1}), KeyError, name)
            refused("unknown option", lambda: m.p.solve(**{"max_iterations": 1, name: 1}), KeyError, name)
        elif k == 1:
            name, v = g.choice([("tolerance", "a"), ("max_iterations", 1.5), ("max_iterations", "3"), ("max_iterations", None), ("timeout", "1"), ("timeout", None), ("feasible_ipm", 1), ("feasible_ipm", "yes"), ("diagnostics", None), ("spy", 3.0), ("tolerance", [1.0])])
            refused("wrong option type", lambda: m.p.solve(**{name: v}), Exception, f"{name}={v!r}")
        elif k == 2:
            refused("positional options", lambda: m.p.solve(1e-8), TypeError)
        elif k == 3:
            refused("not a constraint", lambda: m.p.subject_to(g.choice([True, 1.0, None, "x", m.nodes[0], np.eye(2)])), TypeError)
        elif k == 4:
            refused("not a cost", lambda: m.p.minimize(g.choice([None, "x", VariableMatrix(2, 2), VariableMatrix(2, 1), m.nodes[0] == m.nodes[0]])))
        elif k == 5:
            refused("not a callback", lambda: m.p.add_callback(g.choice([3, "x", None, []])), TypeError)
        elif k == 6:
            refused("not a shape", lambda: m.p.decision_variable(g.choice(["x", 1.5, None, [1]])), TypeError)
        elif k == 7:
            refused("bounds shapes", lambda: bounds(np.zeros((3, 1)), VariableMatrix(2, 1), 1.0))
        elif k == 8:
            refused("comparison shapes", lambda: m.p.subject_to(VariableMatrix(2, 1) == np.zeros((3, 1))))
        elif k == 9:
            a, b = m.nodes[m.x[0]] == 1.0, m.nodes[m.x[0]] <= 1.0
            refused("mixed constraint list", lambda: EqualityConstraints([a, b]))
            refused("mixed constraint list", lambda: InequalityConstraints([a, b]))
        elif k == 10:
            a, b = m.k(1.0), m.k(2.0)
            words = list(m.words)
            x, y = m.nodes[a], m.nodes[b]
            for con, want in ((x == y, False), (x <= y, True), (x >= y, False), (EqualityConstraints([x == x, y == y]), True), (EqualityConstraints([x == x, x == y]), False),
                              (InequalityConstraints([x <= y, y >= x]), True), (InequalityConstraints([x <= y, x >= y]), False), (bounds(0, x, y), True), (bounds(y, x, 3), False), (bounds(1, VariableMatrix([[x], [y]]), 2), True), (bounds(0, VariableMatrix([[x], [y]]), np.array([[1.0], [1.5]])), False)):
                R.check(bool(con) == want, "constraint truth", lambda: f"{bool(con)} instead of {want}")
            R.count("constraint truths", 11)
        else:
            refused("feature that is not there", lambda: m.p.solve(iterations=3), KeyError)
    R.check([m.nodes[i].value() for i in m.x] == before, "after misuse", "a refused call changed decision variables")
    # the problem is still what it was
    log = []
    m.p.add_callback(lambda info: bool(log.append(record(info))))
    st, _ = solve(m, {})
    a = reference(m.words + ["solve 1e-8 5000 inf 0"])[0]
    R.check(st.name == a["status"] and len(log) == a["count"], "after misuse", lambda: f"{st} after {len(log)} iterations instead of {a['status']} after {a['count']}: {' '.join(m.words)[:800]}")
    for mine, theirs in zip(log, a["iterations"]):
        same_iteration(mine, theirs, lambda: "after misuse: " + " ".join(m.words)[:800])
    R.count("problems used after misuse")
    R.nontrivial(" ".join(m.words))


# ---------------------------------------------------------------- exceptions
def exceptions(g):
    m = build(g, g.random() < 0.5)
    text = lambda: " ".join(m.words)[:1200]
    starts = [m.nodes[i].value() for i in m.x]
    want = reference(m.words + ["solve 1e-8 5000 inf 0"])[0]
    for rep in range(g.randint(1, 3)):
        at = g.randint(0, max(0, min(want["count"], 20) - 1)) if g.random() < 0.9 else want["count"] + 3
        cls = g.choice([Mine, ValueError, RuntimeError, KeyError, Base, KeyboardInterrupt, SystemExit, StopIteration, MemoryError, ZeroDivisionError])
        token = object()
        seen = []
        first = g.random() < 0.5
        after = []
        tell = lambda info: bool(after.append(info.iteration))
        if first:
            m.p.add_callback(tell)
        def cb(info):
            seen.append(record(info))
            if len(seen) - 1 == at:
                exc = cls("stop here", token)
                if g.random() < 0.3:
                    try:
                        1 / 0
                    except ZeroDivisionError as e:
                        raise exc from e
                raise exc
            return False
        m.p.add_callback(cb)
        if not first:
            m.p.add_callback(tell)
        kw = {}
        got = None
        try:
            with Output():
                st = m.p.solve(**kw)
        except BaseException as e:  # noqa: BLE001
            got = e
        m.p.clear_callbacks()
        if at < want["count"]:
            R.check(got is not None, "exception lost", lambda: f"{cls.__name__} raised in iteration {at} did not reach the caller: {text()}")
            R.check(type(got) is cls and got.args == ("stop here", token), "exception changed", lambda: f"{got!r} instead of {cls.__name__}: {text()}")
            R.check(len(seen) == at + 1 and len(after) == at + (1 if first else 0), "calls after an exception", lambda: f"{len(seen)} and {len(after)} calls, exception in call {at}: {text()}")
            R.count("exceptions in callbacks")
            if g.random() < 0.5:
                tb = got.__traceback__
                del tb
        else:
            R.check(got is None, "exception invented", lambda: f"{got!r}: {text()}")
        got = None
        for mine, theirs in zip(seen, want["iterations"]):
            same_iteration(mine, theirs, lambda: "before an exception: " + text())
        for i, x in zip(m.x, starts):
            m.nodes[i].set_value(x)
    # and it solves as if nothing had happened
    log = []
    m.p.add_callback(lambda info: bool(log.append(record(info))))
    with Output():
        st = m.p.solve()
    R.check(st.name == want["status"] and len(log) == want["count"], "after an exception", lambda: f"{st} after {len(log)} iterations instead of {want['status']} after {want['count']}: {text()}")
    for mine, theirs in zip(log, want["iterations"]):
        same_iteration(mine, theirs, lambda: "after an exception: " + text())
    R.count("problems used after an exception")
    R.nontrivial(" ".join(m.words) + str(g.random()))
    R.sample(text())


# ------------------------------------------------------------------- signals
class Alarm(BaseException):
    pass


def signals(g):
    n = g.randint(40, 70)
    p = Problem()
    x = p.decision_variable(n)
    e = 0.0
    for i in range(n):
        x[i].set_value(g.randint(-20, 20) / 10)
        e = e + (x[i] ** 2 - 1.0 - 0.1 * x[(i + 1) % n]) ** 2 + 0.1 * x[(i * 7 + 3) % n] * x[i]
    p.minimize(e)
    for i in range(n):
        p.subject_to(x[i] * x[(i + 1) % n] >= -3.0)
        p.subject_to(x[i] <= 4.0)
    mode = g.randint(0, 2)
    if mode == 0:
        p.add_callback(lambda info: False)
        p.clear_callbacks()
    elif mode == 1:
        p.add_callback(lambda info: False)
    fired = []
    def handler(sig, frame):
        fired.append(time.monotonic())
        raise Alarm(sig)
    old = signal.signal(signal.SIGALRM, handler)
    got, st = None, None
    t0 = time.monotonic()
    try:
        signal.setitimer(signal.ITIMER_REAL, 0.001 + 0.02 * g.random())
        try:
            with Output():
                st = p.solve(tolerance=1e-300, max_iterations=400)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Alarm as a:
        got = a
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    R.check(got is not None or not fired, "signal lost", f"a signal handler raised, but solve() returned {st}")
    if got is not None and st is None:
        R.count("solves interrupted by signals")
    with Output():
        st = p.solve(max_iterations=30)
    R.check(isinstance(st, ExitStatus), "after a signal", f"{st}")
    R.nontrivial(f"{n} {mode} {t0}")


def timeouts(g):
    """A limit in seconds, with callbacks that take a known time."""
    p = Problem()
    x = p.decision_variable(2)
    x[0].set_value(-1.2 - g.random()), x[1].set_value(1.0 + g.random())
    p.minimize(100 * (x[1] - x[0] ** 2) ** 2 + (1 - x[0]) ** 2)
    kind = g.randint(0, 2)
    if kind == 1:
        p.subject_to(x[0] * x[1] == 1.0)
    elif kind == 2:
        p.subject_to(x[0] <= 5.0)
    nap, limit = 0.01 + 0.01 * g.random(), 0.03 + 0.04 * g.random()
    calls = []
    def cb(info):
        calls.append(info.iteration)
        time.sleep(nap)
        return False
    p.add_callback(cb)
    t0 = time.monotonic()
    with Output():
        st = p.solve(timeout=limit, tolerance=1e-12)
    took = time.monotonic() - t0
    most = math.ceil(limit / nap) + 1
    R.check(len(calls) <= most, "timeout", lambda: f"{len(calls)} calls of {nap} s with a limit of {limit} s")
    if st == ExitStatus.TIMEOUT:
        R.check(took >= limit, "timeout", lambda: f"TIMEOUT after {took} s with a limit of {limit} s")
        R.count("solves that ran out of time")
    R.nontrivial(f"{kind} {nap} {limit}")


# ------------------------------------------------------------ optimal control
def ocps(g):
    ns, nu = g.randint(1, 2), g.randint(1, 2)
    N = g.randint(2, 8)
    dt = g.choice([0.05, 0.1, 0.25, 0.5])
    discrete = g.random() < 0.35
    dyn_type = DynamicsType.DISCRETE if discrete else DynamicsType.EXPLICIT_ODE
    transcriptions = [TranscriptionMethod.DIRECT_TRANSCRIPTION, TranscriptionMethod.SINGLE_SHOOTING] + ([] if discrete else [TranscriptionMethod.DIRECT_COLLOCATION])
    tr = g.choice(transcriptions)
    ts = g.choice([TimestepMethod.FIXED, TimestepMethod.FIXED, TimestepMethod.VARIABLE_SINGLE, TimestepMethod.VARIABLE])
    # the dynamics: rows of small programs over x and u
    prog = []
    for r in range(ns):
        ops, n = [], ns + nu
        a = ("*k", r, repr(g.choice([0.5, 0.25, 1.0]) if discrete else g.choice([-1.0, -0.5, 0.5])))
        ops.append(a)
        cur = n; n += 1
        ops.append(("*k", ns + g.randint(0, nu - 1), repr(g.choice([1.0, 0.5, 2.0])))); n += 1
        ops.append(("+", cur, n - 1)); cur = n; n += 1
        if g.random() < 0.4:
            ops.append(("sin", g.randint(0, ns - 1))); n += 1
            ops.append(("*k", n - 1, "0.25")); n += 1
            ops.append(("+", cur, n - 1)); cur = n; n += 1
        prog.append(ops)
    calls = []
    fail_at = g.randint(0, 3 * N) if g.random() < 0.2 else -1
    armed = [fail_at >= 0]
    def f(x, u):
        if armed[0] and len(calls) == fail_at:
            raise Mine("dynamics", fail_at)
        R.check(tuple(x.shape) == (ns, 1) and tuple(u.shape) == (nu, 1), "dynamics arguments", lambda: f"{x.shape} and {u.shape}")
        calls.append(1)
        out = VariableMatrix(ns, 1)
        for r, ops in enumerate(prog):
            s = [x[i, 0] for i in range(ns)] + [u[i, 0] for i in range(nu)]
            for op in ops:
                if op[0] == "*k": s.append(s[op[1]] * float(op[2]))
                elif op[0] == "+": s.append(s[op[1]] + s[op[2]])
                else: s.append(ad.sin(s[op[1]]))
            out[r] = s[-1]
        return out
    words = ["ocp", ns, nu, repr(dt), N, dyn_type.name, ts.name, tr.name, ns]
    for ops in prog:
        words.append(len(ops))
        for op in ops:
            words += [len(op), *op]
    step = timedelta(seconds=dt) if g.random() < 0.5 else dt
    make = lambda: OCP(ns, nu, step, N, f, dyn_type, ts, tr)
    if dyn_type == DynamicsType.EXPLICIT_ODE and g.random() < 0.3:
        if tr == TranscriptionMethod.DIRECT_TRANSCRIPTION and ts == TimestepMethod.FIXED: make = lambda: OCP(ns, nu, step, N, f)
        elif tr == TranscriptionMethod.DIRECT_TRANSCRIPTION: make = lambda: OCP(ns, nu, step, N, f, timestep_method=ts)
        elif ts == TimestepMethod.FIXED: make = lambda: OCP(num_states=ns, num_inputs=nu, dt=step, num_steps=N, dynamics=f, transcription_method=tr)
        else: make = lambda: OCP(ns, nu, step, N, f, timestep_method=ts, transcription_method=tr)
    text = lambda: " ".join(map(str, words))[:1500]
    if armed[0]:
        try:
            p = make()
            R.check(len(calls) <= fail_at, "exception lost", lambda: f"the dynamics raised in call {fail_at}, but the problem was built: {text()}")
        except Mine as e:
            R.check(e.args == ("dynamics", fail_at) and len(calls) == fail_at, "exception changed", lambda: f"{e!r}")
            R.count("exceptions in dynamics")
        armed[0] = False
        calls.clear()
    p = make()
    X, U, DT = p.X(), p.U(), p.dt()
    R.check((tuple(X.shape), tuple(U.shape), tuple(DT.shape)) == ((ns, N + 1), (nu, N + 1), (1, N + 1)), "shapes", lambda: f"{X.shape} {U.shape} {DT.shape}: {text()}")
    nx, nuu = ns * (N + 1), nu * (N + 1)
    count = [nx + nuu + N + 1]  # nodes so far
    w = [str(e) for e in words]
    def const(v):
        w.extend(["k", repr(float(v))])
        count[0] += 1
        return count[0] - 1
    def argument(rows, lo, hi):
        """A bound or state in any of the supported forms."""
        k = g.randint(0, 5)
        vals = [g.randint(int(4 * lo), int(4 * hi)) / 4 for _ in range(rows)]
        if k == 0 or k == 1 or (k == 2 and rows == 1):
            v = vals[0] if k != 1 else int(vals[0])
            i = const(v)
            return (Variable(float(v)) if k == 2 else v), [i] * rows
        ids = [const(v) for v in vals]
        a = np.array(vals).reshape(rows, 1)
        if k == 3:
            m = VariableMatrix(a)
            return (m if g.random() < 0.5 else m[:, :]), ids
        return a, ids
    say = lambda name, rows, ids: w.extend([name, str(rows), "1", *map(str, ids)])
    k = g.randint(0, 9)
    v, ids = argument(ns, -1, 1)
    p.constrain_initial_state(v)
    say("initial", ns, ids)
    if g.random() < 0.5 and nu >= ns:
        v, ids = argument(ns, -1, 1)
        p.constrain_final_state(v)
        say("final", ns, ids)
    if g.random() < 0.6:
        v, ids = argument(nu, -8, -3)
        p.set_lower_input_bound(v)
        say("lower", nu, ids)
    if g.random() < 0.6:
        v, ids = argument(nu, 3, 8)
        p.set_upper_input_bound(v)
        say("upper", nu, ids)
    if ts != TimestepMethod.FIXED:
        v = dt * 0.5
        p.set_min_timestep(timedelta(seconds=v) if g.random() < 0.5 else v)
        w += ["mindt", repr(v)]
        v = dt * 2
        p.set_max_timestep(timedelta(seconds=v) if g.random() < 0.5 else v)
        w += ["maxdt", repr(v)]
    if g.random() < 0.5:
        seen = []
        lim = 10.0
        def each(x, u):
            R.check(tuple(x.shape) == (ns, 1) and tuple(u.shape) == (nu, 1), "for_each_step", lambda: f"{x.shape} {u.shape}")
            i = len(seen)
            seen.append(i)
            if tr != TranscriptionMethod.SINGLE_SHOOTING:
                old = [x[r].value() for r in range(ns)]
                x[0].set_value(0.125 + i)
                R.check(X[0, i].value() == 0.125 + i, "for_each_step", lambda: f"step {i} is not given its own state")
                x[0].set_value(old[0])
            p.subject_to(u[0] <= lim)
        p.for_each_step(each)
        R.check(len(seen) == N + 1, "for_each_step", lambda: f"{len(seen)} calls for {N} steps")
        for i in range(N + 1):
            c = const(lim)
            w += ["le", "1", "1", str(nx + i), "1", "1", str(c)]
        R.count("steps visited", N + 1)
    if g.random() < 0.3:
        bad = [0]
        at = g.randint(0, N)
        def broken(x, u):
            bad[0] += 1
            if bad[0] - 1 == at:
                raise Mine("step", at)
        try:
            p.for_each_step(broken)
            R.check(False, "exception lost", "an exception raised in for_each_step did not reach the caller")
        except Mine as e:
            R.check(e.args == ("step", at) and bad[0] == at + 1, "exception changed", lambda: f"{e!r}")
            R.count("exceptions in for_each_step")
    # cost: squared distances
    goal = g.randint(-4, 4) / 4
    cost = None
    for M, base, rows in ((X, 0, ns), (U, nx, nu)):
        for r in range(rows):
            for c in range(N + 1):
                t = (M[r, c] - goal) ** 2 if M is X else M[r, c] ** 2
                if M is X:
                    w.extend(["+k", str(base + r * (N + 1) + c), repr(-goal)]); count[0] += 1
                    w.extend(["sq", str(count[0] - 1)]); count[0] += 1
                else:
                    w.extend(["sq", str(base + r * (N + 1) + c)]); count[0] += 1
                if cost is None:
                    cost, at = t, count[0] - 1
                else:
                    cost = cost + t
                    w.extend(["+", str(at), str(count[0] - 1)]); count[0] += 1
                    at = count[0] - 1
    p.minimize(cost)
    w += ["min", str(at)]
    kw, ref = options(g)
    kw.pop("spy", None), kw.pop("diagnostics", None)
    w += ["stop", "-1", "solve", *ref]
    R.check(same(p.initial_state().value(), X.value()[:, :1]) and same(p.final_state().value(), X.value()[:, -1:]), "initial and final state", "not the first and last states")
    log = []
    p.add_callback(lambda info: bool(log.append(record(info))))
    with Output():
        st = p.solve(**kw)
    for i in range(nx + nuu + N + 1):
        w += ["value", str(i)]
    a = reference(w)
    r, vals = a[0], np.array(a[1:], dtype=float)
    what = lambda: f"{kw} {' '.join(w)[:1800]}"
    R.check(st.name == r["status"], "control status", lambda: f"{st} instead of {r['status']}: {what()}")
    R.check(len(log) == r["count"], "control iterations", lambda: f"{len(log)} iterations instead of {r['count']}: {what()}")
    got = np.concatenate([X.value().reshape(-1), U.value().reshape(-1), DT.value().reshape(-1)])
    R.check(same(got, vals, 1e-7), "control solution", lambda: f"{got.tolist()} instead of {vals.tolist()}: {what()}")
    R.count("control problems compared")
    R.count("control " + st.name)
    R.nontrivial(" ".join(w))
    R.sample(what())


# ---------------------------------------------------------------- multistart
def starts(g):
    n = g.randint(1, 6)
    kind = g.randint(0, 3)
    if kind == 0:  # given results
        good = [g.random() < 0.6 for _ in range(n)]
        others = [s for s in (ExitStatus.MAX_ITERATIONS_EXCEEDED, ExitStatus.LOCALLY_INFEASIBLE, ExitStatus.CALLBACK_REQUESTED_STOP, ExitStatus.TIMEOUT, ExitStatus.TOO_FEW_DOFS)]
        table = [(ExitStatus.SUCCESS if ok else g.choice(others), g.choice([g.randint(-4, 4), g.uniform(-2, 2), g.choice([math.inf, -math.inf])]), object()) for ok in good]
        order = list(range(n))
        g.shuffle(order)
        lock, began = threading.Lock(), []
        together = g.random() < 0.6
        barrier = threading.Barrier(n)
        turn = [threading.Event() for _ in range(n + 1)]
        turn[0].set()
        def solve(guess):
            with lock:
                began.append((guess, threading.get_ident()))
            if together:
                barrier.wait(30)  # all at once
                i = order.index(guess)
                turn[i].wait(30)
                turn[i + 1].set()
            return table[guess]
        r = multistart(solve, list(range(n)))
        R.check(sorted(b[0] for b in began) == list(range(n)), "starts", lambda: f"{began}")
        if together:
            R.check(len({b[1] for b in began}) == n, "threads", lambda: f"{began}")
        R.check(threading.get_ident() not in {b[1] for b in began}, "threads", "a solve ran on the caller's thread")
        R.check(any(r is t for t in table), "result", lambda: f"{r} is none of {table}")
        best = min(((s != ExitStatus.SUCCESS), c) for s, c, _ in table)
        R.check(((r[0] != ExitStatus.SUCCESS), r[1]) == best, "ranking", lambda: f"{r} chosen from {table}")
        R.count("rankings judged")
        R.nontrivial(str([(t[0].name, t[1]) for t in table]))
    elif kind == 1:  # real solves
        a = g.randint(2, 6) / 2
        lim = g.choice([None, 3])
        def solve(guess):
            p = Problem()
            x = p.decision_variable()
            x.set_value(guess)
            J = ad.sin(a * x) + 0.1 * (x - 1.0) ** 2
            p.minimize(J)
            p.subject_to(x <= 8.0)
            st = p.solve(**({} if lim is None else {"max_iterations": lim}))
            return st, J.value(), x.value()
        guesses = [g.randint(-40, 40) / 8 for _ in range(n)]
        alone = [solve(x) for x in guesses]
        r = multistart(solve, guesses)
        best = min((s != ExitStatus.SUCCESS, c) for s, c, _ in alone)
        R.check(((r[0] != ExitStatus.SUCCESS), r[1]) == best and any(r == t for t in alone), "ranking", lambda: f"{r} chosen, alone {alone}")
        R.count("rankings of real solves judged")
        R.nontrivial(str((a, lim, guesses)))
    elif kind == 2:  # one raises
        bad = g.randint(0, n - 1)
        deep = g.randint(3, 400)
        where = g.randint(0, 2)
        def solve(guess):
            p = Problem()
            x = p.decision_variable(2)
            e = x[0]
            for i in range(deep):
                e = e * 0.5 + ad.sin(x[i % 2]) * guess
            p.minimize(e * e + x[0] ** 2 + x[1] ** 2)
            if guess == bad and where == 0:
                raise Mine(guess)
            if guess == bad and where == 1:
                def cb(info):
                    raise Mine(guess)
                p.add_callback(cb)
            st = p.solve(max_iterations=8)
            if guess == bad:
                raise Mine(guess)
            return st, float(guess), 0
        try:
            multistart(solve, list(range(n)))
            R.check(False, "exception lost", "an exception raised in a multistart solve did not reach the caller")
        except Mine as e:
            R.check(e.args == (bad,), "exception changed", lambda: f"{e!r}")
            kept = e
        # expressions of threads that have ended are freed here
        v = Variable()
        v.set_value(2.0)
        for _ in range(50):
            v2 = v * v + 1.0
        del kept
        gc.collect()
        R.check((v * v).value() == 4.0, "after an exception", "a new expression is wrong")
        R.count("exceptions in multistart")
        R.nontrivial(f"{n} {bad} {deep} {where} {g.random()}")
    else:  # results with expressions in them
        def solve(guess):
            p = Problem()
            x = p.decision_variable(3)
            for i in range(3):
                x[i].set_value(guess)
            J = (x[0] - 1.0) ** 2 + (x[1] - 2.0) ** 2 + (x[2] - guess) ** 2 + abs(guess)
            p.minimize(J)
            st = p.solve()
            return st, J.value(), (x, J)
        guesses = [float(g.randint(-8, 8)) for _ in range(n)]
        st, c, (x, J) = multistart(solve, guesses)
        want = min(guesses, key=abs)
        R.check(st == ExitStatus.SUCCESS and abs(c - abs(want)) < 1e-6, "ranking", lambda: f"{st} {c} from {guesses}")
        R.check(same(x.value()[:2, 0], [1, 2], 1e-6) and abs(abs(x[2].value()) - abs(want)) < 1e-6 and abs(J.value() - c) < 1e-12, "result", lambda: f"{x.value().tolist()} from {guesses}")
        grad = ad.Gradient(J, x).value().toarray()
        R.check(np.abs(grad).max() < 1e-6, "result", lambda: f"gradient {grad.tolist()}")
        del x, J
        gc.collect()
        R.count("results with expressions")
        R.nontrivial(str(guesses))


# ------------------------------------------------------------------ lifetimes
def lifetimes(g):
    """Callbacks, dynamics and problems go away in any order."""
    class Big:
        pass
    tag = Big()
    ref = weakref.ref(tag)
    p = Problem()
    x = p.decision_variable(2)
    p.minimize((x[0] - 1.0) ** 2 + (x[1] + 2.0) ** 2)
    seen = []
    p.add_callback(lambda info, t=tag: bool(seen.append((info.iteration, t is not None))))
    del tag
    gc.collect()
    R.check(ref() is not None, "callback freed", "a callback was freed while registered")
    with Output():
        st = p.solve()
    R.check(st == ExitStatus.SUCCESS and seen and all(s[1] for s in seen), "callback calls", lambda: f"{seen}")
    if g.random() < 0.5:
        p.clear_callbacks()
    else:
        keep = x[0]
        del p
    gc.collect()
    R.check(ref() is None, "callback kept", "a callback was kept after its problem went away or was cleared")
    R.check(same([x[0].value(), x[1].value()], [1, -2], 1e-6), "values", lambda: f"{x.value().tolist()}")
    R.count("lifetimes")
    R.nontrivial(f"{g.random()}")


def names(g):
    R.check(sorted(e.name for e in ExitStatus) == sorted(STATUS) and len({e.value for e in ExitStatus}) == len(STATUS), "status names", lambda: f"{list(ExitStatus)}")
    R.check([t.name for t in sorted(ExpressionType, key=lambda t: t.value)] == TYPES, "type names", lambda: f"{list(ExpressionType)}")
    R.nontrivial("names")


R.cases("names", 1, names, 1)
R.cases("problems", 6000, problems)
R.cases("misuse", 1200, misuse)
R.cases("exceptions", 2000, exceptions)
R.cases("signals", 60, signals)
R.cases("timeouts", 60, timeouts)
R.cases("ocps", 1200, ocps)
R.cases("starts", 1200, starts)
R.cases("lifetimes", 200, lifetimes)
import shutil
os.chdir("/")
shutil.rmtree(SCRATCH, ignore_errors=True)
REF.stdin.close()
REF.wait()
R.finish()
