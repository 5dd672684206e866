"""P01: Python matrices, expressions and derivatives against NumPy.

Every Sleipnir object is mirrored by a NumPy object array of expression nodes:
NumPy itself decides what indexing, slicing, assignment, views and operators
give; the nodes evaluate to values and second-order jets.
"""
import gc
import operator
import warnings

import numpy as np
import scipy.linalg
import scipy.sparse
from pycommon import Runner, Violation

from sleipnir import autodiff as ad
from sleipnir.autodiff import Gradient, Hessian, Jacobian, Variable, VariableBlock, VariableMatrix

R = Runner()
np.seterr(all="ignore")
warnings.simplefilter("ignore")
GEN = [0]  # generation of leaf values


class Node:
    __slots__ = ("op", "a", "k", "gen", "v", "jgen", "jet", "big")

    def __init__(self, op, a=(), k=None):
        self.op, self.a, self.k, self.gen, self.jgen = op, a, k, -1, None

    # what NumPy's object arrays call
    def __add__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("+", (self, node(o)))
    def __radd__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("+", (node(o), self))
    def __sub__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("-", (self, node(o)))
    def __rsub__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("-", (node(o), self))
    def __mul__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("*", (self, node(o)))
    def __rmul__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("*", (node(o), self))
    def __truediv__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("/", (self, node(o)))
    def __rtruediv__(self, o): return NotImplemented if isinstance(o, np.ndarray) else Node("/", (node(o), self))
    def __neg__(self): return Node("neg", (self,))
    def __pos__(self): return self
    def __pow__(self, p): return Node("pow", (self, node(p)))

    def ev(self):
        if self.gen != GEN[0]:
            if self.op in ("leaf", "k"):
                self.v, self.big = self.k, abs(self.k)
            else:
                x = [n.ev() for n in self.a]
                self.v = float(FN[self.op](*x))
                self.big = max(abs(self.v), *(n.big for n in self.a))
            self.gen = GEN[0]
        return self.v

    def jets(self, wrt):
        """(value, gradient, Hessian) with respect to the leaves wrt."""
        tag = (GEN[0], tuple(map(id, wrt)))
        if self.jgen != tag:
            n = len(wrt)
            g, h = np.zeros(n), np.zeros((n, n))
            v = self.ev()
            if self.op == "leaf":
                for i, w in enumerate(wrt):
                    if w is self:
                        g[i] = 1
            elif self.op != "k":
                x = [m.jets(wrt) for m in self.a]
                d1, d2 = PARTIALS[self.op](*[np.float64(e[0]) for e in x])
                for i, e in enumerate(x):
                    if self.a[i].op == "k":
                        continue
                    g = g + d1[i] * e[1]
                    h = h + d1[i] * e[2]
                    for j, f in enumerate(x):
                        if d2[i][j] != 0 and self.a[j].op != "k":
                            h = h + d2[i][j] * np.outer(e[1], f[1])
            self.jet, self.jgen = (v, g, h), tag
        return self.jet


def spelled(n):
    return f"{n.k:g}" if n.op == "k" else f"x({n.k!r})" if n.op == "leaf" else f"{n.op}({', '.join(map(spelled, n.a))})"


def node(x):
    return x if isinstance(x, Node) else Node("k", (), float(x))


sc = __import__("scipy.special", fromlist=["erf"])
UN = {
    "abs": np.abs, "acos": np.arccos, "asin": np.arcsin, "atan": np.arctan, "cbrt": np.cbrt, "cos": np.cos, "cosh": np.cosh, "erf": sc.erf, "exp": np.exp,
    "log": np.log, "log10": np.log10, "sign": np.sign, "sin": np.sin, "sinh": np.sinh, "sqrt": np.sqrt, "tan": np.tan, "tanh": np.tanh,
}
DOMAIN = {"acos": lambda x: abs(x) < 0.9, "asin": lambda x: abs(x) < 0.9, "log": lambda x: x > 0.1, "log10": lambda x: x > 0.1, "sqrt": lambda x: x > 0.05,
          "cbrt": lambda x: abs(x) > 0.05, "tan": lambda x: abs(np.cos(x)) > 0.1, "exp": lambda x: abs(x) < 8, "sinh": lambda x: abs(x) < 8, "cosh": lambda x: abs(x) < 8,
          "abs": lambda x: abs(x) > 1e-3, "sign": lambda x: abs(x) > 1e-3}
SQPI = 2 / np.sqrt(np.pi)
D12 = {
    "abs": lambda x: (np.sign(x) if abs(x) > 1e-7 else np.nan, 0), "acos": lambda x: (-1 / np.sqrt(1 - x * x), -x / (1 - x * x) ** 1.5), "asin": lambda x: (1 / np.sqrt(1 - x * x), x / (1 - x * x) ** 1.5),
    "atan": lambda x: (1 / (1 + x * x), -2 * x / (1 + x * x) ** 2), "cbrt": lambda x: (1 / (3 * np.cbrt(x) ** 2), -2 / (9 * np.cbrt(x) ** 5)),
    "cos": lambda x: (-np.sin(x), -np.cos(x)), "cosh": lambda x: (np.sinh(x), np.cosh(x)), "erf": lambda x: (SQPI * np.exp(-x * x), -2 * x * SQPI * np.exp(-x * x)),
    "exp": lambda x: (np.exp(x), np.exp(x)), "log": lambda x: (1 / x, -1 / x / x), "log10": lambda x: (1 / x / np.log(10), -1 / x / x / np.log(10)), "sign": lambda x: (0 if abs(x) > 1e-7 else np.nan, 0),
    "sin": lambda x: (np.cos(x), -np.sin(x)), "sinh": lambda x: (np.cosh(x), np.sinh(x)), "sqrt": lambda x: (0.5 / np.sqrt(x), -0.25 / x**1.5),
    "tan": lambda x: (1 + np.tan(x) ** 2, 2 * np.tan(x) * (1 + np.tan(x) ** 2)), "tanh": lambda x: (1 - np.tanh(x) ** 2, -2 * np.tanh(x) * (1 - np.tanh(x) ** 2)),
    "neg": lambda x: (-1, 0),
}
FN = dict(UN)
FN.update({"+": operator.add, "-": operator.sub, "*": operator.mul, "/": lambda a, b: np.float64(a) / b, "neg": operator.neg, "pow": lambda a, b: np.power(np.float64(a), b) if a or b else np.nan,
           "atan2": lambda y, x: np.arctan2(y, x) if x > 0 or abs(y) > 1e-6 else np.nan, "hypot": np.hypot, "hypot3": lambda a, b, c: np.sqrt(a * a + b * b + c * c), "max": np.maximum, "min": np.minimum})


def _hyp3(a, b, c):
    r = np.sqrt(a * a + b * b + c * c)
    x = np.array([a, b, c]) / r
    return list(x), ((np.eye(3) - np.outer(x, x)) / r).tolist()


def _pow(a, b):
    f = np.power(np.float64(a), b)
    da, daa = (b * np.power(np.float64(a), b - 1) if b else 0.0), (b * (b - 1) * np.power(np.float64(a), b - 2) if b * (b - 1) else 0.0)
    if a > 0:
        db, dbb, dab = f * np.log(a), f * np.log(a) ** 2, np.power(np.float64(a), b - 1) * (1 + b * np.log(a))
    else:
        db = dbb = dab = np.nan  # unless the exponent is a number
    return [da, db], [[daa, dab], [dab, dbb]]


def _pick(a, b, first):
    if abs(a - b) <= 1e-7 * (1 + abs(a)):
        return [np.nan, np.nan]  # a kink
    return [1, 0] if first else [0, 1]


PARTIALS = {k: (lambda f: lambda x: ([f(x)[0]], [[f(x)[1]]]))(f) for k, f in D12.items()}
PARTIALS.update({
    "+": lambda a, b: ([1, 1], [[0, 0], [0, 0]]), "-": lambda a, b: ([1, -1], [[0, 0], [0, 0]]), "*": lambda a, b: ([b, a], [[0, 1], [1, 0]]),
    "/": lambda a, b: ([1 / b, -a / b / b], [[0, -1 / b / b], [-1 / b / b, 2 * a / b**3]]),
    "pow": _pow, "hypot3": _hyp3,
    "hypot": lambda a, b: ([a / np.hypot(a, b), b / np.hypot(a, b)], [[b * b / np.hypot(a, b) ** 3, -a * b / np.hypot(a, b) ** 3], [-a * b / np.hypot(a, b) ** 3, a * a / np.hypot(a, b) ** 3]]),
    "atan2": lambda y, x: ([x / (x * x + y * y), -y / (x * x + y * y)], [[-2 * x * y / (x * x + y * y) ** 2, (y * y - x * x) / (x * x + y * y) ** 2], [(y * y - x * x) / (x * x + y * y) ** 2, 2 * x * y / (x * x + y * y) ** 2]]),
    "max": lambda a, b: (_pick(a, b, a > b), [[0, 0], [0, 0]]), "min": lambda a, b: (_pick(a, b, a < b), [[0, 0], [0, 0]]),
})


def nodes(shape):
    return np.empty(shape, dtype=object)


def values(mirror):
    """Values and error allowances of a mirror."""
    v, t = np.empty(mirror.shape), np.empty(mirror.shape)
    for i in np.ndindex(mirror.shape):
        n = node(mirror[i])
        v[i] = n.ev()
        t[i] = 1e-9 * (1 + n.big)
    return v, t


def near(got, v, t, key, what):
    got = np.asarray(got, dtype=float)
    R.check(got.shape == v.shape, key, lambda: f"shape {got.shape} instead of {v.shape}: {what()}")
    fine = np.isfinite(v) & (np.abs(t) < 1e-2)
    R.count("entries compared", int(fine.sum()))
    bad = fine & ~(np.abs(got - v) <= t)
    R.check(not bad.any(), key, lambda: f"got {got.tolist()}, expected {v.tolist()}: {what()}")


def got_values(x):
    """Values of whatever an operation returned."""
    if isinstance(x, (VariableMatrix, VariableBlock)):
        return np.asarray(x.value())
    if isinstance(x, Variable):
        return np.float64(x.value())
    if isinstance(x, np.ndarray) and x.dtype == object:
        r = np.empty(x.shape)
        for i in np.ndindex(x.shape):
            r[i] = x[i].value() if isinstance(x[i], Variable) else float(x[i])
        return r
    return np.asarray(x, dtype=float)


class World:
    def __init__(self, g):
        self.g = g
        self.leaves = []  # (Variable, Node)
        self.mats = []  # [VariableMatrix, mirror]
        self.blocks = []  # [VariableBlock, mirror view, owner index]
        self.scalars = []
        self.log = []
        for _ in range(g.randint(1, 4)):
            self.new_leaf()

    def num(self):
        g = self.g
        return float(g.randint(-3, 3)) if g.random() < 0.35 else g.randint(-128, 128) / 64

    def new_leaf(self):
        x = self.num()
        v = Variable()
        v.set_value(x)
        n = Node("leaf", (), x)
        self.leaves.append((v, n))
        return self.leaves[-1]

    def scalar(self, depth=1):
        g = self.g
        r = g.random()
        if self.scalars and r < 0.25:
            return g.choice(self.scalars)
        if depth <= 0 or r < 0.6:
            return g.choice(self.leaves)
        (a, na), (b, nb) = self.scalar(depth - 1), self.scalar(depth - 1)
        k = g.randint(0, 3)
        if k == 0: return a + b, na + nb
        if k == 1: return a - b, na - nb
        if k == 2: return a * b, na * nb
        return ad.sin(a), Node("sin", (na,))

    def dims(self):
        return self.g.randint(1, 4), self.g.randint(1, 4)

    def fresh(self, r=None, c=None, leaves_only=False):
        g = self.g
        if r is None:
            r, c = self.dims()
        m = VariableMatrix(r, c)
        mir = nodes((r, c))
        for i in range(r):
            for j in range(c):
                if leaves_only or g.random() < 0.5:
                    v, n = self.new_leaf()
                else:
                    v, n = self.scalar()
                m[i, j] = v
                mir[i, j] = n
        return [m, mir]

    def any_matrix(self, r=None, c=None):
        """A matrix or block (with its mirror), of a given shape if asked."""
        pool = [o for o in self.mats + self.blocks if r is None or o[1].shape == (r, c)]
        if pool and self.g.random() < 0.75:
            return self.g.choice(pool)
        if r is not None and self.g.random() < 0.5:  # a view into a larger one
            m = self.fresh(r + self.g.randint(0, 2), c + self.g.randint(0, 2))
            i, j = self.g.randint(0, m[1].shape[0] - r), self.g.randint(0, m[1].shape[1] - c)
            self.mats.append(m)
            return [m[0][i:i + r, j:j + c], m[1][i:i + r, j:j + c]]
        self.mats.append(self.fresh(r, c))
        return self.mats[-1]

    def array(self, r, c):
        """A NumPy array of a random dtype and layout: (array, name, supported)."""
        g = self.g
        dt = g.choice(["f8", "f8", "f8", "f4", "i8", "i4", "i2", "u1", "?", ">f8", "c16", "O"])
        a = np.array([[self.num() if dt in ("f8", "f4", ">f8", "c16", "O") else g.randint(-3, 3) if dt[0] == "i" else g.randint(0, 1) for _ in range(c)] for _ in range(r)]).reshape(r, c)
        lay = g.choice(["C", "F", "strided", "reversed", "transposed", "sub", "readonly", "misaligned", "broadcast", "wide"])
        a = a.astype(dt)
        if lay == "F": b = np.asfortranarray(a)
        elif lay == "strided":
            t = np.zeros((2 * r, 3 * c), a.dtype); t[::2, ::3] = a; b = t[::2, ::3]
        elif lay == "reversed":
            b = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        elif lay == "transposed": b = np.ascontiguousarray(a.T).T
        elif lay == "sub":
            t = np.zeros((r + 2, c + 2), a.dtype); t[1:-1, 1:-1] = a; b = t[1:-1, 1:-1]
        elif lay == "wide":
            t = np.zeros((r, c + 3), a.dtype, order="F"); t[:, :c] = a; b = t[:, :c]
        elif lay == "readonly":
            b = a.copy(); b.setflags(write=False)
        elif lay == "misaligned" and dt != "O":
            buf = np.zeros(a.nbytes + 1, np.uint8); b = buf[1:].view(a.dtype).reshape(a.shape); b[...] = a
        elif lay == "broadcast" and r * c:
            a = np.broadcast_to(a[:1], (r, c)).copy(); b = np.broadcast_to(a[:1], (r, c))
        else:
            lay, b = "C", a
        ok = dt in ("f8", "f4", "i8", "i4") and lay in ("C", "F", "strided", "transposed", "sub", "wide")
        return b, f"{dt} array ({lay})", ok

    def mirror_of(self, a):
        m = nodes(a.shape)
        for i in np.ndindex(a.shape):
            m[i] = Node("k", (), float(a[i].real if a.dtype.kind == "c" else a[i]))
        return m

    def note(self, s):
        self.log.append(s)

    def text(self):
        return "; ".join(self.log[-25:])

    def compare(self, got, mirror, key):
        v, t = values(mirror) if isinstance(mirror, np.ndarray) else values(np.array(mirror, dtype=object))
        near(got_values(got), v, t, key, self.text)

    def move(self):
        g = self.g
        for v, n in self.leaves:
            if g.random() < 0.6:
                n.k = self.num()
                (v if g.random() < 0.7 else v).set_value(n.k if g.random() < 0.8 or n.k != int(n.k) else int(n.k))
        GEN[0] += 1
        self.note("leaves change")

    def recheck(self):
        for o in self.mats:
            if self.g.random() < 0.5:
                self.compare(o[0], o[1], "matrix")
        for o in self.blocks:
            if self.g.random() < 0.5:
                self.compare(o[0], o[1], "block")
        for v, n in self.scalars[-3:]:
            self.compare(v, n, "scalar")


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def judge(w, key, f, want, must, what):
    """f() must give `want` (a function giving the mirror), or raise where the
    combination is not supported; it must raise where `want` does."""
    w.note(what)
    R.count("operations")
    exp, model_error = attempt(want)
    got, err = attempt(f)
    if model_error is not None:
        R.check(err is not None, key, lambda: f"no exception for {what} (NumPy: {model_error}): {w.text()}")
        R.count("invalid uses refused")
        return None
    if err is not None:
        R.check(not must, key, lambda: f"{type(err).__name__}: {err} for {what}: {w.text()}")
        R.count("unsupported combinations refused")
        return None
    if got is NotImplemented:
        return None
    if isinstance(got, Variable) and isinstance(exp, np.ndarray) and exp.shape == (1, 1) and "[]" in what:
        exp = exp[0, 0]  # a 1x1 matrix plus or minus a scalar may be a scalar
    w.compare(got, exp, key)
    R.count("results compared")
    return got, exp


# ------------------------------------------------------------------ indexing
def one_index(g, n, wild):
    """An index along a dimension of size n: (index, valid)."""
    k = g.randint(0, 9)
    if k < 4:
        i = g.randint(-n, n - 1)
        if wild and g.random() < 0.25:
            i = g.choice([n, n + 1, -n - 1, -n - 2, 1000, -1000])
        return i
    if k == 4:
        return slice(None)
    e = lambda: None if g.random() < 0.3 else g.randint(-n - 2, n + 2)
    st = g.choice([None, 1, 1, 2, 3, -1, -1, -2])
    if wild and g.random() < 0.03:
        st = 0
    return slice(e(), e(), st)


def as_slice(i, n):
    """NumPy's meaning of an index, keeping the dimension."""
    if isinstance(i, slice):
        return i
    if not -n <= i < n:
        raise IndexError(i)
    i %= n
    return slice(i, i + 1)


def shown(i):
    if isinstance(i, slice):
        return ":".join("" if x is None else str(x) for x in (i.start, i.stop, i.step)) if i.step is not None else ":".join("" if x is None else str(x) for x in (i.start, i.stop))
    return str(i)


def do_read(w):
    g = w.g
    o = w.any_matrix()
    m, mir = o[0], o[1]
    r, c = mir.shape
    k = g.randint(0, 11)
    if k == 0:
        i = g.randint(-r * c - 1, r * c)
        def want():
            if not -r * c <= i < r * c:
                raise IndexError(i)
            return mir.reshape(-1)[i] if mir.size else None
        judge(w, "read [i]", lambda: m[i], want, True, f"read [{i}] of {r}x{c}")
    elif k == 1:
        i, j = g.randint(-r - 1, r), g.randint(-c - 1, c)
        def want():
            as_slice(i, r), as_slice(j, c)
            return mir[i, j]
        x = judge(w, "read [i, j]", lambda: m[i, j], want, True, f"read [{i},{j}] of {r}x{c}")
        R.check(x is None or isinstance(x[0], Variable), "read [i, j]", lambda: f"[{i},{j}] gives a {type(x[0])}")
    elif k == 2:  # uses that make no sense
        bad = g.choice([(1.5, 0), (0, "a"), (0,), (0, 0, 0), (None, 0), (slice(None), None), (Ellipsis, 0), ("a", "b"), ([0], [0]), (slice(0.5, 1), 0), (), "x", None, 1.5])
        w.note(f"read [{bad}]")
        got, err = attempt(lambda: m[bad])
        R.check(err is not None, "read nonsense", lambda: f"[{bad!r}] gives {got!r}: {w.text()}")
        R.count("invalid uses refused")
    elif k == 3:
        i = g.randint(-r - 1, r) if g.random() < 0.3 else g.randint(0, max(r - 1, 0))
        def want():
            if not 0 <= i < r:
                raise IndexError(i)
            return mir[i:i + 1, :]
        judge(w, "row()", lambda: m.row(i), want, True, f"row({i}) of {r}x{c}")
    elif k == 4:
        i = g.randint(-c - 1, c) if g.random() < 0.3 else g.randint(0, max(c - 1, 0))
        def want():
            if not 0 <= i < c:
                raise IndexError(i)
            return mir[:, i:i + 1]
        judge(w, "col()", lambda: m.col(i), want, True, f"col({i}) of {r}x{c}")
    elif k == 5:
        if g.random() < 0.5:
            i, j = g.randint(0, r), g.randint(0, c)
            def want():
                if i >= r or j >= c:
                    raise IndexError
                return mir[i, j]
            judge(w, "value(i, j)", lambda: m.value(i, j), want, True, f"value({i},{j}) of {r}x{c}")
        else:
            i = g.randint(0, r * c)
            def want():
                if i >= r * c:
                    raise IndexError
                return mir.reshape(-1)[i]
            judge(w, "value(i)", lambda: m.value(i), want, True, f"value({i}) of {r}x{c}")
    else:
        i, j = one_index(g, r, True), one_index(g, c, True)
        if isinstance(i, int) and isinstance(j, int):
            i = slice(i, None)
        np_int = g.random() < 0.1
        ii = np.int64(i) if np_int and isinstance(i, int) else i
        jj = np.int64(j) if np_int and isinstance(j, int) else j
        x = judge(w, "read block", lambda: m[ii, jj], lambda: mir[as_slice(i, r), as_slice(j, c)], not np_int, f"read [{shown(i)}, {shown(j)}] of {r}x{c}")
        if x is not None and isinstance(x[0], VariableBlock):
            R.count("blocks read")
            owner = next((q[2] for q in w.blocks if q is o), o)
            if x[1].size:
                w.blocks.append([x[0], x[1], owner])
            if len(w.blocks) > 6:
                w.blocks.pop(0)


def set_entry(mir, i, n):
    mir.flat[i] = n


def do_write(w):
    g = w.g
    o = w.any_matrix()
    m, mir = o[0], o[1]
    r, c = mir.shape
    before = mir.copy()
    k = g.randint(0, 7)
    if k == 0:
        i = g.randint(-r * c - 1, r * c)
        v, n = w.scalar()
        w.note(f"[{i}] = scalar")
        got, err = attempt(lambda: m.__setitem__(i, v))
        ok = -r * c <= i < r * c
        R.check((err is None) == ok, "write [i]", lambda: f"[{i}] of {r}x{c}: {err}")
        if ok:
            mir[divmod(i % (r * c), c)] = n
    else:
        i, j = one_index(g, r, True), one_index(g, c, True)
        ok, err0 = attempt(lambda: mir[as_slice(i, r), as_slice(j, c)])
        if ok is None:
            v, n = w.scalar()
            w.note(f"[{shown(i)}, {shown(j)}] = scalar (invalid)")
            got, err = attempt(lambda: m.__setitem__((i, j), v))
            R.check(err is not None, "write block", lambda: f"no exception for [{shown(i)}, {shown(j)}] of {r}x{c}: {w.text()}")
            R.count("invalid uses refused")
        else:
            h, ww = ok.shape
            kind = g.randint(0, 7)
            must = True
            mode = "wrong shape" if g.random() < 0.12 else ""
            if mode:
                h, ww = h + g.randint(0, 1), ww + g.randint(1, 2)
            if kind <= 2:
                src = w.any_matrix(h, ww) if h * ww else [VariableMatrix(h, ww), nodes((h, ww))]
                if g.random() < 0.4 and not mode and h * ww and h <= r and ww <= c:  # overlapping source
                    a, b = g.randint(0, r - h), g.randint(0, c - ww)
                    src = [m[a:a + h, b:b + ww], mir[a:a + h, b:b + ww]]
                    R.count("overlapping assignments")
                val, mv = src[0], src[1].copy()
                name = f"{type(val).__name__}"
            elif kind <= 5:
                val, name, must = w.array(h, ww)
                mv = w.mirror_of(val)
            elif kind == 6:
                v, n = w.scalar()
                val, mv, name = v, nodes((1, 1)), "Variable"
                mv[0, 0] = n
                h, ww = 1, 1
                must = ok.shape == (1, 1)
            else:
                x = w.num()
                val = x if g.random() < 0.5 else int(x)
                mv, name = w.mirror_of(np.array([[float(val)]])), type(val).__name__
                h, ww = 1, 1
                must = ok.shape == (1, 1)
            what = f"[{shown(i)}, {shown(j)}] of {r}x{c} = {h}x{ww} {name} {mode}"
            w.note(what)
            got, err = attempt(lambda: m.__setitem__((i, j), val))
            if (h, ww) != ok.shape:
                if err is None:
                    # only NumPy's broadcasting may have happened
                    done, e2 = attempt(lambda: np.broadcast_to(mv, ok.shape))
                    R.check(done is not None, "write block", lambda: f"no exception for {what}: {w.text()}")
                    ok[...] = done
                else:
                    R.count("invalid uses refused")
            elif err is not None:
                R.check(not must, "write block", lambda: f"{type(err).__name__}: {err} for {what}: {w.text()}")
                R.count("unsupported combinations refused")
            else:
                ok[...] = mv
                R.count("assignments")
    GEN[0] += 1
    # everything that may have changed
    w.compare(m, mir, "after a write")
    for q in w.mats:
        if q[1] is mir or (mir.base is not None and q[1] is mir.base) or g.random() < 0.3:
            w.compare(q[0], q[1], "after a write")
    for q in w.blocks:
        w.compare(q[0], q[1], "block after a write")
    R.count("writes compared")
    del before


# ---------------------------------------------------------------- arithmetic
def do_binary(w):
    g = w.g
    op = g.choice(["+", "-", "@", "*", "/", "**"])
    o = w.any_matrix()
    m, mir = o[0], o[1]
    r, c = mir.shape
    small = all(abs(node(x).ev()) < 1e3 for x in mir.flat)
    if not small:
        return
    if op == "**":
        p = g.randint(0, 3)
        if p == 0 and any(abs(node(x).ev()) < 1e-6 for x in mir.flat):
            return  # 0**0
        judge(w, "power", lambda: m**p, lambda: mir**p, True, f"{r}x{c} ** {p}")
        return
    kind = g.choice(["matrix", "matrix", "array", "array", "variable", "float", "int", "npfloat"])
    swap = g.random() < 0.5
    must = True
    match = g.random() < 0.85
    if kind == "matrix" or kind == "array":
        if op in "+-":
            shape = (r, c) if match else (r + g.randint(0, 1), c + g.randint(0, 1))
        elif swap:
            shape = (g.randint(1, 4), r if match else r + 1)
        else:
            shape = (c if match else c + 1, g.randint(1, 4))
        if kind == "matrix":
            b, mb = w.any_matrix(*shape)[:2]
            name = type(b).__name__
        else:
            b, name, must = w.array(*shape)
            mb = w.mirror_of(b)
        if any(abs(node(x).ev()) > 1e3 for x in mb.flat):
            return
        if op == "/":
            must = False
        if op == "*" and kind == "array":
            must = False
    else:
        if kind == "variable":
            b, mb = w.scalar()
            if abs(mb.ev()) > 1e3:
                return
        else:
            x = w.num()
            b = {"float": float, "int": int, "npfloat": np.float64}[kind](x)
            mb = float(b)
        shape, name = (), kind
        if op == "@" or op in "+-" and (r, c) != (1, 1):
            must = False
        if op == "/":
            must = not swap
            if abs(mb if not isinstance(mb, Node) else mb.ev()) < 1e-2:
                return
        if kind == "npfloat" and swap:
            must = False
    fn = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "@": operator.matmul}[op]
    mul = op in "@*" and kind in ("matrix", "array")

    def model(a, b):
        if op == "*" and kind == "array":
            raise_elementwise = True  # matrix product or nothing
        if mul or (op == "@"):
            if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
                raise TypeError("matmul")
            return np.matmul(a, b)
        if op in "+-" and isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            return fn(a, b)  # broadcasting, if NumPy can
        return fn(a, b)

    if swap:
        f, want, what = (lambda: fn(b, m)), (lambda: model(mb, mir)), f"{name}{list(shape)} {op} {type(m).__name__}{[r, c]}"
    else:
        f, want, what = (lambda: fn(m, b)), (lambda: model(mir, mb)), f"{type(m).__name__}{[r, c]} {op} {name}{list(shape)}"
    if op == "/" and not swap and kind in ("matrix", "array"):
        want = lambda: (_ for _ in ()).throw(TypeError("not defined"))
    if op == "/" and swap:
        if any(abs(node(x).ev()) < 1e-2 for x in mir.flat):
            return
    if op in "+-" and shape and shape != (r, c):
        must = False
    R.count("operands: " + (name if kind != "array" else "array") + f" {op}")
    x = judge(w, f"operator {op}", f, want, must, what)
    if x is not None and isinstance(x[0], (VariableMatrix, VariableBlock)) and x[1].size and g.random() < 0.5:
        w.mats.append([VariableMatrix(x[0]) if isinstance(x[0], VariableBlock) else x[0], x[1]])
        if len(w.mats) > 6:
            old = w.mats.pop(0)
            w.blocks = [q for q in w.blocks if q[1].base is not old[1]]


def do_unary(w):
    g = w.g
    o = w.any_matrix()
    m, mir = o[0], o[1]
    k = g.randint(0, 6)
    if k == 0:
        judge(w, "negation", lambda: -m, lambda: -mir, True, "negation")
    elif k == 1:
        judge(w, "transpose", lambda: m.T, lambda: mir.T, True, "transpose")
    elif k == 2:
        r, c = mir.shape
        R.check((m.rows(), m.cols()) == (r, c) and tuple(m.shape) == (r, c) and len(m) == r, "shape", lambda: f"{m.shape} instead of {(r, c)}")
        it = list(m)
        R.check(len(it) == r * c, "iteration", lambda: f"{len(it)} elements in a {r}x{c} matrix")
        for a, n in zip(it, mir.reshape(-1)):
            w.compare(a, n, "iteration")
    elif k == 3:
        x, n = w.scalar()
        judge(w, "cwise_map", lambda: m.cwise_map(lambda e: e * x + 1.0), lambda: mir * n + 1.0, True, "cwise_map")
    elif k == 4:
        k = g.choice([2, 4.0, 0.5])
        mm = VariableMatrix(m[:, :]) if isinstance(m, VariableMatrix) else VariableMatrix(m)
        t = operator.itruediv(mm, k)
        w.note(f"/= {k}")
        w.compare(t, mir / k, "/=")
    elif k == 5:
        b, mb = w.any_matrix(*mir.shape)[:2]
        a2, b2 = VariableMatrix(m) if isinstance(m, VariableBlock) else m, VariableMatrix(b) if isinstance(b, VariableBlock) else b
        judge(w, "cwise_reduce", lambda: ad.cwise_reduce(a2, b2, lambda x, y: x * 2.0 - y), lambda: mir * 2.0 - mb, True, "cwise_reduce")
    else:
        name = g.choice(list(UN))
        dom = DOMAIN.get(name, lambda x: True)
        if not all(dom(node(x).ev()) and abs(node(x).ev()) < 50 for x in mir.flat):
            return
        def want():
            out = nodes(mir.shape)
            for i in np.ndindex(mir.shape):
                out[i] = Node(name, (node(mir[i]),))
            return out
        judge(w, f"matrix {name}", lambda: getattr(ad, name)(m), want, True, f"{name} of a matrix")


def do_scalar(w):
    g = w.g
    k = g.randint(0, 5)
    a, na = w.scalar()
    b, nb = w.scalar()
    va, vb = na.ev(), nb.ev()
    if abs(va) > 1e3 or abs(vb) > 1e3:
        return
    must = True
    if k <= 1:
        op = g.choice(["+", "-", "*", "/"])
        kind = g.choice(["variable", "float", "int", "npfloat", "npint", "zero"])
        if kind != "variable":
            x = w.num()
            b = {"float": x, "int": int(x), "npfloat": np.float64(x), "npint": np.int64(int(x)), "zero": 0}[kind]
            nb, vb = Node("k", (), float(b)), float(b)
            must = kind in ("float", "int", "zero")
        swap = g.random() < 0.5
        if op == "/" and abs(va if swap else vb) < 1e-2:
            return
        fn = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op]
        if g.random() < 0.25 and not swap:
            ifn = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}[op]
            def f():
                t = +a
                return ifn(t, b)
            x = judge(w, f"scalar {op}=", f, lambda: fn(na, nb), must, f"Variable {op}= {kind}")
        elif swap:
            x = judge(w, f"scalar {op}", lambda: fn(b, a), lambda: fn(nb, na), must, f"{kind} {op} Variable")
        else:
            x = judge(w, f"scalar {op}", lambda: fn(a, b), lambda: fn(na, nb), must, f"Variable {op} {kind}")
    elif k == 2:
        name = g.choice(list(UN))
        if not DOMAIN.get(name, lambda x: True)(va) or abs(va) > 50:
            return
        if g.random() < 0.2:
            x = judge(w, f"{name}(number)", lambda: getattr(ad, name)(va), lambda: Node(name, (Node("k", (), va),)), True, f"{name}({va})")
        else:
            x = judge(w, f"scalar {name}", lambda: getattr(ad, name)(a), lambda: Node(name, (na,)), True, f"{name} of a Variable")
    elif k == 3:
        name = g.choice(["atan2", "hypot", "hypot3", "max", "min", "pow"])
        args, ns = [], []
        for i in range(3 if name == "hypot3" else 2):
            if g.random() < 0.35:
                v = w.num()
                args.append(v), ns.append(Node("k", (), v))
            else:
                s, n = w.scalar()
                args.append(s), ns.append(n)
        v = [n.ev() for n in ns]
        if name in ("atan2", "hypot", "hypot3") and sum(e * e for e in v) < 0.01:
            return
        if name == "atan2" and v[1] < 0 and abs(v[0]) < 1e-6:
            return
        if name in ("max", "min") and abs(v[0] - v[1]) < 1e-6:
            return
        if name == "pow" and not (0.1 < v[0] < 5 and abs(v[1]) < 4):
            return
        x = judge(w, name, lambda: getattr(ad, "hypot" if name == "hypot3" else name)(*args), lambda: Node(name, tuple(ns)), True, f"{name}({', '.join(type(e).__name__ for e in args)})")
        if x is not None and not isinstance(x[0], Variable):
            x = None
    elif k == 4:
        p = g.randint(0, 4)
        if p == 0 and abs(va) < 1e-6:
            return
        x = judge(w, "scalar power", lambda: a**p, lambda: na**p, True, f"Variable ** {p}")
    else:
        x = judge(w, "scalar negation", lambda: -a, lambda: -na, True, "-Variable")
    if x is not None and isinstance(x[0], Variable) and isinstance(x[1], Node) and len(w.scalars) < 12 and x[1].big < 1e3:
        w.scalars.append((x[0], x[1]))
        R.count("scalar results kept")


def do_compare(w):
    g = w.g
    op = g.choice(["==", "<", "<=", ">", ">="])
    fn = {"==": operator.eq, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    must = True
    if g.random() < 0.6:
        m, mir = w.any_matrix()[:2]
        kind = g.choice(["matrix", "array", "float", "int", "variable"])
        if kind == "matrix":
            b, mb = w.any_matrix(*mir.shape)[:2]
        elif kind == "array":
            b, name, must = w.array(*mir.shape)
            if g.random() < 0.5:  # near the truth
                v, t = values(mir)
                v = v - g.choice([0, 0, 1, -1])
                if b.dtype.kind in "fi" and np.isfinite(v).all() and (b.dtype.kind == "f" or (v == v.astype(int)).all()) and b.flags.writeable:
                    b[...] = v
            mb = w.mirror_of(b)
            kind = name
        elif kind == "variable":
            b, n = w.scalar()
            mb = nodes(mir.shape)
            mb[...] = n
        else:
            b = float(w.num()) if kind == "float" else g.randint(-3, 3)
            mb = w.mirror_of(np.full(mir.shape, float(b)))
        a, ma = m, mir
    else:
        a, na = w.scalar()
        kind = g.choice(["variable", "float", "int"])
        if kind == "variable":
            b, nb = w.scalar()
        else:
            b = float(w.num()) if kind == "float" else g.randint(-3, 3)
            nb = Node("k", (), float(b))
        ma, mb = nodes((1, 1)), nodes((1, 1))
        ma[0, 0], mb[0, 0] = na, nb
        kind = "scalar, " + kind
    if g.random() < 0.5:
        a, b, ma, mb = b, a, mb, ma
        kind += " on the left"
    w.note(f"{op} ({kind})")
    c, err = attempt(lambda: fn(a, b))
    if err is not None:
        R.check(not must, f"comparison {op}", lambda: f"{type(err).__name__}: {err} for {w.text()}")
        R.count("unsupported combinations refused")
        return
    (va, ta), (vb, tb) = values(ma), values(mb)
    d = va - vb
    if not np.isfinite(d).all():
        return
    # within rounding of a tie nothing is judged, except exact ties of numbers on a grid
    exact = np.abs(d) < 1e-13
    fuzzy = (np.abs(d) <= ta + tb) & ~(d == 0)
    if fuzzy.any() or (exact & (d != 0)).any():
        return
    want = {"==": d == 0, "<": d <= 0, "<=": d <= 0, ">": d >= 0, ">=": d >= 0}[op].all()
    if (d == 0).any() and any(n.op not in ("leaf", "k") for n in list(ma.flat) + list(mb.flat)):
        return  # ties of computed values may be off by rounding
    R.check(bool(c) == bool(want), f"comparison {op}", lambda: f"{va.tolist()} {op} {vb.tolist()} gives {bool(c)}: {w.text()}")
    R.count("comparisons judged")


def do_set_value(w):
    g = w.g
    m, mir = w.fresh(leaves_only=True)
    r, c = mir.shape
    tgt, tm = m, mir
    if g.random() < 0.5:
        i, j = one_index(g, r, False), one_index(g, c, False)
        if isinstance(i, int) and isinstance(j, int):
            i = slice(None)
        tm = mir[as_slice(i, r), as_slice(j, c)]
        tgt = m[i, j]
        if tm.size == 0:
            return
    a, name, must = w.array(*tm.shape)
    if g.random() < 0.1:
        a = np.vstack([a, a]).astype(a.dtype)
    w.note(f"set_value of {type(tgt).__name__}{list(tm.shape)} to {name} {list(a.shape)}")
    got, err = attempt(lambda: tgt.set_value(a))
    if a.shape != tm.shape:
        R.check(err is not None, "set_value", lambda: f"no exception: {w.text()}")
        R.count("invalid uses refused")
    elif err is not None:
        R.check(not must, "set_value", lambda: f"{type(err).__name__}: {err}: {w.text()}")
        R.count("unsupported combinations refused")
    else:
        for ix in np.ndindex(tm.shape):
            tm[ix].k = float(a[ix].real if a.dtype.kind == "c" else a[ix])
        R.count("arrays set")
    GEN[0] += 1
    w.compare(m, mir, "set_value")
    w.mats.append([m, mir])


def do_construct(w):
    g = w.g
    r, c = w.dims()
    k = g.randint(0, 8)
    if k == 0:
        v = [[w.num() for _ in range(c)] for _ in range(r)]
        judge(w, "construct", lambda: VariableMatrix(v), lambda: w.mirror_of(np.array(v)), True, "from lists of numbers")
    elif k == 1:
        v = [[w.scalar() for _ in range(c)] for _ in range(r)]
        def want():
            m = nodes((r, c))
            for i in range(r):
                for j in range(c):
                    m[i, j] = v[i][j][1]
            return m
        judge(w, "construct", lambda: VariableMatrix([[e[0] for e in row] for row in v]), want, True, "from lists of Variables")
    elif k == 2:
        v = [[w.num() for _ in range(c)] for _ in range(r)]
        v[g.randint(0, r - 1)].append(1.0)
        if r == 1:
            return
        judge(w, "construct", lambda: VariableMatrix(v), lambda: (_ for _ in ()).throw(ValueError("ragged")), True, "from ragged lists")
    elif k == 3:
        a, name, must = w.array(r, c)
        must = must and a.dtype in (np.float64, np.float32)
        judge(w, "construct", lambda: VariableMatrix(a), lambda: w.mirror_of(a), must, f"from {name}")
    elif k == 4:
        judge(w, "construct", lambda: VariableMatrix.identity(r), lambda: w.mirror_of(np.eye(r)), True, "identity")
        judge(w, "construct", lambda: VariableMatrix.zero(r, c), lambda: w.mirror_of(np.zeros((r, c))), True, "zero")
        judge(w, "construct", lambda: VariableMatrix.one(r, c), lambda: w.mirror_of(np.ones((r, c))), True, "one")
        x = w.num()
        judge(w, "construct", lambda: VariableMatrix.constant(r, c, x), lambda: w.mirror_of(np.full((r, c), x)), True, "constant")
    elif k == 5:
        m = VariableMatrix(r, c) if g.random() < 0.5 or c != 1 else VariableMatrix(r)
        R.check(tuple(m.shape) == (r, c) and (m.value() == 0).all(), "construct", lambda: f"new {r}x{c} matrix: {m.value()}")
    elif k == 6:  # joined
        parts = [w.any_matrix()[:2] for _ in range(g.randint(1, 2))]
        h = parts[0][1].shape[0]
        parts += [w.any_matrix(h, g.randint(1, 3))[:2]]
        rows = [[p for p in parts if p[1].shape[0] == h]]
        as_m = lambda p: p[0] if isinstance(p[0], VariableMatrix) else VariableMatrix(p[0])
        judge(w, "block()", lambda: ad.block([[as_m(p) for p in row] for row in rows]), lambda: np.block([[p[1] for p in row] for row in rows]), True, "block()")
    elif k == 7:
        s, n = w.scalar()
        judge(w, "construct", lambda: VariableMatrix(s), lambda: np.array([[n]], dtype=object), True, "from a Variable")
    else:
        a, ma = w.any_matrix()[:2]
        if isinstance(a, VariableBlock):
            x = judge(w, "construct", lambda: VariableMatrix(a), lambda: ma.copy(), True, "from a block")
            if x is not None:  # it is a copy
                v, n = w.new_leaf()
                x[0][0, 0] = v
                w.compare(a, ma, "copy of a block")


def do_linear_algebra(w):
    g = w.g
    n, k = g.randint(1, 4), g.randint(1, 3)
    A = np.array([[w.num() for _ in range(n)] for _ in range(n)]) + 12 * np.eye(n)
    B = np.array([[w.num() for _ in range(k)] for _ in range(n)])
    MA, MB = VariableMatrix(n, n), VariableMatrix(n, k)
    MA.set_value(A), MB.set_value(B)
    X = ad.solve(MA, MB)
    w.note(f"solve {n}x{n}")
    near(A @ X.value(), B, np.full(B.shape, 1e-9 * 100), "solve", w.text)
    if n <= 3 and g.random() < 0.3:
        E = MA if g.random() < 0.5 else MA[:, :]
        MA.set_value(A / 8)
        near(E.exp().value(), scipy.linalg.expm(A / 8), np.full(A.shape, 1e-8), "exp", w.text)
    R.count("linear algebra compared")


def do_lifetime(w):
    """Views, elements and iterators outlive the names they came from."""
    g = w.g
    m, mir = w.fresh()
    r, c = mir.shape
    i, j = one_index(g, r, False), one_index(g, c, False)
    if isinstance(i, int) and isinstance(j, int):
        i = slice(None, None, -1)
    bm = mir[as_slice(i, r), as_slice(j, c)]
    b = m[i, j]
    e = m[r * c - 1]
    it = iter(m)
    first = next(it)
    bit = iter(b)
    nested = m[:, :][i, j]
    tmp = (m + m)[:, :]
    del m
    gc.collect()
    [VariableMatrix(r, c) for _ in range(3)]
    w.note("names go away")
    w.compare(b, bm, "view of a nameless matrix")
    w.compare(nested, bm, "view of a nameless view")
    w.compare(tmp, mir + mir, "view of a temporary")
    w.compare(e, mir[-1, -1], "element of a nameless matrix")
    w.compare(first, mir[0, 0], "iterator of a nameless matrix")
    for a, n in zip(it, mir.reshape(-1)[1:]):
        w.compare(a, n, "iterator of a nameless matrix")
    del b
    gc.collect()
    for a, n in zip(bit, bm.reshape(-1)):
        w.compare(a, n, "iterator of a nameless view")
    if bm.size:  # elements share the variables
        v, n = w.new_leaf()
        nested[0, 0] = v
        w.compare(nested[0, 0], n, "view of a nameless view")
    x = Variable()
    y = VariableMatrix(1, 1)
    y[0] = x
    z = y[0]
    z.set_value(3.5)
    R.check(x.value() == 3.5 and y[0, 0].value() == 3.5, "shared element", "an element is not the variable put there")
    z += 1.0
    R.check(y[0].value() == 3.5, "element changed", "in-place arithmetic on an element's handle changed the matrix")
    R.count("lifetimes")


STEPS = [(do_read, 6), (do_write, 5), (do_binary, 7), (do_unary, 3), (do_scalar, 5), (do_compare, 3), (do_set_value, 2), (do_construct, 2), (do_linear_algebra, 0.3), (do_lifetime, 0.5)]


def matrices(g):
    GEN[0] += 1
    w = World(g)
    w.mats.append(w.fresh())
    fs, ws = zip(*STEPS)
    for _ in range(g.randint(4, 18)):
        f = g.choices(fs, ws)[0]
        f(w)
        if g.random() < 0.25:
            w.move()
            w.recheck()
    w.recheck()
    R.nontrivial("; ".join(w.log))
    R.sample("; ".join(w.log))


# --------------------------------------------------------------- derivatives
def expression(g, leaves, size):
    """Random expressions: lists of (Variable, Node)."""
    pool = list(leaves)
    for _ in range(size):
        a, na = g.choice(pool)
        b, nb = g.choice(pool[-4:])
        k = g.randint(0, 9)
        va, vb = na.ev(), nb.ev()
        if k <= 1: r = a + b, na + nb
        elif k == 2: r = a - b, na - nb
        elif k <= 4: r = a * b, na * nb
        elif k == 5:
            if abs(vb) < 0.2: continue
            r = a / b, na / nb
        elif k == 6:
            x = g.randint(-8, 8) / 4
            r = g.choice([(a * x, na * x), (x - a, x - na), (a + x, na + x)])
        elif k == 7:
            p = g.randint(0, 3)
            r = a**p, na**p
        elif k == 8:
            name = g.choice(["sin", "cos", "exp", "tanh", "atan", "sqrt", "log", "erf", "sinh", "cosh", "cbrt", "asin"])
            if not DOMAIN.get(name, lambda x: True)(va) or abs(va) > 4: continue
            r = getattr(ad, name)(a), Node(name, (na,))
        else:
            name = g.choice(["hypot", "atan2", "pow", "max", "min"])
            if va * va + vb * vb < 0.05 or abs(va - vb) < 1e-3: continue
            if name == "pow" and not (0.2 < va < 4 and abs(vb) < 3): continue
            if name == "atan2" and vb < 0 and abs(va) < 0.05: continue
            r = getattr(ad, name)(a, b), Node(name, (na, nb))
        if not abs(r[1].ev()) < 1e4:
            continue
        pool.append(r)
    return pool


def derivatives(g):
    GEN[0] += 1
    leaves = []
    n = g.randint(1, 4)
    X = VariableMatrix(n, 1)
    for i in range(n):
        v = X[i]
        x = g.randint(-96, 96) / 32
        v.set_value(x)
        leaves.append((v, Node("leaf", (), x)))
    pool = expression(g, leaves, g.randint(2, 14))
    order = list(range(n))
    if g.random() < 0.5:
        g.shuffle(order)
        order = order[:g.randint(1, n)]
    wn = [leaves[i][1] for i in order]
    how = g.randint(0, 2)
    if len(order) == 1 and how == 0:
        wrt = leaves[order[0]][0]
    elif order == list(range(n)) and how == 1:
        wrt = X[:, 0:1] if g.random() < 0.5 else X
    else:
        wrt = VariableMatrix([[leaves[i][0]] for i in order])
    m = g.randint(1, 4)
    outs = [g.choice(pool[-6:]) for _ in range(m)]
    kind = g.choice(["gradient", "jacobian", "hessian"])
    f, fn = outs[0]
    if kind == "gradient":
        d = Gradient(f, wrt)
    elif kind == "hessian":
        d = Hessian(f, wrt)
    elif isinstance(wrt, Variable) or g.random() < 0.3:
        d, m, outs = Jacobian(f, wrt), 1, outs[:1]
    else:
        d = Jacobian(VariableMatrix([[o[0]] for o in outs]), wrt)
    sym = d.get() if g.random() < 0.4 else None
    held = []
    text = f"{kind} of {m} expressions wrt {len(order)} of {n}"
    for rep in range(g.randint(1, 4)):
        if rep:
            for v, nd in leaves:
                if g.random() < 0.7:
                    nd.k = g.randint(-96, 96) / 32
                    v.set_value(nd.k)
            GEN[0] += 1
        if kind == "gradient":
            want = fn.jets(wn)[1].reshape(-1, 1)
        elif kind == "hessian":
            want = fn.jets(wn)[2]
        else:
            want = np.array([o[1].jets(wn)[1] for o in outs])
        [o[1].ev() for o in outs]
        big = max(o[1].big for o in outs)
        t = np.full(want.shape, 1e-8 * (1 + big + np.nanmax(np.abs(want), initial=0)) ** (1 if kind != "hessian" else 1))
        got = d.value()
        R.check(scipy.sparse.issparse(got), f"{kind} type", lambda: f"{type(got)}")
        R.check(got.shape == want.shape, f"{kind} shape", lambda: f"{got.shape} instead of {want.shape}: {text}")
        ok = np.isfinite(want).all() and np.abs(want).max(initial=0) < 1e6 and big < 1e5
        if ok:
            near(got.toarray(), want, t, kind, lambda: text + ": " + "; ".join(spelled(o[1]) for o in outs)[:1500])
            R.count("derivative entries compared", want.size)
            if sym is not None:
                near(sym.value(), want, t, f"symbolic {kind}", lambda: text)
        held.append((got, got.toarray().copy()))
        for old, copy in held:
            R.check(np.array_equal(old.toarray(), copy, equal_nan=True), "result changed", lambda: f"an earlier {kind} changed when a new one was computed: {text}")
        R.count("derivatives compared")
    if g.random() < 0.3:
        del d, f, outs
        gc.collect()
        for old, copy in held:
            R.check(np.array_equal(old.toarray(), copy, equal_nan=True), "result changed", lambda: f"a {kind} changed when its object was destroyed")
    R.nontrivial(text + str([str(o) for o in order]) + str([p[1].op for p in pool]))
    R.sample(text)


def types(g):
    """Expression types through Python."""
    x, y = Variable(), Variable()
    x.set_value(g.randint(-3, 3)), y.set_value(g.randint(-3, 3))
    T = ad.ExpressionType
    c = g.randint(1, 5)
    for e, want in ((Variable(float(c)), T.CONSTANT), (x, T.LINEAR), (x + c, T.LINEAR), (x * c - y, T.LINEAR), (x * y, T.QUADRATIC), (x * x + y, T.QUADRATIC), (x * x * y, T.NONLINEAR), (ad.sin(x), T.NONLINEAR), (x**2, T.QUADRATIC)):
        R.check(e.type() == want, "type", lambda: f"{e.type()} instead of {want}")
    R.count("types compared", 9)
    R.nontrivial(f"{c} {x.value()} {y.value()}")


R.cases("matrices", 12000, matrices)
R.cases("derivatives", 12000, derivatives)
R.cases("types", 40, types)
R.finish()
