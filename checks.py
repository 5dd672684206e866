"""What each check builds and runs."""
import pathlib
import shutil
import subprocess

HERE = pathlib.Path(__file__).resolve().parent
NANOBIND = [pathlib.Path(p) for p in ("/opt/vp/venv/lib/python3.12/site-packages/nanobind",)]

O1 = ["-O1"]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
MAT = {"name": "mat", "src": ["mat.cpp"], "lib": "ad", "flags": O1, "mult": 20}
AD = {"name": "ad", "src": ["ad.cpp"], "lib": "ad", "flags": O1, "mult": 2}

CHECKS = {
    "A01": {
        "technique": "online oracle monitor over random expression histories (reference interpreter)",
        "note": "Every value the library reports in random build/change/evaluate histories is compared with a long double interpreter of the same program; simplification cases are swept at the points the rules look for.",
        "builds": [AD],
        "rule": "each distinct random expression program (hash of its text), and each distinct (operation, operands, constant mask) of the special-value cases",
        "assumptions": ["points are drawn where the formula is defined, with margin to singularities; special-value cases exclude NaN results and division by zero"],
        "require": {"values compared": 100000, "special values compared": 20000},
    },
    "A02": {
        "technique": "online oracle monitor: derivative objects against second-order forward jets",
        "note": "Jacobian and Gradient objects, numeric and symbolic, interleaved over shared subexpressions, compared entry by entry with forward-mode jets in long double.",
        "builds": [AD],
        "rule": "each distinct random expression program (hash of its text) whose derivatives were compared",
        "assumptions": ["derivatives are compared where the formula is twice differentiable, with margin to kinks, and at exact ties", "wrt lists hold distinct leaf variables"],
        "require": {"derivative entries compared": 100000, "kinks judged": 10000},
    },
    "A03": {
        "technique": "online oracle monitor: Hessian objects against second-order forward jets",
        "note": "Full, lower-triangular and symbolic Hessians compared entry by entry with second-order forward jets over histories of leaf changes.",
        "builds": [AD],
        "rule": "each distinct random expression program (hash of its text) whose second derivatives were compared",
        "assumptions": ["derivatives are compared where the formula is twice differentiable, with margin to kinks", "wrt lists hold distinct leaf variables"],
        "require": {"second derivative entries compared": 100000},
    },
    "A04": {
        "technique": "online oracle monitor: type labels against observed derivatives at several points",
        "note": "A label is refuted when observed values, first or second derivatives vary between points although the label says they cannot.",
        "builds": [AD],
        "rule": "each distinct random expression program (hash of its text) whose node labels were compared",
        "assumptions": ["an understatement is observed when it shows at one of six random points"],
        "require": {"labels compared": 100000},
    },
    "M01": {
        "technique": "online oracle monitor: matrix operations against an index-based model",
        "note": "Random operand kinds, shapes and histories; every entry of every result is compared with a plain model, again after leaf values moved.",
        "builds": [MAT],
        "rule": "each distinct sequence of matrix operations and operand kinds",
        "require": {"entries compared": 500000},
    },
    "M02": {
        "technique": "online oracle monitor: views against index lists; exhaustive slice comparison with Python's rules",
        "note": "All slices of lengths 0 to 7 with ends in [-9, 9] and extremes; random nested views read, iterated and written, whole matrix compared after each write.",
        "builds": [MAT],
        "rule": "each distinct slice selecting something and each distinct view expression",
        "require": {"slices compared": 20000, "nonempty views": 20000},
    },
    "M03": {
        "technique": "online oracle monitor: in-place operations with overlapping operands against a copy-first model",
        "note": "Targets and sources are random strided and reversed windows of the same matrix; all entries of all matrices are compared after each operation and after leaf changes.",
        "builds": [MAT],
        "rule": "each distinct sequence of in-place operations",
        "require": {"overlapping operands": 20000},
    },
    "M04": {
        "technique": "residual monitor on solve() and exp() results over value changes",
        "note": "A X - B and the matrix exponential are recomputed numerically at each of several values of the entries.",
        "builds": [MAT],
        "rule": "each random system or matrix",
        "require": {"solve n=4": 500, "exp n=3": 200},
    },
    "M05": {
        "technique": "online oracle monitor: constraint residuals against the written relation",
        "note": "Every combination of scalar, matrix, block and numeric sides and every relation, at values where the relation holds, is tight or is violated.",
        "builds": [MAT],
        "rule": "each distinct combination of operand kinds, relation and shape with its values, and each joined list",
        "require": {"elements holding": 20000, "elements violated": 20000},
    },
}


def solve(n, mult=1.0):
    return {"name": "solve", "src": ["solve.cpp"], "lib": "all", "flags": O1 + [f"-DVF_ONLY={n}"], "mult": mult}


CHECKS["A04"]["builds"] = [AD, solve(104)]
CHECKS["A04"]["require"]["problem types compared"] = 50000
_PROB = "random problems over a grammar of scalar functions (affine, polynomial, exponential, trigonometric, rational, products), rounded coefficients, badly scaled variants, built in random ways through the public interface"
CHECKS.update({
    "S01": {
        "technique": "offline oracle monitor: successes judged by an independent optimality test",
        "note": "Every SUCCESS is judged at the returned point with gradients from an independent evaluator and best-fitting multipliers (nonnegative least squares in long double); solvers called directly are judged with their own multipliers in the user's units.",
        "builds": [solve(1, 4)],
        "rule": "each distinct problem whose success was judged: " + _PROB,
        "assumptions": ["stationarity and complementarity are judged where the gradients of the near-active constraints are independent (others: feasibility only)",
                        "tolerances are widened by the documented multiplier-size scaling and by rounding of the gradients"],
        "require": {"successes judged": 10000, "direct successes judged": 3000, "regular successes": 3000, "NaN-derivative points reached": 100},
    },
    "S02": {
        "technique": "offline oracle monitor: convex problems constructed around a known optimum",
        "note": "Strictly convex problems are built backwards from their unique optimum, so every solve is compared with the true answer; anything else is a failure.",
        "builds": [solve(2, 4)],
        "rule": "each distinct convex problem: " + _PROB,
        "assumptions": ["decently scaled, with independent active gradients and strict complementarity; starts not far out", "stops within rounding error of the optimal cost are tolerated in at most 2 % of the problems",
                        "the known rare breakdown with curved inequality constraints is told from a regression by its rate"],
        "require": {"larger problems": 2000, "status SUCCESS": 50000},
    },
    "S03": {
        "technique": "offline oracle monitor: statuses judged on problems with known feasibility",
        "note": "Problems made infeasible (or kept feasible) by construction in nine ways, over-constrained ones, nonfinite and barely finite starts, problems of constants; the status is compared with what is known.",
        "builds": [solve(3, 8)],
        "rule": "each distinct problem: " + _PROB,
        "assumptions": ["which infeasible status is returned is judged only where one is mandatory (contradicting bounds, too few degrees of freedom, nonfinite start)"],
        "require": {"infeasible problems": 20000, "nonfinite starts": 3000, "finite starts near singularities": 3000, "overconstrained problems": 2000, "touching bounds": 3000, "given up before the first iteration": 2500, "starts where only the Hessian is not finite": 1000},
    },
    "S04": {
        "technique": "offline checker over recorded callback and iterate logs, fault injection by stop requests",
        "note": "Solves are replayed with stop requests at chosen calls, iteration limits and virtual timeouts; the event logs are compared with those of the undisturbed run.",
        "builds": [solve(4, 8)],
        "rule": "each distinct problem traced: " + _PROB,
        "assumptions": ["in feasibility restoration limits are only checked not to be exceeded"],
        "require": {"stops requested": 20000, "stops requested during feasibility restoration": 200, "solves with registered callbacks": 5000, "out of time": 500},
    },
    "S05": {
        "technique": "online oracle monitor: iteration info against an independent evaluator",
        "note": "Gradient, Jacobians and Lagrangian Hessian shown to callbacks are compared in every iteration with an independent evaluation times one constant positive factor per function; slacks and multipliers must be positive. In restoration, the enlarged problem's derivatives are compared in the same way, with its weights determined from the data; the iterate is followed into and out of restoration, where the violation must have dropped and the multipliers be the estimate for the gradient shown.",
        "builds": [solve(5, 8)],
        "rule": "each distinct problem: " + _PROB,
        "assumptions": ["iterates beyond 100 in size are not evaluated", "a row's factor is known only where its derivative is not cancelled"],
        "require": {"iterations checked": 300000, "Hessians checked": 300000, "restoration iterations seen": 5000, "restoration Hessians checked": 8000, "restorations left": 400, "restoration reductions checked": 200, "restored multipliers checked": 60},
    },
    "S06": {
        "technique": "online oracle monitor: every iterate of the feasible method against the inequality constraints",
        "note": "From strictly feasible starts, each iterate and the final point are checked with an independent evaluator; successes are judged for optimality.",
        "builds": [solve(6, 8)],
        "rule": "each distinct problem with a strictly feasible start: " + _PROB,
        "assumptions": ["feasibility restoration may give up feasibility; steps are judged from feasible iterates"],
        "require": {"iterates checked": 100000, "successes judged": 10000},
    },
    "S07": {
        "technique": "differential monitor: bitwise comparison of iterate logs between solves",
        "note": "The same problem is solved again, after other work, with diagnostics and spy files on, and rebuilt; parameters are changed and compared with problems built with those values. Some solves get memory filled with different bytes; so do ones whose factorizations break down.",
        "builds": [solve(7, 8)],
        "rule": "each distinct problem: " + _PROB,
        "require": {"breakdowns tried": 5000, "compared with memory filled": 5000, "parameter changes compared": 20000},
    },
})


def util(n, mult=1.0, cc="gcc", flags=O1):
    return {"name": "util", "src": ["util.cpp"], "lib": "none", "flags": flags + [f"-DVF_ONLY={n}"], "mult": mult, "cc": cc}


CHECKS.update({
    "C01": {
        "technique": "online oracle monitor: factorizations judged by eigenvalues and residuals in long double",
        "note": "Sequences of matrices of the solver's structure (definite, indefinite, singular, dependent constraints, badly scaled, nonfinite) through one object each of the dense and sparse kind; inertia, residual and needless regularization are judged after every factorization.",
        "builds": [util(1, 6)],
        "rule": "each distinct matrix factored",
        "assumptions": ["eigenvalues within rounding error of zero may count either way", "needless regularization is judged where every elimination order has pivots clear of zero", "residual bounds are wide where regularized factorizations without pivoting magnify rounding"],
        "require": {"inertias checked": 10000, "right inertia kept": 3000, "solutions checked": 10000},
    },
    "C02": {
        "technique": "online oracle monitor: error norms against their definition in long double",
        "note": "Random data of all shapes with subsets of the optimality conditions holding, so that each part of the norm decides in turn; the unscaled variant is given scaled data and compared with the error of the original.",
        "builds": [util(2, 8)],
        "rule": "each distinct set of data",
        "require": {"errors compared": 50000, "unscaled errors compared": 50000},
    },
    "C03": {
        "technique": "online trace monitor: every verdict of the filter against its acceptance rules and all protection given so far",
        "note": "Random histories of trials around the decision boundaries, accepted iterates, and resets; the monitor never forgets a protected point.",
        "builds": [util(3, 8)],
        "rule": "each distinct history of verdicts with at least two accepted trials",
        "assumptions": ["trials whose verdict hangs on rounding are redrawn"],
        "require": {"trials accepted": 50000, "trials rejected": 50000, "trials rejected by the filter": 1000, "points protected": 10000, "resets": 1000},
    },
    "C04": {
        "technique": "online oracle monitor: step lengths against the rule in long double",
        "note": "Vectors and steps over 24 orders of magnitude, in which no, the last or any entry decides.",
        "builds": [util(4, 6)],
        "rule": "each distinct pair of vectors",
        "require": {"full steps": 10000, "cut by the last entry": 10000, "cut by an earlier entry": 10000},
    },
    "C05": {
        "technique": "online oracle monitor: factors, norms and tests against their definitions on dense copies",
        "note": "Random sparse data with explicit zeros, empty rows, spare room, both storage orders and nonfinite entries.",
        "builds": [util(5, 8)],
        "rule": "each distinct set of data",
        "assumptions": ["local infeasibility is judged where both norms are clear of their thresholds"],
        "require": {"factors compared": 50000, "nonfinite matrices": 5000, "rows compared": 20000, "locally infeasible": 5000},
    },
    "C06": {
        "technique": "online oracle monitor: estimates against long double least squares, triplets against the stacked dense matrices",
        "note": "Random Jacobians with independent equality rows, any number of inequality rows, slacks and barrier parameters that clamp the multipliers on both sides.",
        "builds": [util(6, 8)],
        "rule": "each distinct set of data",
        "assumptions": ["estimates are judged where the least-squares problem is well conditioned"],
        "require": {"multipliers compared": 50000, "multipliers clamped below": 1000, "multipliers clamped above": 15, "triplets compared": 100000},
    },
    "R03": {
        "technique": "online monitor of construction, destruction and call counts of probe objects under AddressSanitizer",
        "note": "Random histories over several pointers, guards and references, with exceptions; ownership is recounted after every operation.",
        "builds": [util(7, flags=ASAN)],
        "rule": "each distinct history of operations",
        "require": {"ownership states checked": 100000, "guards unwound by exceptions": 2000, "calls through references": 50000},
    },
})


def misc(n, name="misc", lib="all", flags=(), mult=1.0):
    return {"name": name, "src": ["misc.cpp"], "lib": lib, "flags": O1 + [f"-DVF_ONLY={n}", *flags], "mult": mult}


CHECKS.update({
    "S08": {
        "technique": "online oracle monitor: recognised bounds and projected points against the written inequalities",
        "note": "Random lists of single-variable inequalities in ten ways of writing among other constraints; whole problems with redundant and contradicting bounds, also in a build with bound projection enabled, where the first iterate is compared.",
        "builds": [misc(1, mult=4), misc(2, "projecting", mult=4, flags=["-DSLEIPNIR_ENABLE_BOUND_PROJECTION"])],
        "rule": "each distinct list of constraints, projected point and box problem",
        "assumptions": ["constraints naming a second variable whose coefficients cancel are not judged", "bounds that meet up to rounding are judged where their arithmetic is exact"],
        "require": {"bounds recognised": 100000, "touching bounds": 1000, "lists with conflicts": 5000, "coordinates moved": 50000, "projected coordinates": 5000, "conflicting problems": 1000},
    },
    "F02": {
        "technique": "offline decoder of the printed text against a log of callbacks and the user's functions in long double",
        "note": "The text of real solves (restoration, second-order corrections, limits, stops, infeasible, overdetermined and empty problems) is parsed; every row, list and count is recomputed from the iterates the callbacks saw.",
        "builds": [{"name": "diag", "src": ["diag.cpp"], "lib": "all", "flags": O1, "mult": 4}],
        "rule": "each distinct solve (status, solver, sizes, last row), rendered number and span series",
        "assumptions": ["printed digits bound the precision of the comparison", "durations are compared with each other, not with a clock of the monitor's (spans excepted)"],
        "require": {"solver traces checked": 15000, "costs checked": 1000000, "errors checked": 1000000, "primal steps checked": 1000000, "restoration errors checked": 10000, "restoration costs with distance": 800, "second-order correction rows": 1500, "violation lists checked": 2000, "conflicts named": 800, "silent solves": 1500},
    },
    "F01": {
        "technique": "offline decoder of the written files against a log of callbacks; text comparison",
        "note": "Sparsity files of random matrices and of real solves (restoration, limits and stop requests included) are decoded and compared with the matrices callbacks were shown; exit lines printed and all formatters are compared with the values.",
        "builds": [misc(3)],
        "rule": "each distinct file written directly, problem and formatted triple",
        "assumptions": ["stored zeros may be left out", "iterations of feasibility restoration show that problem's larger matrices"],
        "require": {"patterns compared": 50000, "files decoded": 10000, "restoration patterns": 1000, "exit texts compared": 2000, "texts compared": 100000},
    },
})


CHECKS.update({
    "O01": {
        "technique": "online oracle monitor: trajectories against the integration rules in long double; first-order optimality of the reduced problem",
        "note": "Random linear and nonlinear, time-varying dynamics in every transcription, time-step mode and calling form; defects, limits, end and step constraints are recomputed at the solution, and nothing else may hold the solution back (reduced gradient by simulation).",
        "builds": [{"name": "ocp", "src": ["ocp.cpp"], "lib": "all", "flags": O1, "mult": 4}],
        "rule": "each distinct problem solved and each distinct structure examined",
        "assumptions": ["nonlinear problems need not be solved, only successes are judged; linear ones with fixed time steps and a start near a feasible trajectory must be", "optimality is judged where only boxes and the final state constrain the free quantities"],
        "require": {"successes judged": 2000, "optima judged": 1000, "steps compared": 10000, "shooting trajectories compared": 500, "final states judged": 100, "convex problems": 300},
    },
})

TSAN = ["-O1", "-fsanitize=thread"]


def threads(n, name, lib, flags, mult=1.0):
    return {"name": name, "src": ["threads.cpp"], "lib": lib, "flags": flags + [f"-DVF_ONLY={n}"], "mult": mult}


CHECKS.update({
    "X01": {
        "technique": "recorded calls and results of every start against the ranking, injected delays, under ThreadSanitizer and AddressSanitizer",
        "note": "Plans of statuses and costs (ties, infinities, NaN for failures) over random numbers of starts whose completion order is disturbed by injected delays; calls per guess, the arguments and the result are recorded.",
        "builds": [threads(1, "starts-tsan", "none", TSAN, 1), threads(1, "starts-asan", "none", ASAN, 2)],
        "rule": "each distinct plan of statuses and costs together with the completion order seen",
        "assumptions": ["successful results have costs that are numbers", "at least one start is given"],
        "require": {"best successes": 3000, "best failures": 1000},
    },
    "R04": {
        "technique": "ThreadSanitizer; results of concurrent workloads compared bitwise with the same run alone",
        "note": "Differentiation, matrices, solves, optimal control and multistart on 2 to 8 threads with injected delays, threads starting and ending at random; each job's hash of all numbers is compared with its hash when run alone.",
        "builds": [threads(2, "threads-tsan", "all", TSAN), threads(2, "threads", "all", O1, 4)],
        "rule": "each distinct set of jobs",
        "assumptions": ["each thread uses its own objects", "sparsity files are not written (they have fixed names)"],
        "require": {"overlapping runs": 1000, "results compared: solve": 1000, "results compared: differentiation": 1000, "multistarts": 300},
    },
})


HOOKS = "-DSLEIPNIR_VERIF_HOOKS"
MEMFLAGS = ASAN + [HOOKS, "-D_GLIBCXX_ASSERTIONS"]
MEMKEYS = ("crash", "hang", "pool ")
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=no", "--undef-value-errors=yes", "--leak-check=no", "--show-mismatched-frees=yes"]


def memory(name, src, prop, mult, only=None, lib="all", **kw):
    flags = MEMFLAGS + ([f"-DVF_ONLY={only}"] if only else [])
    return {"name": name, "src": [src], "lib": lib, "flags": flags, "mult": mult, "prop": prop, "keys": MEMKEYS, **kw}


def memcheck(name, src, prop, mult, only=None, lib="all", **kw):
    flags = O1 + [HOOKS, "-DVF_VALGRIND"] + ([f"-DVF_ONLY={only}"] if only else [])
    return {"name": name, "src": [src], "lib": lib, "flags": flags, "mult": mult, "prop": prop, "keys": MEMKEYS, "wrap": VALGRIND, **kw}


CHECKS.update({
    "R01": {
        "technique": "AddressSanitizer with poisoned pool blocks, UndefinedBehaviorSanitizer, libstdc++ assertions, valgrind memcheck; recorded block histories",
        "note": "Random lifetimes of all kinds of objects (copied, moved from, reassigned, aliased, empty, destroyed in any order, exceptions from callbacks and dynamics), and the workloads of the other checks, under sanitizers; free pool blocks are poisoned through a hook.",
        "builds": [
            {"name": "lifetimes", "src": ["mem.cpp"], "lib": "all", "flags": MEMFLAGS + ["-DVF_ONLY=1"], "mult": 4},
            memory("matrices", "mat.cpp", "M01", 0.5),
            memory("solves", "solve.cpp", "S04", 0.5, 4),
            memcheck("lifetimes-memcheck", "mem.cpp", "R01", 0.03, 1),
            memcheck("solves-memcheck", "solve.cpp", "S07", 0.15, 7),
        ],
        "rule": "each distinct history of operations, and each distinct problem",
        "assumptions": ["moved-from objects are only assigned to or destroyed", "views are not used after their matrix is gone, resized or moved"],
        "require": {"operations": 100000, "exceptions": 500, "empty results": 200, "empty derivatives": 200},
    },
    "R02": {
        "technique": "online monitor of pool block histories; conservation of blocks against the same live objects built from nothing",
        "note": "Blocks of random sizes with contents checked; random expression programs with derivative objects whose block count must equal that of the surviving objects built afresh and return to the start; chains of great depth on a small stack.",
        "builds": [{"name": "storage", "src": ["mem.cpp"], "lib": "all", "flags": O1 + [HOOKS, "-DVF_ONLY=2"], "mult": 3}],
        "rule": "each distinct history of blocks, program with its history, and chain",
        "assumptions": ["each pool is used by the thread that owns it"],
        "require": {"block counts compared": 20000, "deep results compared": 100, "solves counted": 2000, "pool states checked": 500000},
    },
})


def python_module(repo, v, out, chk):
    """Builds the Python package from the sources under repo into out/py."""
    import concurrent.futures as cf
    nb = next((d for d in NANOBIND if (d / "src/nb_combined.cpp").exists()), None)
    if nb is None:
        raise chk.CheckError("nanobind not found")
    flags = ["g++-14", "-std=c++23", "-O1", "-fPIC", "-fvisibility=hidden", "-w", "-DNDEBUG", "-DSLEIPNIR_PYTHON=1", f"-I{repo}/include", f"-I{repo}/python/cpp",
             f"-I{v}/shim", "-include", "slp_prelude.hpp", "-isystem", "/usr/include/eigen3", "-isystem", str(nb / "include"), "-isystem", str(nb / "ext/robin_map/include"), "-isystem", "/usr/include/python3.12"]
    srcs = sorted((repo / "python/cpp").rglob("*.cpp"), key=lambda f: -f.stat().st_size) + sorted((repo / "src").rglob("*.cpp")) + [nb / "src/nb_combined.cpp"]
    srcs.sort(key=lambda f: f.name != "main.cpp")
    srcs.append(HERE / "harness" / "py_ref.cpp")
    jobs = [(flags, out / f"py.{i}.o", f) for i, f in enumerate(srcs)]
    with cf.ThreadPoolExecutor(chk.NPROC) as ex:
        list(ex.map(lambda j: chk.compile_one(*j), jobs))
    pkg = out / "py" / "sleipnir"
    shutil.copytree(repo / "python/src/sleipnir", pkg, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    ref = [str(o) for _, o, f in jobs if f.name == "py_ref.cpp" or f.is_relative_to(repo / "src")]
    r = subprocess.run(["g++-14", *ref, "-o", str(out / "ref"), "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise chk.CheckError("link failed:\n" + r.stderr[-2000:])
    r = subprocess.run(["g++-14", "-shared", *[str(o) for _, o, f in jobs if f.name != "py_ref.cpp"], "-o", str(pkg / "_sleipnir.so"), "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        raise chk.CheckError("link failed:\n" + r.stderr[-2000:])


def python(name, src, mult=1.0, **kw):
    return {"name": name, "src": [], "lib": "none", "mult": mult, "cmd": lambda out: ["env", f"PYTHONPATH={out}/py:{HERE}/harness", f"SLEIPNIR_REF={out}/ref", "PYTHONDONTWRITEBYTECODE=1", "python3-vt", str(HERE / "harness" / src)], **kw}


CHECKS.update({
    "P01": {
        "technique": "online oracle monitor: Python matrices against NumPy object arrays; derivatives against second-order jets",
        "note": "The Python module is built from the tree; random histories of indexing, slicing, assignment, views, operators and functions are mirrored by NumPy on object arrays of expression nodes, and every entry is compared again after leaf values moved.",
        "prepare": [python_module],
        "builds": [python("matrices", "py_p01.py", 4)],
        "rule": "each distinct history of matrix operations, and each distinct list of expressions differentiated",
        "assumptions": ["combinations of operand kinds the module does not support may raise instead", "a single index and iteration go through the elements in row order",
                        "values are compared where the formula is defined, with margin to singularities"],
        "require": {"entries compared": 1000000, "results compared": 100000, "derivatives compared": 50000, "comparisons judged": 15000, "invalid uses refused": 40000,
                    "overlapping assignments": 1500, "writes compared": 30000, "arrays set": 4000, "linear algebra compared": 2000},
    },
    "P02": {
        "technique": "differential monitor: Python solves against a C++ program solving the same problem; fault injection by exceptions, signals and stop requests",
        "note": "Problems built in Python in all supported forms are described to a C++ reference built from the same tree; status, solution and all data shown to callbacks are compared per iteration. Callbacks, dynamics and starts raise at chosen calls, signals arrive during solves.",
        "prepare": [python_module],
        "builds": [python("problems", "py_p02.py", 3)],
        "rule": "each distinct problem with its options, stop requests, exceptions or starts",
        "assumptions": ["the first 40 iterations of a solve are compared field by field", "an equality constraint may be either difference of its sides"],
        "require": {"solves compared": 15000, "iteration fields compared": 500000, "exceptions in callbacks": 4000, "solves interrupted by signals": 40, "control problems compared": 1500,
                    "rankings judged": 400, "exceptions in multistart": 400, "misuse refused": 5000, "spy files judged": 1500, "exceptions in for_each_step": 400},
    },
})
