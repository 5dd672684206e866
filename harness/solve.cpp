// S01-S07: monitors around real solves.
#include "prob.hpp"

#include <sleipnir/optimization/solver/interior_point.hpp>
#include <sleipnir/optimization/solver/newton.hpp>
#include <sleipnir/optimization/solver/sqp.hpp>

using namespace vf;
using slp::ExitStatus;
using Info = slp::IterationInfo<double>;

static slp::Options quiet() {
  slp::Options o;
  o.diagnostics = getenv("VERIF_DIAG") != nullptr;
  o.timeout = std::chrono::duration<double>(1e6);
  return o;
}

static std::string vec(const DVec& x) {
  std::string s = "(";
  for (int i = 0; i < x.size(); ++i) s += fmt(i ? ", %.12g" : "%.12g", x[i]);
  return s + ")";
}

static bool same_bits(const DVec& a, const DVec& b) {
  return a.size() == b.size() && std::memcmp(a.data(), b.data(), sizeof(double) * a.size()) == 0;
}

static void count_solver(const Prob& q) {
  R.count(!q.ci.empty() ? "interior-point solves" : !q.ce.empty() ? "SQP solves" : "Newton solves");
}

// VF_ONLY keeps one property's monitors, to spend less on compiling.
#ifdef VF_ONLY
#define HAS(n) (VF_ONLY == (n))
#else
#define HAS(n) 1
#endif

#if HAS(1) || HAS(6)
/// Judges a success against the user's functions.
static bool judge_success(const Prob& q, const DVec& x, double tol, bool regular, const char* what) {
  if (!x.allFinite()) {
    R.fail(fmt("nonfinite %s", what), "success with nonfinite variables: " + q.text());
    return false;
  }
  Kkt k = kkt_of(q, x, tol);
  R.maximum("equality violation / tolerance", double(k.feas_e / tol));
  R.maximum("inequality violation / tolerance", double(k.feas_i / tol));
  if (!(k.feas_e <= 1.001L * tol)) {
    R.fail(fmt("equality violated %s", what), fmt("success with an equality constraint off by %.3Lg (tolerance %g) at %s: %s", k.feas_e, tol, vec(x).c_str(), q.text().c_str()));
    return false;
  }
  if (!(k.feas_i <= 1.001L * tol)) {
    R.fail(fmt("inequality violated %s", what), fmt("success with an inequality constraint violated by %.3Lg (tolerance %g) at %s: %s", k.feas_i, tol, vec(x).c_str(), q.text().c_str()));
    return false;
  }
  // The documented multiplier-size scaling of the tolerance, plus rounding of
  // the gradients themselves
  LD sd = std::max<LD>(1, k.lmean / 100);
  int m = q.n + q.ce.size() + q.ci.size();
  LD lim = 10 * std::sqrt((LD)m) * tol * sd + 1e-14L * k.gsize;
  // With dependent gradients the multipliers the solver ends with can be
  // arbitrarily larger than the best ones, and the tolerance scales with them
  if (!regular) return true;
  R.maximum("stationarity / limit", double(k.stat / lim));
  R.maximum("complementarity / limit", double(k.comp / lim));
  if (getenv("VERIF_DIST")) fprintf(stderr, "D %d %.3g %.3g %.3Lg\n", regular, double(k.stat / lim), double(k.comp / lim), sd);
  if (!(k.stat <= lim) || !(k.comp <= lim)) {
    R.fail(fmt("not optimal %s", what), fmt("success where no multipliers satisfy the optimality conditions: best stationarity residual %.3Lg, complementarity %.3Lg, limit %.3Lg (mean multiplier %.3Lg) at %s: %s", k.stat, k.comp, lim,
                               k.lmean, vec(x).c_str(), q.text().c_str()));
    return false;
  }
  return true;
}

/// Whether the constraints near x have independent, decently sized gradients.
static bool regular_at(const Prob& q, const DVec& x, double tol) {
  std::vector<LVec> rows;
  for (auto& c : q.ce) rows.push_back(c.eval(x, false).g);
  for (auto& c : q.ci) {
    auto o = c.eval(x, false);
    LD nr = o.g.norm();
    if (o.v < 1e-3L * std::max<LD>(nr, 1e-6L)) rows.push_back(o.g);
  }
  if (rows.empty()) return true;
  if ((int)rows.size() > q.n) return false;
  Eigen::MatrixXd A(rows.size(), q.n);
  for (size_t i = 0; i < rows.size(); ++i) {
    LD nr = rows[i].norm();
    if (!(nr > 1e-6L)) return false;
    A.row(i) = (rows[i] / nr).cast<double>().transpose();
  }
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(A);
  return svd.singularValues()(rows.size() - 1) > 0.05;
}

#endif

#if HAS(4) || HAS(7)
struct Trace {
  std::vector<DVec> x;  // of callbacks, in order
  std::vector<int> it;
  std::vector<int> dim;
  ExitStatus st;
  DVec final;
};

static Trace run_traced(Built& b, const slp::Options& o, bool spy = false) {
  Trace t;
  b.p.clear_callbacks();
  b.p.add_callback([&](const Info& i) {
    t.x.push_back(i.x);
    t.it.push_back(i.iteration);
  });
  t.st = b.p.solve(o, spy);
  t.final = b.get();
  b.p.clear_callbacks();
  return t;
}

#endif

#if HAS(4) || HAS(5) || HAS(7)
/// Problems that keep the solvers busy, some through feasibility restoration.
static Prob gen_busy(Rng& g) {
  if (g.chance(0.25)) {  // leads to feasibility restoration
    Prob q;
    q.n = 2;
    double a = g.real(0.5, 2), c = g.real(0.5, 3);
    q.f = {{{P_LIN, 1, {1, 0}, 0}}};
    q.ce = {Fn{{{P_SQ, a, {1, 0}, 0}, {P_LIN, -1, {0, 1}, 0}, {P_CONST, 1, {}, 0}}}};
    if (g.chance(0.7)) q.ci = {Fn{{{P_LIN, -1, {0, 1}, -c}}}};
    else q.ce.push_back(Fn{{{P_LIN, -1, {0, 1}, -c}}});
    q.x0 = DVec(2);
    q.x0 << g.real(1, 5), g.real(-2, 5);
    return q;
  }
  if (g.chance(0.3)) return gen_convex(g, 5).q;
  return gen_nonconvex(g, 5);
}

#endif

// -------------------------------------------------------------------- S01
#if HAS(1)
static void s01_any(Rng& g) {
  Prob q = gen_nonconvex(g);
  auto o = quiet();
  if (g.chance(0.3)) o.tolerance = std::pow(10, -g.real(3, 9));
  if (g.chance(0.15)) o.feasible_ipm = true;
  o.max_iterations = 500;
  if (getenv("VERIF_VERBOSE")) fprintf(stderr, "%s\n", q.text().c_str());
  auto b = build(g, q);
  auto st = b->p.solve(o);
  count_solver(q);
  R.count(std::string("status ") + status_name(st));
  if (st != ExitStatus::SUCCESS) return;
  DVec x = b->get();
  R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  R.count("successes judged");
  bool reg = regular_at(q, x, o.tolerance);
  R.count(reg ? "regular successes" : "degenerate successes");
  judge_success(q, x, o.tolerance, reg, "general");
}

static void s01_convex(Rng& g) {
  Convex c = gen_convex(g);
  auto o = quiet();
  if (g.chance(0.3)) o.tolerance = std::pow(10, -g.real(3, 9));
  auto b = build(g, c.q);
  auto st = b->p.solve(o);
  count_solver(c.q);
  R.count(std::string("status ") + status_name(st));
  if (st != ExitStatus::SUCCESS) return;
  R.nontrivial(hash_str(c.q.text()));
  R.sample(c.q.text());
  R.count("successes judged");
  judge_success(c.q, b->get(), o.tolerance, true, "convex");
}

/// The solvers called directly, so that the final multipliers are known.
static void s01_direct(Rng& g) {
  Prob q = gen_nonconvex(g, 5, true);
  if (q.ci.empty()) return;
  auto o = quiet();
  if (g.chance(0.3)) o.tolerance = std::pow(10, -g.real(3, 9));
  o.max_iterations = 300;
  int me = q.ce.size(), mi = q.ci.size(), n = q.n;
  using SM = Eigen::SparseMatrix<double>;
  using SV = Eigen::SparseVector<double>;
  // A constant pattern, zeros included
  auto full = [](const Eigen::MatrixXd& A, bool lower) {
    std::vector<Eigen::Triplet<double>> t;
    for (int c = 0; c < A.cols(); ++c)
      for (int r = lower ? c : 0; r < A.rows(); ++r) t.emplace_back(r, c, A(r, c));
    SM m(A.rows(), A.cols());
    m.setFromTriplets(t.begin(), t.end());
    return m;
  };
  auto jac = [n, full](const std::vector<Fn>& f, const DVec& x, const DVec& d) {
    Eigen::MatrixXd A(f.size(), n);
    for (size_t j = 0; j < f.size(); ++j) A.row(j) = (f[j].eval(x, false).g * (LD)d[j]).cast<double>().transpose();
    return full(A, false);
  };
  auto con = [](const std::vector<Fn>& f, const DVec& x, const DVec& d) {
    DVec v(f.size());
    for (size_t j = 0; j < f.size(); ++j) v[j] = double(f[j].eval(x, false).v * d[j]);
    return v;
  };
  double df = 1;
  DVec de = DVec::Ones(me), di = DVec::Ones(mi);
  int how = g.in(0, 2);
  if (how == 1) {  // as a problem would choose them
    auto lim = [](const LVec& v) { LD m = v.size() ? v.cwiseAbs().maxCoeff() : 0; return double(std::min<LD>(1, 100 / m)); };
    df = lim(q.f.eval(q.x0, false).g);
    for (int j = 0; j < me; ++j) de[j] = lim(q.ce[j].eval(q.x0, false).g);
    for (int j = 0; j < mi; ++j) di[j] = lim(q.ci[j].eval(q.x0, false).g);
  } else if (how == 2) {
    df = std::pow(10, g.real(-3, 1));
    for (auto& d : de) d = std::pow(10, g.real(-3, 1));
    for (auto& d : di) d = std::pow(10, g.real(-3, 1));
  }
  auto hc = [&](const DVec& x, const DVec& y, const DVec& z) {
    LMat H = LMat::Zero(n, n);
    for (int j = 0; j < me; ++j) H -= q.ce[j].eval(x).H * (LD)(y[j] * de[j]);
    for (int j = 0; j < mi; ++j) H -= q.ci[j].eval(x).H * (LD)(z[j] * di[j]);
    return H;
  };
  auto lower = [full](const LMat& H) { return full(H.cast<double>(), true); };
  slp::ProblemScaling<double> sc{df, de, di};
  slp::InteriorPointMatrixCallbacks<double> cb{
      n, me, mi,
      [&](const DVec& x) { return double(df * q.f.eval(x, false).v); },
      [&](const DVec& x) { return SV(((LD)df * q.f.eval(x, false).g).cast<double>().sparseView(0, -1)); },
      [&](const DVec& x, const DVec& y, const DVec& z) { return lower((LD)df * q.f.eval(x).H + hc(x, y, z)); },
      [&](const DVec& x, const DVec& y, const DVec& z) { return lower(hc(x, y, z)); },
      [&](const DVec& x) { return con(q.ce, x, de); },
      [&](const DVec& x) { return jac(q.ce, x, de); },
      [&](const DVec& x) { return con(q.ci, x, di); },
      [&](const DVec& x) { return jac(q.ci, x, di); },
      sc};
  std::vector<std::function<bool(const Info&)>> none;
  DVec x = q.x0, s = DVec::Ones(mi), y = DVec::Zero(me), z = DVec::Ones(mi);
  double mu = 0.1 * df;
  int it = 0;
#ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
  Eigen::ArrayX<bool> mask = Eigen::ArrayX<bool>::Constant(mi, false);
  auto st = slp::interior_point<double>(cb, none, o, false, mask, x, s, y, z, mu, it);
#else
  auto st = slp::interior_point<double>(cb, none, o, false, x, s, y, z, mu, it);
#endif
  R.count(std::string("direct status ") + status_name(st));
  if (mi && (!(s.minCoeff() > 0) || !(z.minCoeff() > 0))) {
    if (st == ExitStatus::SUCCESS) {
      R.fail("direct positivity", "slacks or multipliers not positive: " + q.text());
      return;
    }
  }
  if (st != ExitStatus::SUCCESS) return;
  R.nontrivial(hash_str(q.text()));
  R.count("direct successes judged");
  // the optimality conditions with these multipliers, in the user's units
  LVec yu(me), zu(mi), su(mi);
  LD l1 = 0, z1 = 0;
  for (int j = 0; j < me; ++j) l1 += std::fabs(yu[j] = (LD)y[j] * de[j] / df);
  for (int j = 0; j < mi; ++j) { z1 += std::fabs(zu[j] = (LD)z[j] * di[j] / df); su[j] = (LD)s[j] / di[j]; }
  LD sd = std::max<LD>(100, (l1 + z1) / (me + mi)) / 100, scc = std::max<LD>(100, z1 / mi) / 100;
  auto fo = q.f.eval(x, false);
  LVec r = fo.g;
  LD round = fo.g.cwiseAbs().maxCoeff(), worst = 0;
  for (int j = 0; j < me; ++j) {
    auto c = q.ce[j].eval(x, false);
    r -= yu[j] * c.g;
    round += std::fabs(yu[j]) * c.g.cwiseAbs().maxCoeff();
    worst = std::max(worst, std::fabs(c.v) - 1e-14L * c.size);
  }
  for (int j = 0; j < mi; ++j) {
    auto c = q.ci[j].eval(x, false);
    r -= zu[j] * c.g;
    round += std::fabs(zu[j]) * c.g.cwiseAbs().maxCoeff();
    worst = std::max(worst, std::fabs(c.v - su[j]) - 1e-14L * (c.size + std::fabs(su[j])));
    worst = std::max(worst, std::fabs(su[j] * zu[j]) / scc);
  }
  worst = std::max(worst, (r.cwiseAbs().maxCoeff() - 1e-13L * round) / sd);
  R.maximum("direct error / tolerance", double(worst / o.tolerance));
  VF_CHECK(worst <= 1.001L * o.tolerance, "direct not optimal", "success with optimality error %.3Lg in the user's units, tolerance %g (scaling %d): %s", worst, o.tolerance, how, q.text().c_str());
}

/// Functions whose derivative is not finite at a point Newton reaches exactly.
static void s01_nan(Rng& g) {
  double a = std::ldexp(1.0, g.in(-2, 3)), c = std::ldexp(1.0, g.in(-3, 3));
  slp::Problem<double> p;
  auto x = p.decision_variable(), y = p.decision_variable();
  x.set_value(a);
  y.set_value(0);
  auto h = slp::hypot(x, y);
  // Newton's step from a goes to 0 where hypot's derivative is NaN, while the
  // smooth rest has slope c there: with f = h^2 + c x + k x^3,
  // 0 = a - (2a + c + 3ka^2)/(2 + 6ka)  =>  k = c / (3a^2)
  auto f = h * h + c * x + (c / (3 * a * a)) * x * x * x;
  p.minimize(f);
  int con = g.in(0, 3);
  if (con & 1) p.subject_to(y == 0);
  if (con & 2) p.subject_to(y >= -1);
  double last = NAN;
  p.add_callback([&](const Info& i) { last = i.x[0]; });
  auto st = p.solve(quiet());
  R.count("NaN-derivative problems");
  if (x.value() == 0 && y.value() == 0) {
    R.count("NaN-derivative points reached");
    R.nontrivial(g.next());
    VF_CHECK(st != ExitStatus::SUCCESS, "success at NaN derivative", "success at (0, 0) where the slope is %g", c);
  }
}

#endif

// -------------------------------------------------------------------- S02
#if HAS(2)
static long s02_total = 0, s02_stalled = 0;
// Failures with curved inequality constraints: there the
// interior-point iteration has no guarantee, and rarely breaks down
static std::vector<std::pair<long, std::string>> s02_failed;
static void s02_judge_failed() {
  bool rare = s02_failed.size() <= std::max<size_t>(2, s02_total / 2000);
  for (auto& [i, m] : s02_failed) {
    R.cur_index = i;
    R.fail(rare ? "rare breakdown" : "convex not solved", m);
  }
}

static void s02_convex(Rng& g) {
  Convex c = gen_convex(g);
  auto b = build(g, c.q);
  auto o = quiet();
  if (g.chance(0.2)) o.feasible_ipm = true;
  if (g.chance(0.2)) o.tolerance = std::pow(10, -g.real(6, 9));
  auto st = b->p.solve(o);
  count_solver(c.q);
  R.count(std::string("status ") + status_name(st));
  R.nontrivial(hash_str(c.q.text()));
  R.sample(c.q.text());
  ++s02_total;
  if (st != ExitStatus::SUCCESS) {
    // Rounding in the cost can make the last step unattainable: tolerated
    // rarely, and only at a point where no better cost can be told apart
    DVec x = b->get();
    auto at = c.q.f.eval(x, false), best = c.q.f.eval(c.xs, false);
    bool limit = st == ExitStatus::MAX_ITERATIONS_EXCEEDED || st == ExitStatus::LINE_SEARCH_FAILED;
    if (limit && std::fabs(at.v - best.v) <= 1e-13L * at.size && (x - c.xs).cwiseAbs().maxCoeff() <= 1e-5) {
      ++s02_stalled;
      R.count("stalled within rounding of the optimum");
      return;
    }
  }
  if (st != ExitStatus::SUCCESS) {
    std::string msg = fmt("%s (tolerance %.2g, feasible %d) on a well-posed convex problem: ", status_name(st), o.tolerance, (int)o.feasible_ipm) + c.q.text();
    bool curved = false;
    for (auto& f : c.q.ci) curved |= f.t.size() > 1;
    if (curved && R.only_case.empty()) s02_failed.push_back({R.cur_index, msg});
    else R.fail("convex not solved", msg);
    return;
  }
  DVec x = b->get();
  double err = (x - c.xs).cwiseAbs().maxCoeff();
  R.maximum("distance to the optimum", err);
  R.maximum("distance to the optimum / tolerance", err / o.tolerance);
  VF_CHECK(err <= 1e-4, "convex wrong optimum", "off the optimum by %.3g: at %s, optimum %s: %s", err, vec(x).c_str(), vec(c.xs).c_str(), c.q.text().c_str());
}

/// Feasibility problems (no cost) and bigger quadratic programs.
static void s02_big(Rng& g) {
  int n = g.in(15, 40), me = g.in(0, n / 3), mi = g.in(1, n / 3);
  Convex c;
  c.q.n = n;
  c.xs = DVec(n);
  for (int i = 0; i < n; ++i) c.xs[i] = g.normal();
  for (int i = 0; i < n; ++i) {
    std::vector<double> e(n, 0.0);
    e[i] = 1;
    if (i + 1 < n) e[i + 1] = g.real(-0.3, 0.3);
    c.q.f.t.push_back({P_SQ, g.real(0.5, 1), e, g.real(-1, 1)});
  }
  LVec r = -c.q.f.eval(c.xs, false).g;
  std::vector<int> perm(n);
  for (int i = 0; i < n; ++i) perm[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[g.in(0, i)]);
  for (int j = 0; j < me + mi; ++j) {
    std::vector<double> a(n, 0.0);
    a[perm[j]] = g.chance(0.5) ? 1 : -1;  // independent by construction
    a[perm[me + mi + g.in(0, n - me - mi - 1)]] = g.real(-0.5, 0.5);
    double mult = j < me ? g.real(-1, 1) : g.chance(0.5) ? g.real(0.2, 1) : 0;
    double margin = j >= me && mult == 0 ? g.real(0.3, 2) : 0;
    Fn f{{{P_LIN, 1, a, -dot(a, c.xs) + margin}}};
    (j < me ? c.q.ce : c.q.ci).push_back(f);
    r += (LD)mult * f.eval(c.xs, false).g;
  }
  std::vector<double> lin(n);
  for (int i = 0; i < n; ++i) lin[i] = (double)r[i];
  c.q.f.t.push_back({P_LIN, 1, lin, 0});
  c.q.x0 = DVec(n);
  for (int i = 0; i < n; ++i) c.q.x0[i] = g.normal();
  auto b = build(g, c.q);
  auto st = b->p.solve(quiet());
  R.count("larger problems");
  R.nontrivial(g.next());
  VF_CHECK(st == ExitStatus::SUCCESS, "convex not solved", "%s on a quadratic program, n=%d me=%d mi=%d", status_name(st), n, me, mi);
  double err = (b->get() - c.xs).cwiseAbs().maxCoeff();
  R.maximum("distance to the optimum (larger)", err);
  VF_CHECK(err <= 1e-5, "convex wrong optimum", "off the optimum by %.3g, n=%d me=%d mi=%d", err, n, me, mi);
}

#endif

// -------------------------------------------------------------------- S03
#if HAS(3)
static Fn any_constraint_at(Rng& g, int n, const DVec& xf, double margin) {
  Fn c = any_fn(g, n, g.in(1, 2));
  c.t.push_back({P_CONST, (double)-c.eval(xf, false).v + margin, {}, 0});
  return c;
}

static void s03_infeasible(Rng& g) {
  Prob q;
  int n = q.n = g.in(1, 5);
  DVec xf(n);
  for (int i = 0; i < n; ++i) xf[i] = g.normal();
  q.has_f = g.chance(0.8);
  if (q.has_f) {
    if (g.chance(0.5)) q.f = gen_convex(g, n, false).q.f;
    else q.f = any_fn(g, n, g.in(1, 3));
    for (auto& t : q.f.t) { t.a.resize(n); t.b.resize(n); }
    for (int i = 0; i < n; ++i) {
      std::vector<double> e(n, 0.0);
      e[i] = 0.5;
      q.f.t.push_back({P_QUART, 1, e, 0});
    }
  }
  // other, satisfiable constraints
  for (int k = g.in(0, 2); k > 0; --k) q.ci.push_back(any_constraint_at(g, n, xf, g.real(0, 1)));
  if (n > 2 && g.chance(0.3)) q.ce.push_back(any_constraint_at(g, n, xf, 0));
  double d = std::pow(10, g.real(-2, 1));
  auto a = random_dir(g, n);
  int how = g.in(0, 8);
  double b0 = g.real(-2, 2);
  bool must_global = false;
  auto negate = [](Fn f) { return f.scaled(-1); };
  auto add_eq = [&](Fn f) { q.ce.insert(q.ce.begin() + g.in(0, q.ce.size()), std::move(f)); };
  auto add_in = [&](Fn f) { q.ci.insert(q.ci.begin() + g.in(0, q.ci.size()), std::move(f)); };
  switch (how) {
    case 0:  // contradicting affine equalities
      add_eq({{{P_LIN, 1, a, b0}}});
      add_eq(Fn{{{P_LIN, 1, a, b0 + d}}}.scaled(g.pick(std::vector<double>{1, -1, 2, 10})));
      break;
    case 1: {  // contradicting affine inequalities
      add_in({{{P_LIN, 1, a, -b0 - d}}});
      add_in(negate({{{P_LIN, 1, a, -b0}}}));
      int nz = 0;
      for (double v : a) nz += v != 0;
      must_global = nz == 1;
      break;
    }
    case 2: {  // contradicting bounds
      std::vector<double> e(n, 0.0);
      int i = g.in(0, n - 1);
      e[i] = g.real(0.2, 3);
      std::vector<double> e2(n, 0.0);
      e2[i] = -g.real(0.2, 3);
      double lo = b0 + d, up = b0;  // x >= lo, x <= up
      add_in({{{P_LIN, 1, e, -e[i] * lo}}});
      add_in({{{P_LIN, 1, e2, -e2[i] * up}}});
      must_global = true;
      break;
    }
    case 3:  // impossible values
      add_eq({{{P_SQ, 1, a, b0}, {P_CONST, d, {}, 0}}});
      break;
    case 4: add_in({{{P_EXP, -1, a, b0}, {P_CONST, -d, {}, 0}}}); break;
    case 5: add_eq({{{P_SQRT1, 1, a, b0}, {P_CONST, -1 + std::min(d, 0.9), {}, 0}}}); break;
    case 6: {  // a ball and a half space apart
      Fn ball;
      for (int i = 0; i < n; ++i) {
        std::vector<double> e(n, 0.0);
        e[i] = 1;
        ball.t.push_back({P_SQ, -1, e, -xf[i]});
      }
      ball.t.push_back({P_CONST, 1, {}, 0});
      double nr = 0;
      for (double v : a) nr += v * v;
      add_in(ball);
      add_in({{{P_LIN, 1, a, -dot(a, xf) - std::sqrt(nr) * (1 + d)}}});
      break;
    }
    case 7: {  // constraints that hold for no value of anything
      bool eq = g.chance(0.5);
      Fn f{{{P_CONST, eq && g.chance(0.5) ? d : -d, {}, 0}}};
      if (eq) add_eq(f);
      else add_in(f);
      break;
    }
    default:  // an equality against an inequality
      add_eq({{{P_LIN, 1, a, b0}}});
      add_in(Fn{{{P_LIN, -1, a, b0 + d}}}.scaled(g.real(0.5, 2)));
      if (g.chance(0.5)) {  // written nonlinearly
        q.ce.push_back({{{P_SIN, 1, random_dir(g, n), 0}}});
        q.ce.back().t.push_back({P_CONST, (double)-q.ce.back().eval(xf, false).v, {}, 0});
      }
  }
  q.x0 = DVec(n);
  for (int i = 0; i < n; ++i) q.x0[i] = g.chance(0.2) ? 0 : xf[i] + g.normal();
  auto b = build(g, q);
  auto o = quiet();
  o.max_iterations = 300;
  if (g.chance(0.2)) o.feasible_ipm = true;
  auto st = b->p.solve(o);
  R.count(std::string("infeasible: ") + status_name(st));
  R.count("infeasible problems");
  R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  VF_CHECK(st != ExitStatus::SUCCESS, fmt("success on infeasible %d", how), "success (variables %s) on a problem without feasible point: %s", vec(b->get()).c_str(), q.text().c_str());
  int bounds = 0;
  for (auto& c : q.ci) {
    auto v1 = c.eval(xf), v2 = c.eval(q.x0);
    bounds += (v1.g - v2.g).cwiseAbs().maxCoeff() < 1e-9L && (v1.g.array() != 0).count() == 1;
  }
  if ((int)q.ce.size() > n && !must_global)
    VF_CHECK(st == ExitStatus::TOO_FEW_DOFS || (bounds >= 2 && st == ExitStatus::GLOBALLY_INFEASIBLE), "too few dofs missed", "%s with %zu equalities for %d variables", status_name(st), q.ce.size(), n);
  if ((int)q.ce.size() <= n) VF_CHECK(st != ExitStatus::TOO_FEW_DOFS, "too few dofs", "%s with %zu equalities for %d variables", status_name(st), q.ce.size(), n);
  VF_CHECK(st != ExitStatus::NONFINITE_INITIAL_GUESS, "nonfinite claimed", "finite start: %s", q.text().c_str());
  if (st == ExitStatus::GLOBALLY_INFEASIBLE || st == ExitStatus::TOO_FEW_DOFS) {
    R.count("given up before the first iteration");
    VF_CHECK(same_bits(b->get(), q.x0), "values changed", "variables changed to %s although the solve ended (%s) before its first iteration: %s", vec(b->get()).c_str(), status_name(st), q.text().c_str());
  }
  if (must_global) VF_CHECK(st == ExitStatus::GLOBALLY_INFEASIBLE, "bound conflict missed", "%s although bounds contradict: %s", status_name(st), q.text().c_str());
  // nothing but contradicting bounds and constants may be called global
  if (bounds < 2 && how != 7) VF_CHECK(st != ExitStatus::GLOBALLY_INFEASIBLE, "global claimed", "globally infeasible claimed without contradicting bounds: %s", q.text().c_str());
}

static void s03_feasible(Rng& g) {
  Prob q = gen_nonconvex(g, 5, false);
  // equal lower and upper bounds are no contradiction
  if (g.chance(0.4)) {
    int i = g.in(0, q.n - 1);
    double v = std::round(g.normal() * 4) / 4;
    bool used = false;
    (void)used;
    std::vector<double> e(q.n, 0.0), e2(q.n, 0.0);
    e[i] = g.pick(std::vector<double>{1, 2, 0.5});
    e2[i] = -g.pick(std::vector<double>{1, 2, 4});
    Prob t;
    t.n = q.n;
    t.f = q.f;
    t.ce = {};
    t.x0 = q.x0;
    t.ci = {Fn{{{P_LIN, 1, e, -e[i] * v}}}, Fn{{{P_LIN, 1, e2, -e2[i] * (v + g.pick(std::vector<double>{0, 0, 0.25, 1})) }}}};
    q = t;
    R.count("touching bounds");
  }
  auto o = quiet();
  o.max_iterations = 200;
  auto b = build(g, q);
  auto st = b->p.solve(o);
  R.count(std::string("feasible: ") + status_name(st));
  R.nontrivial(hash_str(q.text()));
  VF_CHECK(st != ExitStatus::GLOBALLY_INFEASIBLE, "global claimed", "a feasible problem called globally infeasible: %s", q.text().c_str());
  VF_CHECK(st != ExitStatus::NONFINITE_INITIAL_GUESS, "nonfinite claimed", "finite start: %s", q.text().c_str());
  VF_CHECK((st == ExitStatus::TOO_FEW_DOFS) == ((int)q.ce.size() > q.n), "too few dofs", "%s with %zu equalities, %d variables", status_name(st), q.ce.size(), q.n);
}

static void s03_dofs(Rng& g) {
  Prob q;
  int n = q.n = g.in(1, 4), me = g.in(std::max(0, n - 1), n + 3);
  DVec xf(n);
  for (int i = 0; i < n; ++i) xf[i] = g.normal();
  q.has_f = g.chance(0.7);
  if (q.has_f) q.f = gen_nonconvex(g, n, false).f;
  for (auto& t : q.f.t) { t.a.resize(n); t.b.resize(n); }
  for (int j = 0; j < me; ++j) q.ce.push_back(any_constraint_at(g, n, xf, 0));
  for (int k = g.in(0, 3); k > 0; --k) q.ci.push_back(any_constraint_at(g, n, xf, g.real(0, 1)));
  q.x0 = DVec(n);
  for (int i = 0; i < n; ++i) q.x0[i] = xf[i] + 0.3 * g.normal();
  if (q.ce.empty() && q.ci.empty() && !q.has_f) return;
  auto b = build(g, q);
  auto o = quiet();
  o.max_iterations = 100;
  auto st = b->p.solve(o);
  R.nontrivial(hash_str(q.text()));
  R.count(me > n ? "overconstrained problems" : "not overconstrained problems");
  VF_CHECK((st == ExitStatus::TOO_FEW_DOFS) == (me > n), "too few dofs", "%s with %d equalities for %d variables: %s", status_name(st), me, n, q.text().c_str());
  if (me > n) VF_CHECK(same_bits(b->get(), q.x0), "values changed", "variables changed although nothing was done");
}

static void s03_nonfinite(Rng& g) {
  Prob q = gen_nonconvex(g, 4, false);
  while ((int)q.ce.size() > q.n) q.ce.pop_back();
  // one function whose value or derivative may be undefined at the start
  static const Phi ks[] = {P_LOG, P_SQRT, P_INV, P_EXP};
  int i = g.in(0, q.n - 1);
  std::vector<double> a(q.n, 0.0);
  a[i] = 1;
  int how = g.in(0, 6);
  double shift;  // value of the argument at the start
  Phi k = ks[g.in(0, 3)];
  bool bad = true;
  switch (how) {
    case 0: shift = k == P_EXP ? 800 : k == P_INV ? 0 : -g.real(0.1, 2); break;
    case 1: shift = k == P_EXP ? 1000 : 0; break;  // log(0), sqrt(0), 1/0: value or slope infinite
    case 6: shift = 1; break;  // only the second derivative is out of range
    default: shift = g.real(0.1, 2); bad = false;
  }
  if (k == P_INV && how == 0) shift = 0;
  q.x0[i] = std::round(q.x0[i] * 64) / 64;
  shift = bad && how == 1 ? shift : std::round(shift * 64) / 64;
  if (!bad && shift <= 0) shift = 0.5;
  if (bad && how == 0 && (k == P_LOG || k == P_SQRT) && shift >= 0) shift = -0.5;
  if (how == 6) {
    if (k == P_EXP) k = P_LOG;
    q.x0[i] = 0;
    shift = k == P_LOG ? 1e-200 : k == P_INV ? 1e-120 : 1e-250;
  }
  Term t{k, g.chance(0.5) ? 1.0 : -1.0, a, shift - q.x0[i]};
  int where = g.in(0, 2);
  if (how == 6) where = 0;  // constraints come with a multiplier that may be 0 or tiny
  if (where == 0 || (where == 1 && q.ce.empty()) || (where == 2 && q.ci.empty())) q.f.t.push_back(t), where = 0;
  else (where == 1 ? q.ce : q.ci)[0].t.push_back(t);
  auto b = build(g, q);
  auto o = quiet();
  o.max_iterations = 60;
  auto st = b->p.solve(o);
  R.count(bad ? "nonfinite starts" : "finite starts near singularities");
  if (how == 6) R.count("starts where only the Hessian is not finite");
  R.nontrivial(hash_str(q.text()));
  VF_CHECK((st == ExitStatus::NONFINITE_INITIAL_GUESS) == bad, bad ? "nonfinite missed" : "nonfinite claimed", "%s, start %s (in %s): %s", status_name(st), bad ? "not finite" : "finite",
           where == 0 ? "cost" : where == 1 ? "equality" : "inequality", q.text().c_str());
  if (bad) VF_CHECK(same_bits(b->get(), q.x0), "values changed", "variables changed although the start is not finite");
}

static void s03_nothing(Rng& g) {
  slp::Problem<double> p;
  int n = g.in(0, 4);
  std::vector<PV> x;
  DVec x0(n);
  for (int i = 0; i < n; ++i) {
    x.push_back(p.decision_variable());
    x0[i] = g.normal();
    x.back().set_value(x0[i]);
  }
  int how = g.in(0, 3);
  double c = std::round(g.normal() * 4) / 4;
  bool violated = false;
  if (how & 1) p.minimize(PV{c});
  if (how & 2) {
    int m = g.in(1, 3);
    for (int j = 0; j < m; ++j) {
      double v = g.chance(0.6) ? 0 : std::round(g.normal() * 4) / 4;
      if (g.chance(0.5)) { p.subject_to(PV{v} == PV{0.0}); violated |= v != 0; }
      else { p.subject_to(PV{v} >= PV{0.0}); violated |= v < 0; }
    }
  }
  auto o = quiet();
  if (g.chance(0.3)) o.max_iterations = g.in(0, 2);
  auto st = p.solve(o);
  R.count(violated ? "constant problems violated" : "constant problems");
  R.nontrivial(mix(g.next()));
  VF_CHECK((st == ExitStatus::SUCCESS) == !violated, "nothing to solve", "%s for a problem of constants (%s)", status_name(st), violated ? "violated" : "satisfied");
  if (violated) VF_CHECK(st == ExitStatus::GLOBALLY_INFEASIBLE, "nothing to solve", "%s for violated constants", status_name(st));
  for (int i = 0; i < n; ++i) VF_CHECK(x[i].value() == x0[i], "values changed", "variable changed");
}

#endif

// -------------------------------------------------------------------- S04
#if HAS(4)
static void s04_stop(Rng& g) {
  Prob q = gen_busy(g);
  auto o = quiet();
  o.max_iterations = 60;
  auto b = build(g, q);
  Trace full = run_traced(*b, o);
  int K = full.x.size();
  if (K == 0) return;
  count_solver(q);
  bool restored = false;
  for (auto& x : full.x) restored |= x.size() != q.n;
  if (restored) R.count("traces through feasibility restoration");
  R.count("callbacks traced", K);
  for (int k = 1; k < K; ++k) {
    bool entering = full.x[k].size() != q.n && full.x[k - 1].size() == q.n;
    VF_CHECK(full.it[k] == full.it[k - 1] + 1 || (entering && full.it[k] == full.it[k - 1]), "iteration number", "callback %d shows iteration %d after %d: %s", k, full.it[k], full.it[k - 1], q.text().c_str());
  }
  VF_CHECK(full.it[0] == 0, "iteration number", "the first callback shows iteration %d", full.it[0]);
  R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  // stop at a chosen callback call, from a chosen one of several callbacks
  int tries = std::min(K, 4);
  for (int rep = 0; rep < tries; ++rep) {
    int at = rep == 0 ? K - 1 : g.in(0, K - 1);
    b->set(q.x0);
    b->p.clear_callbacks();
    int nc = g.in(1, 4), who = g.in(0, nc - 1);
    std::vector<std::pair<int, int>> log;  // (callback, call number)
    int calls = 0;
    DVec stopped;
    for (int c = 0; c < nc; ++c) {
      if (c == who) {
        b->p.add_callback([&, c](const Info& i) -> bool {
          log.emplace_back(c, calls);
          if (calls == at) {
            stopped = i.x;
            return true;
          }
          return false;
        });
      } else if (g.chance(0.5)) {
        b->p.add_callback([&, c](const Info&) { log.emplace_back(c, calls); });
      } else {
        b->p.add_callback([&, c](const Info&) -> bool {
          log.emplace_back(c, calls);
          return false;
        });
      }
    }
    // a last callback counts calls: reached only when no one stopped
    b->p.add_callback([&](const Info&) { ++calls; });
    auto st = b->p.solve(o);
    R.count("stops requested");
    if (full.x[at].size() != q.n) R.count("stops requested during feasibility restoration");
    VF_CHECK(st == ExitStatus::CALLBACK_REQUESTED_STOP, "stop ignored", "%s although a callback asked to stop at call %d of %d (iteration %d, %s): %s", status_name(st), at, K, full.it[at],
             full.x[at].size() != q.n ? "restoration" : "normal", q.text().c_str());
    VF_CHECK(calls == at, "stop ignored", "callbacks went on after the request: %d calls, asked at %d", calls, at);
    // order
    size_t k = 0;
    for (int call = 0; call <= at; ++call)
      for (int c = 0; c < (call == at ? who + 1 : nc); ++c, ++k)
        VF_CHECK(k < log.size() && log[k] == std::make_pair(c, call), "callback order", "call %zu is callback %d of round %d", k, k < log.size() ? log[k].first : -1, call);
    VF_CHECK(k == log.size(), "callback order", "%zu calls instead of %zu", log.size(), k);
    VF_CHECK(same_bits(stopped, full.x[at]), "iterate differs", "iterate at the stop differs from the undisturbed run's");
    DVec want = stopped.head(q.n);
    VF_CHECK(same_bits(b->get(), want), "stop solution", "after a stop at call %d the variables hold %s, not the iterate %s (%s): %s", at, vec(b->get()).c_str(), vec(want).c_str(),
             full.x[at].size() != q.n ? "restoration" : "normal", q.text().c_str());
  }
  b->p.clear_callbacks();
}

static void s04_limits(Rng& g) {
  Prob q = gen_busy(g);
  auto o = quiet();
  o.max_iterations = 80;
  auto b = build(g, q);
  Trace full = run_traced(*b, o);
  int last = full.it.empty() ? -1 : full.it.back();
  R.nontrivial(hash_str(q.text()));
  for (int rep = 0; rep < 3; ++rep) {
    int N = g.in(1, std::min(std::max(1, last + 2), o.max_iterations));
    auto o2 = o;
    o2.max_iterations = N;
    b->set(q.x0);
    Trace t = run_traced(*b, o2);
    R.count("iteration limits tried");
    int top = t.it.empty() ? -1 : t.it.back();
    VF_CHECK(top < N, "limit exceeded", "iteration %d ran with max_iterations=%d: %s", top, N, q.text().c_str());
    // the same iterates as the longer run, up to the limit
    for (size_t k = 0; k < t.x.size(); ++k)
      VF_CHECK(k < full.x.size() && same_bits(t.x[k], full.x[k]), "limit changes iterates", "iterate %zu depends on max_iterations=%d: %s", k, N, q.text().c_str());
    bool in_rest = !t.x.empty() && t.x.back().size() != q.n;
    if (N <= last) {
      R.count("limits hit");
      // where in the long run iteration number N first shows
      size_t k = 0;
      while (k < full.it.size() && full.it[k] != N) ++k;
      if (!in_rest) {
        VF_CHECK(t.st == ExitStatus::MAX_ITERATIONS_EXCEEDED, "limit not reported", "%s with max_iterations=%d where the long run goes to %d: %s", status_name(t.st), N, last, q.text().c_str());
        if (full.x[k].size() == q.n) VF_CHECK(same_bits(t.final, full.x[k]), "limit solution", "variables do not hold iterate %d after that limit: %s", N, q.text().c_str());
      } else {
        VF_CHECK(t.st != ExitStatus::SUCCESS, "limit not reported", "success with max_iterations=%d, long run goes to %d", N, last);
        DVec want = full.x[k].head(q.n);
        if (full.x[k].size() != q.n) VF_CHECK(same_bits(t.final, want), "limit solution", "variables do not hold the restoration iterate %d after that limit: %s", N, q.text().c_str());
      }
    } else if (N > last + 1) {
      VF_CHECK(t.st == full.st, "limit changes status", "%s with max_iterations=%d, %s with %d although the run ends at iteration %d", status_name(t.st), N, status_name(full.st), o.max_iterations, last);
      VF_CHECK(same_bits(t.final, full.final), "limit changes result", "result depends on an iteration limit that is not reached");
    }
  }
  // no time at all
  if (full.x.size() > 1) {
    b->set(q.x0);
    auto o3 = o;
    o3.timeout = std::chrono::duration<double>(0);
    Trace t = run_traced(*b, o3);
    R.count("zero time limits");
    bool rest1 = full.x.size() > 1 && full.x[1].size() != q.n;
    if (full.it.back() > 0 && !rest1) {
      VF_CHECK(t.st == ExitStatus::TIMEOUT, "timeout not reported", "%s with no time: %s", status_name(t.st), q.text().c_str());
      VF_CHECK(t.x.size() == 1 && same_bits(t.final, full.x[1]), "timeout solution", "not the iterate after the first iteration");
    } else {
      VF_CHECK(t.st != ExitStatus::SUCCESS, "timeout not reported", "success with no time although the undisturbed run takes longer");
    }
    auto o4 = o;
    o4.timeout = std::chrono::duration<double>(1e9);
    b->set(q.x0);
    Trace u = run_traced(*b, o4);
    VF_CHECK(u.st == full.st && same_bits(u.final, full.final), "timeout changes result", "a time limit that is not reached changes the result");
  }
}

/// Time runs out while a callback runs: the iteration is finished, no other
/// one is begun.
static void s04_timeout(Rng& g) {
  Prob q = gen_busy(g);
  auto o = quiet();
  o.max_iterations = 60;
  auto b = build(g, q);
  Trace full = run_traced(*b, o);
  int K = full.x.size();
  if (K < 2) return;
  int at = g.in(0, K - 2);
  for (int j = 0; j < K - 1; ++j)  // in restoration, if there is one
    if (full.x[j].size() != q.n && g.chance(0.3)) { at = j; break; }
  auto t0 = std::chrono::steady_clock::now();
  auto o2 = o;
  const double limit = 0.006;
  o2.timeout = std::chrono::duration<double>(limit);
  int calls = 0, spun = -1;
  b->set(q.x0);
  b->p.clear_callbacks();
  bool differs = false;
  b->p.add_callback([&](const Info& i) {
    int c = calls++;
    differs |= c >= K || !same_bits(i.x, full.x[c]);
    if (c != at) return;
    // the solver's clock started after t0
    spun = c;
    auto t1 = std::chrono::steady_clock::now();
    while (std::chrono::steady_clock::now() - t1 < std::chrono::duration<double>(limit + 0.001)) {}
  });
  auto st = b->p.solve(o2);
  (void)t0;
  b->p.clear_callbacks();
  VF_CHECK(!differs, "timeout changes iterates", "iterates differ from those without a time limit: %s", q.text().c_str());
  R.nontrivial(hash_str(q.text(), at));
  if (calls == 0) return;
  auto rest = [&](int c) { return c < K && full.x[c].size() != q.n; };
  bool entering = !rest(at) && rest(at + 1);
  if (spun < 0) {  // the machine was slow
    R.count("out of time before");
  } else {
    R.count(rest(at) ? "out of time in restoration" : "out of time");
    VF_CHECK(calls == at + 1 || (entering && calls == at + 2), "goes on after timeout", "%d callbacks although time was up in callback %d of %d (%s): %s", calls, at, K, rest(at) ? "restoration" : "normal", q.text().c_str());
  }
  bool in = rest(calls - 1);
  if (calls >= K) return;
  if (!in) {
    if (!rest(calls)) VF_CHECK(st == ExitStatus::TIMEOUT, "timeout not reported", "%s although time was up: %s", status_name(st), q.text().c_str());
    if (!rest(calls)) VF_CHECK(same_bits(b->get(), full.x[calls]), "timeout solution", "not the iterate reached when time was up: %s", q.text().c_str());
  } else {
    VF_CHECK(st != ExitStatus::SUCCESS, "timeout not reported", "success although time was up in restoration");
    DVec want = full.x[calls].head(q.n);
    if (rest(calls)) VF_CHECK(same_bits(b->get(), want), "timeout solution", "not the restoration iterate reached when time was up: %s", q.text().c_str());
  }
}

/// Registration, persistence and clearing over several solves.
static void s04_registration(Rng& g) {
  Prob q = gen_convex(g, 4, false).q;
  auto o = quiet();
  auto b = build(g, q);
  std::vector<int> plain, persistent;  // ids in registration order
  int next_id = 0;
  std::vector<int> log;
  auto add = [&] {
    int id = next_id++, how = g.in(0, 3);
    if (how == 0) b->p.add_callback([&log, id](const Info&) { log.push_back(id); }), plain.push_back(id);
    else if (how == 1) b->p.add_callback([&log, id](const Info&) -> bool { log.push_back(id); return false; }), plain.push_back(id);
    else if (how == 2) {
      std::function<bool(const Info&)> f = [&log, id](const Info&) { log.push_back(id); return false; };
      b->p.add_callback(f);
      plain.push_back(id);
    } else b->p.add_persistent_callback([&log, id](const Info&) -> bool { log.push_back(id); return false; }), persistent.push_back(id);
  };
  int rounds = g.in(1, 4);
  for (int r = 0; r < rounds; ++r) {
    for (int k = g.in(0, 3); k > 0; --k) add();
    if (g.chance(0.3)) b->p.clear_callbacks(), plain.clear();
    for (int k = g.in(0, 2); k > 0; --k) add();
    b->set(q.x0);
    log.clear();
    b->p.solve(o);
    std::vector<int> want = plain;
    want.insert(want.end(), persistent.begin(), persistent.end());
    R.count("solves with registered callbacks");
    if (want.empty()) {
      VF_CHECK(log.empty(), "callback order", "cleared callbacks were called");
      continue;
    }
    R.nontrivial(hash_str(fmt("%zu %zu", plain.size(), persistent.size()), log.size()));
    VF_CHECK(log.size() % want.size() == 0, "callback order", "%zu calls of %zu callbacks", log.size(), want.size());
    for (size_t i = 0; i < log.size(); ++i)
      VF_CHECK(log[i] == want[i % want.size()], "callback order", "call %zu is callback %d, expected %d", i, log[i], want[i % want.size()]);
  }
}

#endif

// -------------------------------------------------------------------- S05
#if HAS(5)
struct ScaleGuess {
  LD lo = 0, hi = 1e300L;  // interval of the factor consistent with all observations
  bool add(LD got, LD want, LD err) {  // got = k * (want +- err), up to rounding
    if (std::fabs(want) <= 1e3L * err) return true;  // says nothing
    if (want < 0) want = -want, got = -got;
    LD r = 1e-10L * std::fabs(got) + 1e-200L;
    lo = std::max(lo, (got - r) / (want + err));
    hi = std::min(hi, (got + r) / (want - err));
    return lo <= hi && hi > 0;
  }
  bool sharp() const { return hi < 1e299L && hi - lo <= 1e-5L * hi; }
  LD mid() const { return (lo + hi) / 2; }
};

struct Snap {
  int it;
  DVec x, s, y, z, g;
  Eigen::MatrixXd H, Ae, Ai;
  int entry = -1;  // restoration this belongs to, with its starting point
  DVec xr{};
};

static void s05_info(Rng& g) {
  Prob q = g.chance(0.3) ? gen_convex(g, 5).q : gen_busy(g);
  auto o = quiet();
  o.max_iterations = 60;
  auto b = build(g, q, true);
  int n = q.n, me = q.ce.size(), mi = q.ci.size();
  std::vector<ScaleGuess> ke(me), ki(mi);
  ScaleGuess kf;
  std::string bad, key;
  int seen = 0, hess = 0;
  auto fail = [&](const char* k, std::string s) { if (bad.empty()) key = k, bad = s; };
  std::vector<Snap> snaps, rest;
  int entries = 0;
  bool inside = false;
  DVec xr;
  // the iterate shown last: restoration takes it over and hands it back
  struct Last {
    DVec x, s;
    int it = -1;
  } last;
  struct Back {
    DVec x0, s0, x1, s1, y, z, g;
    Eigen::MatrixXd Ae, Ai;
  };
  std::vector<Back> backs;
  DVec ex, es;  // at the start of restoration
  b->p.add_callback([&](const Info& i) {
    if (!bad.empty()) return;
    if (i.x.size() != n) {  // feasibility restoration's own problem
      R.count("restoration iterations seen");
      int N = n + 2 * me + 2 * mi, M = 2 * me + 3 * mi;
      if (!inside) {
        ++entries;
        if (i.x.size() >= n) xr = i.x.head(n);
        ex = last.x, es = last.s;
        if (i.x.size() == N && i.s.size() == M) {
          R.count("restorations entered");
          if (!same_bits(DVec(i.x.head(n)), ex)) fail("restoration start", fmt("restoration starts from %s, the iterate it interrupts is %s", vec(DVec(i.x.head(n))).c_str(), vec(ex).c_str()));
          if (!same_bits(DVec(i.s.head(mi)), es)) fail("restoration start", fmt("restoration starts with slacks %s, the iterate it interrupts has %s", vec(DVec(i.s.head(mi))).c_str(), vec(es).c_str()));
          if (i.iteration != last.it) fail("restoration start", fmt("iteration %d after %d", i.iteration, last.it));
        }
      }
      inside = true;
      if (i.x.size() == N && i.s.size() == M) last = {i.x.head(n), i.s.head(mi), i.iteration};
      if (i.x.size() != N || i.s.size() != M || i.z.size() != M || i.y.size() != me) { fail("dimensions", fmt("in restoration: x %ld s %ld z %ld y %ld for %d equalities, %d inequalities", i.x.size(), i.s.size(), i.z.size(), i.y.size(), me, mi)); return; }
      if (i.g.size() != N || i.H.rows() != N || i.H.cols() != N || (me && (i.A_e.rows() != me || i.A_e.cols() != N)) || i.A_i.rows() != M || i.A_i.cols() != N) { fail("dimensions", "derivative dimensions in restoration"); return; }
      for (int j = 0; j < M; ++j) {
        if (!(i.s[j] > 0) || !std::isfinite(i.s[j])) fail("positivity", fmt("slack %d is %g in restoration", j, i.s[j]));
        if (!(i.z[j] > 0) || !std::isfinite(i.z[j])) fail("positivity", fmt("inequality multiplier %d is %g in restoration", j, i.z[j]));
      }
      if (!i.x.allFinite() || i.x.head(n).cwiseAbs().maxCoeff() > 100) return;
      rest.push_back({i.iteration, i.x, i.s, i.y, i.z, Eigen::VectorXd(i.g), Eigen::MatrixXd(i.H), Eigen::MatrixXd(i.A_e), Eigen::MatrixXd(i.A_i), entries, xr});
      return;
    }
    if (inside && i.s.size() == mi && i.x.size() == n && i.y.size() == me && i.z.size() == mi) {
      R.count("restorations left");
      if (!same_bits(i.x, last.x)) fail("restoration end", fmt("goes on at %s, restoration ended at %s", vec(i.x).c_str(), vec(last.x).c_str()));
      if (!same_bits(i.s, last.s)) fail("restoration end", fmt("goes on with slacks %s, restoration ended with %s", vec(i.s).c_str(), vec(last.s).c_str()));
      if (i.x.allFinite() && i.x.cwiseAbs().maxCoeff() < 100 && ex.allFinite() && ex.cwiseAbs().maxCoeff() < 100) backs.push_back({ex, es, i.x, i.s, i.y, i.z, Eigen::VectorXd(i.g), Eigen::MatrixXd(i.A_e), Eigen::MatrixXd(i.A_i)});
    }
    if (i.s.size() == mi && i.x.size() == n) last = {i.x, i.s, i.iteration};
    inside = false;
    ++seen;
    int it = i.iteration;
    if (i.s.size() != mi || i.z.size() != mi || i.y.size() != me) { fail("dimensions", fmt("s %ld z %ld y %ld for %d equalities, %d inequalities", i.s.size(), i.z.size(), i.y.size(), me, mi)); return; }
    if (i.g.size() != n || i.H.rows() != n || i.H.cols() != n || (me && (i.A_e.rows() != me || i.A_e.cols() != n)) || (mi && (i.A_i.rows() != mi || i.A_i.cols() != n))) { fail("dimensions", "derivative dimensions"); return; }
    for (int j = 0; j < mi; ++j) {
      if (!(i.s[j] > 0) || !std::isfinite(i.s[j])) fail("positivity", fmt("slack %d is %g in iteration %d", j, i.s[j], it));
      if (!(i.z[j] > 0) || !std::isfinite(i.z[j])) fail("positivity", fmt("inequality multiplier %d is %g in iteration %d", j, i.z[j], it));
    }
    if (it == 0 && !same_bits(i.x, q.x0)) fail("start", "the first iterate is not the starting point");
    DVec x = i.x;
    if (!x.allFinite() || x.cwiseAbs().maxCoeff() > 100) return;
    snaps.push_back({it, i.x, i.s, i.y, i.z, Eigen::VectorXd(i.g), Eigen::MatrixXd(i.H), Eigen::MatrixXd(i.A_e), Eigen::MatrixXd(i.A_i)});
  });
  auto st = b->p.solve(o);
  // Each function comes with one positive factor, the same all along
  const LD E = 1e-12L;
  auto row_factor = [&](ScaleGuess& k, const Eigen::RowVectorXd& got, const Fn::Out& o, const char* what, int j, int it) {
    for (int i = 0; i < n; ++i)
      if (!k.add(got[i], o.g[i], E * o.gsize)) {
        fail(what, fmt("%s %d entry %d is %.12g where the derivative is %.12Lg: no single positive factor fits (factor so far in [%.9Lg, %.9Lg], iteration %d)", what, j, i, got[i], o.g[i], k.lo, k.hi, it));
        return;
      }
  };
  auto row_matches = [&](const ScaleGuess& k, const Eigen::RowVectorXd& got, const Fn::Out& o, const char* what, int j, int it) {
    for (int i = 0; i < n; ++i)
      if (!(std::fabs(got[i] - k.mid() * o.g[i]) <= (k.hi - k.lo) * std::fabs(o.g[i]) + 1e-9L * std::fabs(got[i]) + 2 * k.hi * E * o.gsize + 1e-200L)) {
        fail(what, fmt("%s %d entry %d is %.12g where the derivative is %.12Lg (factor %.9Lg, iteration %d)", what, j, i, got[i], o.g[i], k.mid(), it));
        return;
      }
  };
  for (auto& t : snaps) {
    if (!bad.empty()) break;
    if (q.has_f) row_factor(kf, t.g.transpose(), q.f.eval(t.x, false), "cost gradient", 0, t.it);
    for (int j = 0; j < me; ++j) row_factor(ke[j], t.Ae.row(j), q.ce[j].eval(t.x, false), "equality Jacobian row", j, t.it);
    for (int j = 0; j < mi; ++j) row_factor(ki[j], t.Ai.row(j), q.ci[j].eval(t.x, false), "inequality Jacobian row", j, t.it);
  }
  for (auto& t : snaps) {
    if (!bad.empty()) break;
    bool known = true;
    LMat L = LMat::Zero(n, n), S = LMat::Zero(n, n);
    LD tails = 0;
    auto take = [&](const Fn& f, const ScaleGuess& k, const Eigen::RowVectorXd& row, LD mult, const char* what, int j) {
      auto c = f.eval(t.x);
      if (f.huge(t.x)) {
        known = false;
        return;
      }
      if (!k.sharp()) {
        for (auto& term : f.t) known &= term.k == P_LIN || term.k == P_CONST;
        R.count("factors not determined");
        return;
      }
      row_matches(k, row, c, what, j, t.it);
      L += mult * k.mid() * c.H;
      for (auto& term : f.t) {
        auto c1 = Fn{{term}}.eval(t.x);
        S += std::fabs(mult * k.mid()) * c1.H.cwiseAbs();
        tails += 1e-12L * std::fabs(mult * k.mid()) * c1.gsize * 4;
      }
    };
    if (q.has_f) take(q.f, kf, t.g.transpose(), 1, "cost gradient", 0);
    else if (t.g.cwiseAbs().maxCoeff() != 0) fail("cost gradient", "nonzero without a cost function");
    for (int j = 0; j < me; ++j) take(q.ce[j], ke[j], t.Ae.row(j), -(LD)t.y[j], "equality Jacobian row", j);
    for (int j = 0; j < mi; ++j) take(q.ci[j], ki[j], t.Ai.row(j), -(LD)t.z[j], "inequality Jacobian row", j);
    if (!bad.empty() || !known) continue;
    ++hess;
    LD big = S.cwiseAbs().maxCoeff();
    for (int r = 0; r < n && bad.empty(); ++r)
      for (int c = 0; c <= r; ++c)
        if (!(std::fabs(t.H(r, c) - L(r, c)) <= 2e-5L * S(r, c) + 1e-9L * big + tails + 1e-200L)) {
          if (getenv("VERIF_VERBOSE")) { for (int j = 0; j < me; ++j) fprintf(stderr, "E%d y %.6g k [%.12Lg %.12Lg]\n", j, t.y[j], ke[j].lo, ke[j].hi); for (int j = 0; j < mi; ++j) fprintf(stderr, "I%d z %.6g k [%.12Lg %.12Lg]\n", j, t.z[j], ki[j].lo, ki[j].hi); fprintf(stderr, "S %Lg big %Lg kf %.12Lg %.12Lg\n", S(r, c), big, kf.lo, kf.hi); }
          fail("Lagrangian Hessian", fmt("entry (%d,%d) is %.12g, second derivative of the Lagrangian is %.12Lg (iteration %d)", r, c, t.H(r, c), L(r, c), t.it));
          break;
        }
  }
  // Feasibility restoration: least sum of p and n plus a distance to the
  // starting point, with c_e(x) - p + n = 0, c_i(x) - p + n >= 0, p, n >= 0
  ScaleGuess rho, zeta;
  int entry = -1;
  for (auto& t : rest) {
    if (!bad.empty()) break;
    if (t.entry != entry) zeta = ScaleGuess{}, entry = t.entry;
    int N = n + 2 * me + 2 * mi;
    DVec x = t.x.head(n);
    LVec D(n);
    for (int i = 0; i < n; ++i) D[i] = std::min(1.0L, 1 / ((LD)t.xr[i] * t.xr[i]));
    for (int i = 0; i < n; ++i) {
      LD d = D[i] * ((LD)x[i] - t.xr[i]);
      if (d == 0) {
        if (t.g[i] != 0) fail("restoration cost gradient", fmt("entry %d is %g where x has not moved", i, t.g[i]));
      } else if (!zeta.add(t.g[i], d, 0)) {
        fail("restoration cost gradient", fmt("entry %d is %.12g for a scaled distance of %.12Lg (weight so far in [%.9Lg, %.9Lg], iteration %d)", i, t.g[i], d, zeta.lo, zeta.hi, t.it));
      }
    }
    for (int i = n; i < N; ++i)
      if (!rho.add(t.g[i], 1, 0)) fail("restoration cost gradient", fmt("entry %d is %.12g (iteration %d)", i, t.g[i], t.it));
    // constraints
    bool known = true;
    LMat L = LMat::Zero(n, n), S = LMat::Zero(n, n);
    LD tails = 0;
    auto rows = [&](const Fn& f, ScaleGuess& k, const Eigen::RowVectorXd& row, int p, int m, int j, LD mult, const char* what) {
      auto c = f.eval(x);
      if (f.huge(x)) {
        known = false;
        return;
      }
      row_factor(k, row.head(n), c, what, j, t.it);
      for (int i = n; i < N; ++i) {
        double want = i == p + j ? -1 : i == p + m + j ? 1 : 0;
        if (row[i] != want) fail(what, fmt("restoration: row %d has %g in column %d, expected %g (iteration %d)", j, row[i], i, want, t.it));
      }
      if (!k.sharp()) {
        for (auto& term : f.t) known &= term.k == P_LIN || term.k == P_CONST;
        return;
      }
      row_matches(k, row.head(n), c, what, j, t.it);
      L += mult * k.mid() * c.H;
      for (auto& term : f.t) {
        auto c1 = Fn{{term}}.eval(x);
        S += std::fabs(mult * k.mid()) * c1.H.cwiseAbs();
        tails += 1e-12L * std::fabs(mult * k.mid()) * c1.gsize * 4;
      }
    };
    for (int j = 0; j < me; ++j) rows(q.ce[j], ke[j], t.Ae.row(j), n, me, j, -(LD)t.y[j], "restoration equality Jacobian row");
    for (int j = 0; j < mi; ++j) rows(q.ci[j], ki[j], t.Ai.row(j), n + 2 * me, mi, j, -(LD)t.z[j], "restoration inequality Jacobian row");
    for (int j = 0; j < 2 * me + 2 * mi && bad.empty(); ++j)
      for (int i = 0; i < N; ++i)
        if (t.Ai(mi + j, i) != (i == n + j ? 1 : 0)) fail("restoration bounds", fmt("bound %d has %g in column %d", j, t.Ai(mi + j, i), i));
    if (!bad.empty() || !known || t.xr.cwiseAbs().minCoeff() < 1e-150) continue;
    // Hessian of the Lagrangian; the weight of the distance from its diagonal,
    // the same in every variable and iteration of this restoration
    R.count("restoration Hessians checked");
    LD big = S.cwiseAbs().maxCoeff();
    for (int r = 0; r < N && bad.empty(); ++r)
      for (int c = 0; c <= r; ++c) {
        if (r >= n) {
          if (t.H(r, c) != 0) fail("restoration Hessian", fmt("entry (%d,%d) of p or n is %g", r, c, t.H(r, c)));
          continue;
        }
        LD err = 2e-5L * S(r, c) + 1e-9L * big + tails + 1e-200L, d = t.H(r, c) - L(r, c);
        if (r != c ? !(std::fabs(d) <= err) : false) {
          fail("restoration Hessian", fmt("entry (%d,%d) is %.12g, second derivative of the Lagrangian is %.12Lg (error allowed %.3Lg, iteration %d)", r, c, t.H(r, c), L(r, c), err, t.it));
          if (getenv("VERIF_VERBOSE")) fprintf(stderr, "S %Lg big %Lg tails %Lg x %s y %s\n", S(r, c), big, tails, vec(x).c_str(), vec(t.y).c_str());
        }
        if (r == c) {
          LD e2 = err + 1e-9L * std::fabs(d);
          zeta.lo = std::max(zeta.lo, (d - e2) / D[r] * (1 - 1e-9L));
          zeta.hi = std::min(zeta.hi, (d + e2) / D[r] * (1 + 1e-9L));
          if (!(zeta.lo <= zeta.hi && zeta.hi > 0))
            fail("restoration Hessian", fmt("entry (%d,%d) is %.12g; the constraints' part is %.12Lg and the weight of the distance [%.9Lg, %.9Lg] (iteration %d)", r, c, t.H(r, c), L(r, c), zeta.lo, zeta.hi, t.it));
        }
      }
  }
  // Restoration ends as soon as the violation is down by a tenth, with
  // multipliers that fit the cost gradient best
  for (auto& t : backs) {
    if (!bad.empty()) break;
    LD v0 = 0, v1 = 0, e0 = 0, e1 = 0;
    auto violation = [&](const DVec& x, const DVec& s, LD& v, LD& err) {
      for (int j = 0; j < me + mi; ++j) {
        auto& f = j < me ? q.ce[j] : q.ci[j - me];
        auto& k = j < me ? ke[j] : ki[j - me];
        if (!k.sharp() || f.huge(x)) return false;
        auto o = f.eval(x, false);
        LD r = k.mid() * o.v - (j < me ? 0 : (LD)s[j - me]);
        v += std::fabs(r);
        err += (k.hi - k.lo) * std::fabs(o.v) + k.hi * 1e-12L * o.size;
      }
      return true;
    };
    if (violation(t.x0, t.s0, v0, e0) && violation(t.x1, t.s1, v1, e1)) {
      R.count("restoration reductions checked");
      R.maximum("violation left by restoration / violation met", v1 / v0);
      if (!(v1 <= 0.9L * v0 + e0 + e1)) fail("restoration without reduction", fmt("violation %.12Lg after restoration, %.12Lg before", v1, v0));
    }
    DVec zs = t.z.cwiseProduct(t.s1);
    if (me && (!mi || (zs.minCoeff() > 1e-10 && zs.maxCoeff() < 0.9))) {
      LVec g = t.g.cast<LD>(), r = g - t.Ae.cast<LD>().transpose() * t.y.cast<LD>();
      LMat A = t.Ae.cast<LD>();
      LVec size = g.cwiseAbs() + A.cwiseAbs().transpose() * t.y.cast<LD>().cwiseAbs();
      if (mi) r -= t.Ai.cast<LD>().transpose() * t.z.cast<LD>(), size += t.Ai.cast<LD>().cwiseAbs().transpose() * t.z.cast<LD>().cwiseAbs();
      Eigen::JacobiSVD<Eigen::MatrixXd> svd(t.Ae);
      double cond = svd.singularValues()[0] / svd.singularValues().tail(1)[0];
      if (me <= n && cond < 1e3) {
        LVec p = A * r, q2 = A.cwiseAbs() * size;
        R.count("restored multipliers checked");
        for (int j = 0; j < me; ++j) {
          R.maximum("restored multiplier residual", std::fabs(p[j]) / (q2[j] + 1e-300L));
          if (!(std::fabs(p[j]) <= 1e-8L * q2.maxCoeff() + 1e-200L)) fail("restored multipliers", fmt("left-over gradient %.6Lg along equality %d (of %.6Lg): y %s", p[j], j, q2[j], vec(t.y).c_str()));
        }
      }
    }
  }
  R.count("iterations checked", seen);
  R.count("Hessians checked", hess);
  R.count(std::string("status ") + status_name(st));
  count_solver(q);
  if (seen) R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  VF_CHECK(bad.empty(), key, "%s: %s", bad.c_str(), q.text().c_str());
}

#endif

// -------------------------------------------------------------------- S06
#if HAS(6)
static void s06_feasible(Rng& g) {
  Prob q;
  Convex c;
  bool convex = g.chance(0.4);
  if (convex) {
    c = gen_convex(g, 5, g.chance(0.3));
    q = c.q;
  } else {
    q = gen_nonconvex(g, 5, g.chance(0.3));
  }
  if (q.ci.empty()) return;
  if (g.chance(0.6)) q.ce.clear();
  // a strictly feasible start
  bool ok = true;
  for (auto& f : q.ci) {
    auto v = f.eval(q.x0, false);
    double need = 0.05 * (1 + double(v.g.norm()));
    if (v.v < need) {
      if (g.chance(0.7) || convex) {
        f.t.push_back({P_CONST, need - (double)v.v + g.real(0, 1), {}, 0});
      } else {
        ok = false;
      }
    }
  }
  if (!ok) return;
  auto o = quiet();
  o.feasible_ipm = true;
  o.max_iterations = 100;
  auto b = build(g, q);
  std::string bad;
  int seen = 0, rest = 0;
  bool was_feasible = true;  // at the iterate before, if that was a normal one
  b->p.add_callback([&](const Info& i) {
    // Restoration gives up feasibility for the equality constraints' sake; so
    // judge steps from feasible iterates
    if (i.x.size() != q.n) { ++rest; was_feasible = false; return; }
    ++seen;
    if (!bad.empty()) return;
    if (!was_feasible) {
      was_feasible = true;
      for (auto& c : q.ci) {
        auto v = c.eval(i.x, false);
        was_feasible &= v.v > 1e-13L * v.size;
      }
      if (was_feasible) R.count("feasible again after restoration");
      return;
    }
    for (size_t j = 0; j < q.ci.size(); ++j) {
      auto v = q.ci[j].eval(i.x, false);
      if (!(v.v >= -1e-13L * v.size)) bad = fmt("iterate %d (%s) violates inequality %zu: %.3Lg%s", i.iteration, vec(i.x).c_str(), j, v.v, rest ? " after restoration" : "");
    }
  });
  auto st = b->p.solve(o);
  R.count(std::string("status ") + status_name(st));
  R.count("iterates checked", seen);
  R.count("restoration iterations", rest);
  R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  VF_CHECK(bad.empty(), "left the feasible region", "%s: %s", bad.c_str(), q.text().c_str());
  DVec x = b->get();
  if (!rest)
    for (size_t j = 0; j < q.ci.size(); ++j) {
      auto v = q.ci[j].eval(x, false);
      VF_CHECK(v.v >= -1e-13L * v.size - (st == ExitStatus::SUCCESS ? 1e-8L : 0), "final point infeasible", "final point (%s) violates inequality %zu: %.3Lg: %s", status_name(st), j, v.v, q.text().c_str());
    }
  if (st == ExitStatus::SUCCESS) {
    R.count("successes judged");
    judge_success(q, x, o.tolerance, regular_at(q, x, o.tolerance), "feasible mode");
  }
}

#endif

// -------------------------------------------------------------------- S07
#if HAS(7)
static bool same_trace(const Trace& a, const Trace& b, std::string& why) {
  if (a.st != b.st) return why = fmt("status %s then %s", status_name(a.st), status_name(b.st)), false;
  if (a.x.size() != b.x.size()) return why = fmt("%zu callbacks then %zu", a.x.size(), b.x.size()), false;
  for (size_t k = 0; k < a.x.size(); ++k)
    if (!same_bits(a.x[k], b.x[k]) || a.it[k] != b.it[k]) return why = fmt("iterate %zu differs", k), false;
  if (!same_bits(a.final, b.final)) return why = "final values differ", false;
  return true;
}

static void s07_repeat(Rng& g) {
  Prob q = gen_busy(g);
  auto o = quiet();
  o.max_iterations = 80;
  uint64_t form = g.next();
  auto mk = [&] { Rng f{form}; return build(f, q); };
  auto b = mk();
  Trace t0 = run_traced(*b, o);
  R.count("reference traces");
  R.count("callbacks traced", t0.x.size());
  if (t0.x.size() > 1) R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  std::string why;
  int reps = g.in(2, 4);
  std::unique_ptr<Built> other;
  for (int r = 0; r < reps; ++r) {
    int how = g.in(0, 8);
    auto o2 = o;
    Built* p = b.get();
    std::unique_ptr<Built> fresh;
    std::vector<std::unique_ptr<slp::Variable<double>>> junk;
    bool spy = false;
    const char* what = "repeated";
    switch (how) {
      case 0: break;
      case 1: what = "with diagnostics"; o2.diagnostics = true; break;
      case 2: what = "with sparsity files"; spy = true; break;
      case 3: what = "rebuilt"; fresh = mk(); p = fresh.get(); break;
      case 4: {  // another solve in between
        what = "after another solve";
        Prob q2 = gen_busy(g);
        other = build(g, q2);
        auto o3 = o;
        if (g.chance(0.3)) o3.diagnostics = true;
        o3.max_iterations = g.in(1, 20);
        other->p.solve(o3, g.chance(0.2));
        if (g.chance(0.5)) other.reset();
        break;
      }
      case 5: {  // churn expression memory, then rebuild
        what = "rebuilt after memory churn";
        int n = g.in(10, 400);
        for (int i = 0; i < n; ++i) {
          junk.push_back(std::make_unique<PV>(slp::sin(PV{g.normal()} * PV{}) ));
          if (g.chance(0.5) && !junk.empty()) std::swap(junk[g.in(0, junk.size() - 1)], junk.back()), junk.pop_back();
        }
        fresh = mk();
        p = fresh.get();
        break;
      }
      case 7: case 8: {  // memory comes filled with some byte
        what = "with memory filled";
        vf::memory_fill = g.pick(std::vector<int>{1, 0x55, 0xaa, 0xff, 0x40, 0xc0, 0x7f});
        if (g.chance(0.5)) fresh = mk(), p = fresh.get();
        break;
      }
      default:
        what = "with passive callbacks";
        break;
    }
    p->set(q.x0);
    Trace t;
    if (how == 6) {
      p->p.clear_callbacks();
      double sink = 0;
      for (int k = g.in(1, 3); k > 0; --k)
        p->p.add_callback([&](const Info& i) { sink += i.x.sum() + i.s.sum() + Eigen::MatrixXd(i.H).sum(); });
      p->p.add_callback([&](const Info& i) { t.x.push_back(i.x); t.it.push_back(i.iteration); });
      t.st = p->p.solve(o2);
      t.final = p->get();
      p->p.clear_callbacks();
    } else {
      t = run_traced(*p, o2, spy);
    }
    vf::memory_fill = 0x33;
    R.count(std::string("compared ") + what);
    VF_CHECK(same_trace(t0, t, why), std::string("not reproducible ") + what, "%s: %s: %s", what, why.c_str(), q.text().c_str());
  }
}

/// Parameters (variables that are not decision variables) and other starts.
/// Factorizations break down: still nothing depends on what memory held.
static void s07_breakdown(Rng& g) {
  Prob q;
  bool sparse = g.chance(0.6);  // the sparse factorization is used then
  q.n = sparse ? g.in(4, 14) : g.in(1, 5);
  auto dir = [&] {
    if (!sparse) return random_dir(g, q.n);
    std::vector<double> a(q.n, 0.0);
    a[g.in(0, q.n - 1)] = g.chance(0.5) ? 1 : -0.5;
    return a;
  };
  q.x0 = DVec(q.n);
  for (int i = 0; i < q.n; ++i) q.x0[i] = g.in(-8, 8) * 0.25;
  // stationary at the start but hugely concave in some directions
  int k = g.in(1, std::min(q.n, 5));
  for (int j = 0; j < k; ++j) {
    auto a = dir();
    q.f.t.push_back({P_SQ, -std::pow(10.0, g.in(8, 40)), a, -dot(a, q.x0)});
  }
  for (int j = g.in(0, 2); j > 0; --j) q.f.t.push_back({P_SQ, std::pow(10.0, g.in(0, 30)), dir(), g.real(-1, 1)});
  if (g.chance(0.3)) q.f.t.push_back({P_EXP, -1, dir(), g.real(-1, 1)});
  if (g.chance(0.8)) q.f.t.push_back({P_LIN, g.real(0.5, 50), dir(), 0});
  q.has_f = true;
  auto row = [&] { auto a = dir(); return Fn{{{g.chance(0.3) ? P_SIN : P_LIN, g.chance(0.2) ? 1e8 : 1, a, -dot(a, q.x0) + (g.chance(0.3) ? 1.0 : 0.0)}}}; };
  bool alone = g.chance(0.4);
  if (q.n > 1 && !alone) for (int j = g.in(0, 2); j > 0 && int(q.ce.size()) < q.n - 1; --j) q.ce.push_back(row());
  if (!alone && g.chance(0.4)) for (int j = g.in(1, 2); j > 0; --j) q.ci.push_back(row());
  auto o = quiet();
  o.max_iterations = 40;
  uint64_t form = g.next();
  auto mk = [&] { Rng f{form}; return build(f, q); };
  Trace t0;
  std::string why;
  for (int fill : {0x55, 0xaa, 0xc0}) {
    vf::memory_fill = fill;
    auto b = mk();
    Trace t = run_traced(*b, o);
    vf::memory_fill = 0x33;
    if (fill == 0x55) {
      t0 = t;
      R.count("breakdowns tried");
      R.count(std::string("status ") + status_name(t.st));
      R.nontrivial(hash_str(q.text()));
      if (t.st == ExitStatus::FACTORIZATION_FAILED && !t.x.empty())
        VF_CHECK(same_bits(t.final, DVec(t.x.back().head(q.n))), "breakdown solution", "variables do not hold the iterate whose factorization failed: %s", q.text().c_str());
    } else {
      VF_CHECK(same_trace(t0, t, why), "depends on uninitialized memory", "%s: %s", why.c_str(), q.text().c_str());
    }
  }
}

static void s07_params(Rng& g) {
  int n = g.in(1, 4), np = g.in(1, 3);
  struct Inst {
    slp::Problem<double> p;
    std::vector<PV> x, par, ext;
  };
  uint64_t form = g.next();
  int me = g.in(0, n), mi = g.in(0, 2);
  std::vector<double> par(np), x0(n);
  auto mk = [&](const std::vector<double>& par) {
    Rng f{form};
    auto b = std::make_unique<Inst>();
    for (int i = 0; i < n; ++i) b->x.push_back(b->p.decision_variable());
    for (int i = 0; i < np; ++i) {
      b->par.emplace_back();
      b->par.back().set_value(par[i]);
    }
    PV cost{0.0};
    for (int i = 0; i < n; ++i) {
      PV d = b->x[i] - b->par[f.in(0, np - 1)];
      cost += d * d * f.real(0.5, 2) + slp::pow(b->x[i], 4) * 0.1;
    }
    for (int k = f.in(0, 2); k > 0; --k) cost += slp::sin(b->x[f.in(0, n - 1)] * b->par[f.in(0, np - 1)]);
    b->p.minimize(cost);
    for (int j = 0; j < me; ++j) {
      PV e = b->x[j] * f.real(0.5, 2) + b->x[f.in(0, n - 1)] * f.real(-0.3, 0.3) - b->par[f.in(0, np - 1)] * f.real(-1, 1);
      b->p.subject_to(e == 0);
    }
    for (int j = 0; j < mi; ++j) {
      PV c = f.chance(0.5) ? PV{b->x[f.in(0, n - 1)] - b->par[f.in(0, np - 1)]} : PV{4 + b->par[f.in(0, np - 1)] * b->par[f.in(0, np - 1)] - b->x[f.in(0, n - 1)] * b->x[f.in(0, n - 1)]};
      b->p.subject_to(c >= 0);
    }
    return b;
  };
  auto draw = [&] {
    for (auto& v : par) v = std::round(g.normal() * 8) / 8;
    for (auto& v : x0) v = g.normal();
  };
  auto run = [&](Inst& b) {
    Trace t;
    for (int i = 0; i < n; ++i) b.x[i].set_value(x0[i]);
    b.p.clear_callbacks();
    b.p.add_callback([&](const Info& i) { t.x.push_back(i.x); t.it.push_back(i.iteration); });
    auto o = quiet();
    o.max_iterations = 80;
    t.st = b.p.solve(o);
    t.final = DVec(n);
    for (int i = 0; i < n; ++i) t.final[i] = b.x[i].value();
    b.p.clear_callbacks();
    return t;
  };
  draw();
  auto b = mk(par);
  int rounds = g.in(2, 4);
  for (int r = 0; r < rounds; ++r) {
    for (int i = 0; i < np; ++i) b->par[i].set_value(par[i]);
    Trace a = run(*b);
    auto fresh = mk(par);
    Trace c = run(*fresh);
    std::string why;
    R.count("parameter changes compared");
    if (a.x.size() > 1) R.nontrivial(g.next());
    VF_CHECK(same_trace(c, a, why), "stale after parameter change", "round %d: fresh problem against re-solved one: %s (n=%d me=%d mi=%d)", r, why.c_str(), n, me, mi);
    for (int i = 0; i < np; ++i) VF_CHECK(b->par[i].value() == par[i], "variable changed", "the solve changed a parameter");
    draw();
  }
}

#endif

// --------------------------------------------------- A04 (problem types)
#if HAS(104)
static void a04_problem(Rng& g) {
  using T = slp::ExpressionType;
  int n = g.in(1, 4);
  auto degree = [&](const Fn& f) {  // of what was written, by numeric second differences
    int d = 0;
    for (int rep = 0; rep < 4; ++rep) {
      DVec x(n), y(n);
      for (int i = 0; i < n; ++i) x[i] = g.normal(), y[i] = g.normal();
      auto a = f.eval(x), b = f.eval(y);
      if ((a.H - b.H).cwiseAbs().maxCoeff() > 1e-9L) d = std::max(d, 3);
      else if (a.H.cwiseAbs().maxCoeff() > 1e-9L) d = std::max(d, 2);
      else if (a.g.cwiseAbs().maxCoeff() > 1e-9L) d = std::max(d, 1);
    }
    return d;
  };
  auto fn = [&] {
    Fn f;
    int how = g.in(0, 3);
    for (int k = g.in(1, 3); k > 0; --k) {
      if (how == 0) f.t.push_back({P_CONST, g.normal(), {}, 0});
      else if (how == 1) f.t.push_back({P_LIN, g.normal(), random_dir(g, n), g.real(-1, 1)});
      else if (how == 2) f.t.push_back({g.chance(0.5) ? P_SQ : P_LIN, g.normal(), random_dir(g, n), g.real(-1, 1)});
      else f.t.push_back(any_term(g, n));
    }
    return f;
  };
  slp::Problem<double> p;
  std::vector<PV> x;
  for (int i = 0; i < n; ++i) x.push_back(p.decision_variable());
  for (auto& v : x) v.set_value(g.normal());
  VF_CHECK(p.cost_function_type() == T::NONE && p.equality_constraint_type() == T::NONE && p.inequality_constraint_type() == T::NONE, "empty problem type", "an empty problem has types");
  auto code = [](T t) { return t == T::NONE ? -1 : t == T::CONSTANT ? 0 : t == T::LINEAR ? 1 : t == T::QUADRATIC ? 2 : 3; };
  int df = -1, de = -1, di = -1;
  int steps = g.in(1, 6);
  for (int s = 0; s < steps; ++s) {
    Fn f = fn();
    int d = degree(f), how = g.in(0, 2);
    if (how == 0) {
      if (g.chance(0.5)) p.minimize(write_fn(g, f, x));
      else p.maximize(write_fn(g, f, x));
      df = d;
    } else if (how == 1) {
      p.subject_to(write_fn(g, f, x) == 0);
      de = std::max(de, d);
    } else {
      if (g.chance(0.5)) p.subject_to(write_fn(g, f, x) >= 0);
      else p.subject_to(write_fn(g, f, x) <= 1);
      di = std::max(di, d);
    }
    R.count("problem types compared", 3);
    R.nontrivial(hash_str(f.text()));
    VF_CHECK(code(p.cost_function_type()) >= df && (df < 0) == (code(p.cost_function_type()) < 0), "problem type understated", "cost labelled %d, degree %d: %s", code(p.cost_function_type()), df, f.text().c_str());
    VF_CHECK(code(p.equality_constraint_type()) >= de && (de < 0) == (code(p.equality_constraint_type()) < 0), "problem type understated", "equalities labelled %d, degree %d: %s", code(p.equality_constraint_type()), de, f.text().c_str());
    VF_CHECK(code(p.inequality_constraint_type()) >= di && (di < 0) == (code(p.inequality_constraint_type()) < 0), "problem type understated", "inequalities labelled %d, degree %d: %s", code(p.inequality_constraint_type()), di, f.text().c_str());
  }
}

#endif

int main(int argc, char** argv) {
  R.init(argc, argv);
#if HAS(1)
  if (R.prop == "S01") {
    R.cases("any", 6000, s01_any);
    R.cases("convex", 3000, s01_convex);
    R.cases("direct", 4000, s01_direct);
    R.cases("nan", 1000, s01_nan);
    return R.finish(), 0;
  }
#endif
#if HAS(2)
  if (R.prop == "S02") {
    R.cases("convex", 24000, s02_convex);
    s02_judge_failed();
    if (s02_total >= 200 && s02_stalled > s02_total / 50) R.fail("convex stalls", fmt("%ld of %ld well-posed convex problems end one step short of the optimum", s02_stalled, s02_total));
    R.cases("big", 900, s02_big);
    return R.finish(), 0;
  }
#endif
#if HAS(3)
  if (R.prop == "S03") {
    R.cases("infeasible", 4000, s03_infeasible);
    R.cases("feasible", 3000, s03_feasible);
    R.cases("dofs", 2000, s03_dofs);
    R.cases("nonfinite", 3000, s03_nonfinite);
    R.cases("nothing", 2000, s03_nothing);
    return R.finish(), 0;
  }
#endif
#if HAS(4)
  if (R.prop == "S04") {
    R.cases("stop", 2500, s04_stop);
    R.cases("limits", 2500, s04_limits);
    R.cases("timeout", 600, s04_timeout);
    R.cases("registration", 1500, s04_registration);
    return R.finish(), 0;
  }
#endif
#if HAS(5)
  if (R.prop == "S05") {
    R.cases("info", 6000, s05_info);
    return R.finish(), 0;
  }
#endif
#if HAS(6)
  if (R.prop == "S06") {
    R.cases("feasible", 6000, s06_feasible);
    return R.finish(), 0;
  }
#endif
#if HAS(7)
  if (R.prop == "S07") {
    R.cases("repeat", 2000, s07_repeat);
    R.cases("params", 2000, s07_params);
    R.cases("breakdown", 1500, s07_breakdown);
    return R.finish(), 0;
  }
#endif
#if HAS(104)
  if (R.prop == "A04") {
    R.cases("problem", 20000, a04_problem);
    return R.finish(), 0;
  }
#endif
  return 2;
}
