// S08: bounds; F01: sparsity files and texts.
#include "prob.hpp"

#include <filesystem>
#include <fstream>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/solver/util/bounds.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/util/spy.hpp>

#ifdef VF_ONLY
#define HAS(n) (VF_ONLY == (n))
#else
#define HAS(n) 1
#endif

using namespace vf;
using slp::ExitStatus;
using Info = slp::IterationInfo<double>;
static const double INF = std::numeric_limits<double>::infinity();

// ---------------------------------------------------------------- S08
#if HAS(1)
enum CKind { C_BOUND, C_TWO, C_NONLINEAR, C_CONSTANT, C_CANCEL, C_KINDS };

struct Con {
  CKind k;
  int var = -1;
  double a = 0, b = 0;  // a x + b >= 0, exactly
  bool exact = false;
};

/// Writes a x + b >= 0 in one of many ways.
static PV write_bound(Rng& g, PV x, double a, double b) {
  auto first = [](auto c) { return PV{c.constraints[0]}; };
  switch (g.in(0, 9)) {
    case 0: return first(a * x + b >= 0);
    case 1: return first(a * x >= -b);
    case 2: return first(-b <= x * a);
    case 3: return first(0 <= b + a * x);
    case 4: return first(b >= -a * x);
    case 5: return first(-(x * a) <= b);
    case 6: return first(a * x >= PV{-b});
    case 7: return first((a / 2) * x + b >= -(a / 2) * x);
    case 8: return first(x * a + 1 >= 1 - b);
    default: return first(x + b / 2 + (a - 1) * x >= -(b / 2));
  }
}

static void s08_bounds(Rng& g) {
  int n = g.in(1, 5), m = g.in(0, 12);
  bool exact = g.chance(0.6);
  std::vector<PV> x(n);
  std::vector<double> vals(n);
  for (int i = 0; i < n; ++i) vals[i] = g.chance(0.3) ? 0.0 : g.chance(0.2) ? 1e6 * g.normal() : g.normal(), x[i].set_value(vals[i]);
  gch::small_vector<PV> cons;
  std::vector<Con> spec;
  std::string t;
  for (int j = 0; j < m; ++j) {
    Con c;
    c.k = CKind(g.chance(0.7) ? 0 : g.in(0, C_KINDS - 1));
    c.var = g.in(0, n - 1);
    int o = n > 1 ? (c.var + g.in(1, n - 1)) % n : c.var;
    PV e;
    if (c.k == C_TWO && n == 1) c.k = C_BOUND;
    switch (c.k) {
      case C_BOUND:
        c.exact = exact;
        c.a = exact ? (g.chance(0.5) ? 1 : -1) * std::pow(2, g.in(-2, 3)) : std::pow(10, g.real(-2, 2)) * (g.chance(0.5) ? 1 : -1);
        c.b = exact ? g.in(-4, 4) : g.normal() * std::pow(10, g.real(-2, 2));
        if (g.chance(0.5)) c.b += exact ? 4 : 5 * std::fabs(c.a);
        e = write_bound(g, x[c.var], c.a, c.b);
        t += fmt("%.17g x%d + %.17g >= 0; ", c.a, c.var, c.b);
        break;
      case C_TWO: e = PV{(g.in(1, 3) * x[c.var] - g.in(1, 3) * x[o] >= g.normal()).constraints[0]}; t += "two variables; "; break;
      case C_NONLINEAR:
        switch (g.in(0, 5)) {
          case 0: e = PV{(x[c.var] * x[c.var] >= -3).constraints[0]}; break;
          case 1: e = PV{(slp::sin(x[c.var]) >= -3).constraints[0]}; break;
          case 2: e = PV{(x[c.var] * x[o] >= -3).constraints[0]}; break;
          case 3: e = PV{(slp::pow(x[c.var], 2) <= 50).constraints[0]}; break;
          case 4: e = PV{(slp::exp(x[c.var] / 1e7) >= 0.1).constraints[0]}; break;
          default: e = PV{(slp::abs(x[c.var]) <= 7).constraints[0]};
        }
        t += "nonlinear; ";
        break;
      case C_CONSTANT: e = PV{double(g.in(-2, 2))}; t += "constant; "; break;
      default: e = PV{((x[c.var] + x[c.var]) - 2 * x[c.var] >= g.in(-2, 2)).constraints[0]}; t += "cancelling; ";
    }
    cons.push_back(e);
    spec.push_back(c);
  }
  slp::VariableMatrix<double> cm(m, 1), xm(n, 1);
  for (int j = 0; j < m; ++j) cm[j] = cons[j];
  for (int i = 0; i < n; ++i) xm[i] = x[i];
  Eigen::SparseMatrix<double, Eigen::RowMajor> A(m, n);
  if (m) {
    slp::Jacobian<double> J{cm, xm};
    A = J.value();
  }
  gch::small_vector<PV> xs(x.begin(), x.end());
  auto r = slp::get_bounds<double>(std::span<PV>(xs.data(), n), std::span<PV>(cons.data(), m), A);
  VF_CHECK(r.bound_constraint_mask.size() == m && int(r.bounds.size()) == n, "sizes", "%d and %d for %d constraints, %d variables", int(r.bound_constraint_mask.size()), int(r.bounds.size()), m, n);
  for (int i = 0; i < n; ++i) VF_CHECK(x[i].value() == vals[i] && std::signbit(x[i].value()) == std::signbit(vals[i]), "value changed", "variable %d is %.17g instead of %.17g: %s", i, x[i].value(), vals[i], t.c_str());
  std::vector<double> lo(n, -INF), hi(n, INF), tol(n, 0.0);
  for (int j = 0; j < m; ++j) {
    auto& c = spec[j];
    bool isb = c.k == C_BOUND;
    VF_CHECK(r.bound_constraint_mask[j] == isb, isb ? "bound missed" : "not a bound", "constraint %d is marked %d: %s", j, int(r.bound_constraint_mask[j]), t.c_str());
    if (!isb) continue;
    double v = -c.b / c.a;
    (c.a > 0 ? lo : hi)[c.var] = c.a > 0 ? std::max(lo[c.var], v) : std::min(hi[c.var], v);
    if (!c.exact) tol[c.var] = std::max(tol[c.var], 1e-13 * (std::fabs(v) + 1 / std::fabs(c.a)));
    R.count("bounds recognised");
  }
  bool conflict = false, close_call = false;
  for (int i = 0; i < n; ++i) {
    auto [l, u] = r.bounds[i];
    VF_CHECK((l == lo[i] || std::fabs(l - lo[i]) <= tol[i]) && (u == hi[i] || std::fabs(u - hi[i]) <= tol[i]), "bounds", "variable %d has [%.17g, %.17g] instead of [%.17g, %.17g]: %s", i, l, u, lo[i], hi[i], t.c_str());
    conflict |= lo[i] > hi[i];
    close_call |= tol[i] > 0 && std::fabs(lo[i] - hi[i]) <= 2 * tol[i];
    if (lo[i] == hi[i]) R.count("touching bounds");
    R.count("bound pairs compared");
  }
  if (close_call) return;
  VF_CHECK(r.conflicting_bound_indices.empty() == !conflict, conflict ? "conflict missed" : "conflict claimed", "%zu conflicts reported: %s", r.conflicting_bound_indices.size(), t.c_str());
  for (auto [a, b] : r.conflicting_bound_indices) {
    VF_CHECK(a >= 0 && b >= 0 && a < m && b < m && spec[a].k == C_BOUND && spec[b].k == C_BOUND && spec[a].var == spec[b].var && spec[a].a > 0 && spec[b].a < 0 && -spec[a].b / spec[a].a > -spec[b].b / spec[b].a, "conflict pair", "constraints %d and %d do not contradict: %s", int(a), int(b), t.c_str());
    R.count("conflict pairs checked");
  }
  R.count(conflict ? "lists with conflicts" : "lists without conflicts");
  R.nontrivial(hash_str(t));
  R.sample(t);
}

/// Where the definition puts a coordinate.
static void s08_project(Rng& g) {
  int n = g.in(1, 8);
  double k1 = g.chance(0.5) ? 1e-2 : std::pow(10, g.real(-4, 0)), k2 = g.chance(0.5) ? 1e-2 : g.real(1e-3, 0.499);
  bool defaults = k1 == 1e-2 && k2 == 1e-2 && g.chance(0.5);
  DVec x(n);
  std::vector<std::pair<double, double>> b(n);
  for (int i = 0; i < n; ++i) {
    double l = g.normal() * std::pow(10, g.real(-3, 4)), w = std::pow(10, g.real(-3, 5));
    switch (g.in(0, 4)) {
      case 0: b[i] = {-INF, INF}; break;
      case 1: b[i] = {l, INF}; break;
      case 2: b[i] = {-INF, l}; break;
      case 3: b[i] = {l, l + w}; break;
      default: b[i] = {l, g.chance(0.2) ? l : l + w};
    }
    x[i] = g.chance(0.3) && std::isfinite(b[i].first) ? b[i].first : g.chance(0.3) && std::isfinite(b[i].second) ? b[i].second : g.chance(0.5) ? l + w * g.real(-0.5, 1.5) : g.normal() * 1e4;
  }
  DVec x0 = x;
  std::span<const std::pair<double, double>> sp(b.data(), n);
  if (defaults) slp::project_onto_bounds(x, sp);
  else slp::project_onto_bounds(x, sp, k1, k2);
  for (int i = 0; i < n; ++i) {
    auto [l, u] = b[i];
    LD pl = k1 * std::max<LD>(1, std::fabs(l)), pu = k1 * std::max<LD>(1, std::fabs(u));
    if (std::isfinite(l) && std::isfinite(u)) pl = std::min<LD>(pl, k2 * ((LD)u - l)), pu = std::min<LD>(pu, k2 * ((LD)u - l));
    LD want = x0[i];
    if (std::isfinite(l)) want = std::max<LD>(want, l + pl);
    if (std::isfinite(u)) want = std::min<LD>(want, u - pu);
    LD tol = 1e-15L * (std::fabs(want) + (std::isfinite(l) ? std::fabs(l) : 0) + (std::isfinite(u) ? std::fabs(u) : 0)) * (want != x0[i]);
    VF_CHECK(std::fabs(x[i] - want) <= tol, "projection", "coordinate %.17g in [%.17g, %.17g] moved to %.17g instead of %.17Lg (kappa %g, %g)", x0[i], l, u, x[i], want, k1, k2);
    if (l < u && std::isfinite(l)) VF_CHECK(x[i] > l, "not inside", "coordinate %.17g in [%.17g, %.17g] moved to %.17g", x0[i], l, u, x[i]);
    if (l < u && std::isfinite(u)) VF_CHECK(x[i] < u, "not inside", "coordinate %.17g in [%.17g, %.17g] moved to %.17g", x0[i], l, u, x[i]);
    R.count(x[i] == x0[i] ? "coordinates kept" : "coordinates moved");
  }
  R.nontrivial(hash_str(fmt("%.17g %.17g", x0[0], b[0].first)));
  // a block of a bigger vector
  DVec big = DVec::Constant(n + 2, 5e7);
  big.segment(1, n) = x0;
  auto seg = big.segment(1, n);
  if (defaults) slp::project_onto_bounds(seg, sp);
  else slp::project_onto_bounds(seg, sp, k1, k2);
  VF_CHECK(big.segment(1, n) == x && big[0] == 5e7 && big[n + 1] == 5e7, "projection of a block", "differs from that of a vector");
}
#endif

#if HAS(1) || HAS(2)
static slp::Options quiet() {
  slp::Options o;
  o.timeout = std::chrono::duration<double>(1e6);
  return o;
}

/// min sum (x_i - t_i)^2 inside a box given by redundant bounds.
static void s08_problem(Rng& g, bool projecting) {
  int n = g.in(1, 6);
  slp::Problem<double> p;
  auto X = p.decision_variable(n);
  DVec t(n), x0(n), lo(n), hi(n);
  PV f = 0.0;
  bool conflict = false;
  int bounds = 0;
  for (int i = 0; i < n; ++i) {
    t[i] = g.normal() * 2, x0[i] = g.normal() * 4;
    lo[i] = g.chance(0.7) ? g.in(-8, 4) / 4.0 : -INF;
    hi[i] = g.chance(0.7) ? (std::isfinite(lo[i]) ? lo[i] + g.in(2, 16) / 4.0 : g.in(-4, 8) / 4.0) : INF;
    f += (X[i] - t[i]) * (X[i] - t[i]);
  }
  int bad = g.chance(0.2) ? g.in(0, n - 1) : -1;
  std::vector<std::function<void()>> adds;
  for (int i = 0; i < n; ++i) {
    double s = std::pow(2, g.in(-1, 2));
    if (i == bad) lo[i] = 1, hi[i] = 0.5, conflict = true;
    if (std::isfinite(lo[i])) {
      adds.push_back([&, i, s] { if (g.chance(0.5)) p.subject_to(s * X[i] >= s * lo[i]); else p.subject_to(lo[i] <= X[i]); });
      if (g.chance(0.3)) adds.push_back([&, i] { p.subject_to(X[i] >= lo[i] - 1.5); });
      ++bounds;
    }
    if (std::isfinite(hi[i])) {
      adds.push_back([&, i, s] { if (g.chance(0.5)) p.subject_to(s * X[i] <= s * hi[i]); else p.subject_to(-X[i] >= -hi[i]); });
      if (g.chance(0.3)) adds.push_back([&, i] { p.subject_to(X[i] - hi[i] <= 1.25); });
      ++bounds;
    }
    if (std::isfinite(lo[i]) && std::isfinite(hi[i]) && i != bad && g.chance(0.2)) adds.push_back([&, i] { p.subject_to(slp::bounds(lo[i], X[i], hi[i])); });
  }
  if (g.chance(0.3)) adds.push_back([&] { p.subject_to(X.T() * X <= 1e4); });
  for (int i = int(adds.size()) - 1; i > 0; --i) std::swap(adds[i], adds[g.in(0, i)]);
  for (auto& a : adds) a();
  p.minimize(f);
  X.set_value(x0);
  DVec first;
  p.add_callback([&](const Info& i) {
    if (!first.size()) first = i.x;
  });
  auto o = quiet();
  auto st = p.solve(o);
  std::string d = fmt("n %d:", n);
  for (int i = 0; i < n; ++i) d += fmt(" [%g, %g] from %.17g to %.17g", lo[i], hi[i], x0[i], t[i]);
  R.nontrivial(hash_str(d));
  R.sample(d);
  if (conflict) {
    VF_CHECK(st == ExitStatus::GLOBALLY_INFEASIBLE, "conflict missed", "%s: %s", status_name(st), d.c_str());
    for (int i = 0; i < n; ++i) VF_CHECK(X[i].value() == x0[i], "value changed", "variable %d changed by a refused solve: %s", i, d.c_str());
    R.count("conflicting problems");
    return;
  }
  VF_CHECK(st == ExitStatus::SUCCESS, "not solved", "%s: %s", status_name(st), d.c_str());
  for (int i = 0; i < n; ++i) {
    double want = std::clamp(t[i], lo[i], hi[i]);
    // a weakly active bound keeps an interior point away by about sqrt(tolerance)
    double tol = std::min(std::fabs(t[i] - lo[i]), std::fabs(t[i] - hi[i])) < 0.02 ? 3e-3 : 1e-5;
    VF_CHECK(std::fabs(X[i].value() - want) <= tol, "solution", "variable %d is %.17g instead of %.17g: %s", i, X[i].value(), want, d.c_str());
    if (!first.size()) continue;
    if (!projecting || adds.empty()) {
      VF_CHECK(first[i] == x0[i], "start moved", "first iterate has %.17g for variable %d: %s", first[i], i, d.c_str());
      continue;
    }
    double l = lo[i], u = hi[i];
    LD w = x0[i], pl = 1e-2L * std::max(1.0, std::fabs(l)), pu = 1e-2L * std::max(1.0, std::fabs(u));
    if (std::isfinite(l) && std::isfinite(u)) pl = std::min<LD>(pl, 1e-2L * (u - l)), pu = std::min<LD>(pu, 1e-2L * (u - l));
    if (std::isfinite(l)) w = std::max<LD>(w, l + pl);
    if (std::isfinite(u)) w = std::min<LD>(w, u - pu);
    VF_CHECK(std::fabs(first[i] - w) <= 1e-13, "start not projected", "first iterate has %.17g instead of %.17Lg for variable %d: %s", first[i], w, i, d.c_str());
    R.count("projected coordinates");
  }
  R.count("box problems solved");
}
#endif

// ---------------------------------------------------------------- F01
#if HAS(3)
struct Reader {
  std::string d;
  size_t at = 0;
  bool bad = false;
  explicit Reader(const std::string& file) {
    std::ifstream f(file, std::ios::binary);
    bad = !f;
    d.assign(std::istreambuf_iterator<char>(f), {});
  }
  int i32() {
    if (at + 4 > d.size()) { bad = true; return 0; }
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= uint32_t((unsigned char)d[at + i]) << (8 * i);
    at += 4;
    return int(v);
  }
  std::string str(int n) {
    if (n < 0 || at + n > d.size()) { bad = true; return ""; }
    at += n;
    return d.substr(at - n, n);
  }
  bool end() const { return at == d.size(); }
};

struct Pattern {
  std::map<std::pair<int, int>, char> e;
  static Pattern of(const Eigen::SparseMatrix<double>& m) {
    Pattern p;
    for (int k = 0; k < m.outerSize(); ++k)
      for (Eigen::SparseMatrix<double>::InnerIterator it{m, k}; it; ++it) p.e[{int(it.row()), int(it.col())}] = it.value() > 0 ? '+' : it.value() < 0 ? '-' : '0';
    return p;
  }
};

static bool read_header(Reader& r, const std::string& title, const std::string& rl, const std::string& cl, int rows, int cols, const char* what) {
  auto t = r.str(r.i32()), a = r.str(r.i32()), b = r.str(r.i32());
  int m = r.i32(), n = r.i32();
  if (r.bad || t != title || a != rl || b != cl || m != rows || n != cols) {
    R.fail(fmt("%s header", what), fmt("title \"%s\", labels \"%s\", \"%s\", size %d x %d instead of \"%s\", \"%s\", \"%s\", %d x %d", t.c_str(), a.c_str(), b.c_str(), m, n, title.c_str(), rl.c_str(), cl.c_str(), rows, cols));
    return false;
  }
  return true;
}

static bool read_frame(Reader& r, const Pattern& want, const std::string& what) {
  int n = r.i32();
  Pattern got;
  for (int i = 0; i < n && !r.bad; ++i) {
    int a = r.i32(), b = r.i32();
    std::string s = r.str(1);
    if (r.bad) break;
    if (!got.e.insert({{a, b}, s[0]}).second) {
      R.fail("repeated entry", fmt("%s: (%d, %d) twice in one pattern", what.c_str(), a, b));
      return false;
    }
  }
  if (r.bad) {
    R.fail("file ends early", what);
    return false;
  }
  // an explicitly stored zero may be left out or kept
  auto strip = [](const Pattern& p) { Pattern q; for (auto& x : p.e) if (x.second != '0') q.e.insert(x); return q; };
  for (auto& [k, v] : got.e)
    if (v != '+' && v != '-' && v != '0') {
      R.fail("sign character", fmt("%s: character %d", what.c_str(), v));
      return false;
    }
  if (strip(got).e != strip(want).e) {
    R.fail("pattern", fmt("%s: %zu entries, %zu expected, or at other positions or of other signs", what.c_str(), got.e.size(), want.e.size()));
    return false;
  }
  for (auto& [k, v] : got.e)
    if (v == '0' && !want.e.count(k)) {
      R.fail("pattern", fmt("%s: entry at (%d, %d) that is not in the matrix", what.c_str(), k.first, k.second));
      return false;
    }
  R.count("patterns compared");
  R.count("pattern entries compared", double(got.e.size()));
  return true;
}

static void f01_spy(Rng& g) {
  int rows = g.in(0, 9), cols = g.in(0, 9), frames = g.in(0, 5);
  bool large = g.chance(0.02);
  if (large) rows = g.in(1, 3000), cols = g.in(1, 3000), frames = g.in(1, 2);
  auto text = [&] {
    std::string s;
    int n = g.chance(0.05) ? 300 : g.in(0, 12);
    for (int i = 0; i < n; ++i) s += g.chance(0.1) ? "∇" : std::string(1, char(g.chance(0.1) ? g.in(0, 31) : g.in(32, 126)));
    return s;
  };
  std::string t = text(), a = text(), b = text(), file = "direct.spy";
  std::vector<Pattern> want;
  {
    slp::Spy<double> s{file, t, a, b, rows, cols};
    for (int f = 0; f < frames; ++f) {
      Eigen::SparseMatrix<double> m(rows, cols);
      double dens = g.real(0, 1);
      if (large) {
        std::vector<Eigen::Triplet<double>> tr;
        for (int k = g.in(0, 6000); k > 0; --k) tr.push_back({g.in(0, rows - 1), g.in(0, cols - 1), g.normal()});
        m.setFromTriplets(tr.begin(), tr.end());
        R.count("large patterns");
      } else if (rows && cols) {
        std::vector<Eigen::Triplet<double>> tr;
        for (int i = 0; i < rows; ++i)
          for (int j = 0; j < cols; ++j)
            if (g.chance(dens)) tr.push_back({i, j, g.chance(0.1) ? (g.chance(0.5) ? 0.0 : -0.0) : g.chance(0.1) ? (g.chance(0.5) ? 1 : -1) * 5e-324 : g.normal()});
        m.setFromTriplets(tr.begin(), tr.end());
        if (g.chance(0.2)) m.reserve(Eigen::VectorXi::Constant(cols, 2));
        if (g.chance(0.2)) m.prune(0.5, 1);
      }
      s.add(m);
      want.push_back(Pattern::of(m));
    }
  }
  Reader r(file);
  if (!read_header(r, t, a, b, rows, cols, "direct")) return;
  for (int f = 0; f < frames; ++f)
    if (!read_frame(r, want[f], fmt("direct, pattern %d", f))) return;
  VF_CHECK(r.end(), "data left over", "%zu bytes after the last pattern", r.d.size() - r.at);
  R.nontrivial(hash_str(r.d));
  R.count("files decoded");
}

/// stdout of the process goes to a file during a solve with diagnostics.
struct Capture {
  int saved, fd;
  const char* file;
  explicit Capture(const char* f) : file(f) {
    fflush(stdout);
    saved = dup(1);
    fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
  }
  ~Capture() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved), close(fd);
  }
};

static void f01_solve(Rng& g) {
  Prob q = g.chance(0.4) ? gen_convex(g, 5).q : gen_nonconvex(g, 5);
  if (g.chance(0.15)) {  // leads to feasibility restoration
    q = Prob{};
    q.n = 2;
    double a = g.real(0.5, 2), c = g.real(0.5, 3);
    q.f = {{{P_LIN, 1, {1, 0}, 0}}};
    q.ce = {Fn{{{P_SQ, a, {1, 0}, 0}, {P_LIN, -1, {0, 1}, 0}, {P_CONST, 1, {}, 0}}}};
    q.ci = {Fn{{{P_LIN, -1, {0, 1}, -c}}}};
    q.x0 = DVec(2);
    q.x0 << g.real(1, 5), g.real(-2, 5);
  }
  auto b = build(g, q);
  struct It { Pattern H, Ae, Ai; int n, it; };
  std::vector<It> its;
  int stop = g.chance(0.2) ? g.in(0, 6) : -1;
  b->p.add_callback([&](const Info& i) {
    its.push_back({Pattern::of(i.H), Pattern::of(i.A_e), Pattern::of(i.A_i), int(i.x.size()), i.iteration});
  });
  // a callback that stops the solve: whether that iteration still gets its
  // pattern is not specified
  if (stop >= 0) b->p.add_callback([&, k = 0](const Info&) mutable { return k++ == stop; });
  for (auto f : {"H.spy", "A_e.spy", "A_i.spy"}) std::filesystem::remove(f);
  slp::Options o;
  o.diagnostics = true;
  o.timeout = std::chrono::duration<double>(1e6);
  if (g.chance(0.2)) o.max_iterations = g.in(0, 8);
  bool spy = g.chance(0.9);
  ExitStatus st;
  {
    Capture c("out.txt");
    st = b->p.solve(o, spy);
  }
  R.nontrivial(hash_str(q.text()));
  R.sample(q.text());
  std::string txt;
  {
    std::ifstream f("out.txt");
    txt.assign(std::istreambuf_iterator<char>(f), {});
  }
  std::string want = std::string("Exit: ") + std::format("{}", st);
  auto e = txt.rfind("Exit: ");
  if (e != std::string::npos) {
    auto nl = txt.find('\n', e);
    VF_CHECK(txt.substr(e, nl - e) == want, "exit text", "\"%s\" printed, status is %s", txt.substr(e, nl - e).c_str(), status_name(st));
    R.count("exit texts compared");
  } else {
    VF_CHECK(its.empty(), "no exit text", "a solve with %zu iterations and diagnostics printed no exit status", its.size());
  }
  bool ci = !q.ci.empty(), ce = !q.ce.empty();
  struct File { const char* name; const char* title; const char* rl; int rows; bool present; Pattern It::*p; };
  File files[] = {{"H.spy", "Hessian", "Decision variables", q.n, true, &It::H},
                  {"A_e.spy", "Equality constraint Jacobian", "Constraints", int(q.ce.size()), ce || ci, &It::Ae},
                  {"A_i.spy", "Inequality constraint Jacobian", "Constraints", int(q.ci.size()), ci, &It::Ai}};
  for (auto& f : files) {
    bool there = std::filesystem::exists(f.name);
    if (!spy) {
      VF_CHECK(!there, "unrequested file", "%s written without the spy flag", f.name);
      continue;
    }
    if (its.empty()) continue;
    VF_CHECK(!f.present || there, "no file", "%s missing after a solve with %zu iterations: %s", f.name, its.size(), q.text().c_str());
    if (!f.present) continue;
    Reader r(f.name);
    if (!read_header(r, f.title, f.rl, "Decision variables", f.rows, q.n, f.name)) return;
    size_t frames = its.size() - (st == ExitStatus::CALLBACK_REQUESTED_STOP);
    for (size_t k = 0; k < frames; ++k)
      if (!read_frame(r, its[k].*(f.p), fmt("%s, iteration %zu of %zu (%s)", f.name, k, its.size(), q.text().c_str()))) return;
    if (st == ExitStatus::CALLBACK_REQUESTED_STOP && !r.end())
      if (!read_frame(r, its[frames].*(f.p), fmt("%s, last iteration", f.name))) return;
    VF_CHECK(r.end(), "data left over", "%s: %zu bytes after the patterns of %zu iterations: %s", f.name, r.d.size() - r.at, its.size(), q.text().c_str());
    R.count("files decoded");
    for (auto& i : its) if (i.n != q.n) R.count("restoration patterns");
  }
}

template <typename T>
static bool same_text(const T& v, const std::string& text, const char* what) {
  using std::format;
  struct P { std::string a, b; };
  P ps[] = {{format("{}", v), format("{}", text)},
            {format("{:>40}", v), format("{:>40}", text)},
            {format("{:<35}|", v), format("{:<35}|", text)},
            {format("{:*^40}", v), format("{:*^40}", text)},
            {format("[{:5}]", v), format("[{:5}]", text)},
            {format("{:.4}", v), format("{:.4}", text)},
            {format("{0} {0:>3}", v), format("{0} {0:>3}", text)}};
  for (auto& p : ps)
    if (p.a != p.b) {
      R.fail(what, fmt("\"%s\" instead of \"%s\"", p.a.c_str(), p.b.c_str()));
      return false;
    }
  R.count("texts compared", 7);
  return true;
}

static void f01_texts(Rng& g) {
  static const std::pair<ExitStatus, const char*> st[] = {
      {ExitStatus::SUCCESS, "success"}, {ExitStatus::CALLBACK_REQUESTED_STOP, "callback requested stop"}, {ExitStatus::TOO_FEW_DOFS, "too few degrees of freedom"},
      {ExitStatus::LOCALLY_INFEASIBLE, "locally infeasible"}, {ExitStatus::GLOBALLY_INFEASIBLE, "globally infeasible"}, {ExitStatus::FACTORIZATION_FAILED, "factorization failed"},
      {ExitStatus::LINE_SEARCH_FAILED, "line search failed"}, {ExitStatus::FEASIBILITY_RESTORATION_FAILED, "feasibility restoration failed"}, {ExitStatus::NONFINITE_INITIAL_GUESS, "nonfinite initial guess"},
      {ExitStatus::DIVERGING_ITERATES, "diverging iterates"}, {ExitStatus::MAX_ITERATIONS_EXCEEDED, "max iterations exceeded"}, {ExitStatus::TIMEOUT, "timeout"}};
  for (auto& [s, t] : st)
    if (!same_text(s, t, "status text")) return;
  using slp::ExpressionType;
  static const std::pair<ExpressionType, const char*> et[] = {{ExpressionType::NONE, "none"}, {ExpressionType::CONSTANT, "constant"}, {ExpressionType::LINEAR, "linear"}, {ExpressionType::QUADRATIC, "quadratic"}, {ExpressionType::NONLINEAR, "nonlinear"}};
  for (auto& [s, t] : et)
    if (!same_text(s, t, "type text")) return;
  int a = g.chance(0.1) ? g.in(-2000000000, 2000000000) : g.in(0, 200), b = g.in(0, 99), c = g.in(0, 9);
  slp::Inertia i{a, b, c};
  auto eq = [&](const std::string& x, const std::string& y) {
    if (x != y) R.fail("inertia text", fmt("\"%s\" instead of \"%s\"", x.c_str(), y.c_str()));
    return x == y;
  };
  if (!eq(std::format("{}", i), fmt("(%d, %d, %d)", a, b, c)) || !eq(std::format("{:5}", i), fmt("(%5d, %5d, %5d)", a, b, c)) || !eq(std::format("{:x}", slp::Inertia{a & 0xffff, b, c}), fmt("(%x, %x, %x)", a & 0xffff, b, c)) || !eq(std::format("{:<4}", i), fmt("(%-4d, %-4d, %-4d)", a, b, c)))
    return;
  R.count("texts compared", 4);
  R.nontrivial(mix(uint64_t(a) * 100000 + b * 100 + c));
}
#endif

int main(int argc, char** argv) {
  R.init(argc, argv);
#if HAS(1)
  R.cases("lists", 60000, s08_bounds);
  R.cases("projection", 60000, s08_project);
  R.cases("box", 6000, [](Rng& g) { s08_problem(g, false); });
#endif
#if HAS(2)
  R.cases("projected box", 6000, [](Rng& g) { s08_problem(g, true); });
#endif
#if HAS(3)
  R.cases("spy", 8000, f01_spy);
  R.cases("solves", 8000, f01_solve);
  R.cases("texts", 2000, f01_texts);
#endif
  return R.finish(), 0;
}
