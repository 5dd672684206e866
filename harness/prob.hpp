// Random optimization problems with an independent evaluator: functions are
// sums of terms c * phi(a'x + a0) [* (b'x + b0)], evaluated with first and
// second derivatives in long double from closed forms, and written to the
// library in randomly chosen equivalent ways.
#pragma once

#include <Eigen/QR>
#include <Eigen/SVD>
#include <memory>
#include <sleipnir/optimization/problem.hpp>

#include "common.hpp"

namespace vf {

using LD = long double;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using DVec = Eigen::VectorXd;
using PV = slp::Variable<double>;
using PM = slp::VariableMatrix<double>;

enum Phi { P_LIN, P_SQ, P_PROD, P_CUBE, P_QUART, P_EXP, P_SIN, P_COS, P_SQRT1, P_RAT, P_ATAN, P_LOG, P_SQRT, P_TANH, P_SOFTPLUS, P_CONST, P_INV };

struct Term {
  Phi k;
  double c;
  std::vector<double> a;
  double a0 = 0;
  std::vector<double> b{};
  double b0 = 0;
};

struct Fn {
  std::vector<Term> t;

  struct Out {
    LD v = 0;
    LVec g;
    LMat H;
    LD size = 0;  // sum of magnitudes of terms, for rounding bounds
    LD gsize = 0;  // the same for gradient entries
  };

  static void phi(Phi k, LD u, LD& v, LD& d, LD& dd) {
    using std::exp, std::sqrt, std::log, std::sin, std::cos, std::atan, std::tanh;
    switch (k) {
      case P_LIN: v = u; d = 1; dd = 0; break;
      case P_SQ: v = u * u; d = 2 * u; dd = 2; break;
      case P_CUBE: v = u * u * u; d = 3 * u * u; dd = 6 * u; break;
      case P_QUART: v = u * u * u * u; d = 4 * u * u * u; dd = 12 * u * u; break;
      case P_EXP: v = d = dd = exp(u); break;
      case P_SIN: v = sin(u); d = cos(u); dd = -v; break;
      case P_COS: v = cos(u); d = -sin(u); dd = -v; break;
      case P_SQRT1: v = sqrt(1 + u * u); d = u / v; dd = 1 / (v * v * v); break;
      case P_RAT: {
        LD q = 1 + u * u;
        v = 1 / q; d = -2 * u / (q * q); dd = (6 * u * u - 2) / (q * q * q);
        break;
      }
      case P_ATAN: { LD q = 1 + u * u; v = atan(u); d = 1 / q; dd = -2 * u / (q * q); break; }
      case P_LOG: v = log(u); d = 1 / u; dd = -1 / (u * u); break;
      case P_SQRT: v = sqrt(u); d = 0.5L / v; dd = -0.25L / (v * u); break;
      case P_TANH: v = tanh(u); d = 1 - v * v; dd = -2 * v * d; break;
      case P_SOFTPLUS: { LD e = exp(u); v = log(1 + e); d = e / (1 + e); dd = d / (1 + e); break; }
      case P_INV: v = 1 / u; d = -1 / (u * u); dd = 2 / (u * u * u); break;
      default: v = 1; d = dd = 0;
    }
  }

  Out eval(const DVec& x, bool hess = true) const {
    int n = x.size();
    Out o;
    o.g = LVec::Zero(n);
    if (hess) o.H = LMat::Zero(n, n);
    for (auto& m : t) {
      LVec a = LVec::Zero(n), b = LVec::Zero(n);
      LD u = m.a0, w = m.b0, us = std::fabs(m.a0);
      for (int i = 0; i < n && i < int(m.a.size()); ++i) { a[i] = m.a[i]; u += a[i] * x[i]; us += std::fabs(a[i] * (LD)x[i]); }
      for (int i = 0; i < n && i < int(m.b.size()); ++i) { b[i] = m.b[i]; w += b[i] * x[i]; us += std::fabs(b[i] * (LD)x[i]); }
      if (m.k == P_PROD) {
        o.v += m.c * u * w;
        o.g += m.c * (w * a + u * b);
        if (hess) o.H += m.c * (a * b.transpose() + b * a.transpose());
        o.size += std::fabs(m.c) * us * us;
        if (n) o.gsize += 2 * std::fabs(m.c) * us * std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
      } else {
        LD v, d, dd;
        phi(m.k, u, v, d, dd);
        o.v += m.c * v;
        if (m.k != P_CONST) {
          o.g += m.c * d * a;
          if (hess) o.H += m.c * dd * (a * a.transpose());
        }
        o.size += std::fabs(m.c) * (std::fabs(v) + std::fabs(d) * us);
        // tails of saturating functions come from differences
        bool tail = m.k == P_TANH || m.k == P_SOFTPLUS || m.k == P_SQRT1 || m.k == P_ATAN;
        if (n) o.gsize += std::fabs(m.c) * (std::fabs(d) + std::fabs(dd) * us + tail) * a.cwiseAbs().maxCoeff();
      }
    }
    return o;
  }

  /// Squares of exp() would overflow in double's formulas.
  bool huge(const DVec& x) const {
    for (auto& m : t)
      if (m.k == P_SOFTPLUS || m.k == P_EXP) {
        LD u = m.a0;
        for (int i = 0; i < x.size() && i < int(m.a.size()); ++i) u += m.a[i] * (LD)x[i];
        if (std::fabs(u) > 300) return true;
      }
    return false;
  }

  std::string text() const {
    static const char* nm[] = {"lin", "sq", "prod", "cube", "quart", "exp", "sin", "cos", "sqrt1", "rat", "atan", "log", "sqrt", "tanh", "softplus", "const", "inv"};
    std::string s;
    for (auto& m : t) {
      s += fmt("%+.3g %s(", m.c, nm[m.k]);
      for (size_t i = 0; i < m.a.size(); ++i) if (m.a[i] != 0) s += fmt("%+.3gx%zu", m.a[i], i);
      s += fmt("%+.3g", m.a0);
      if (m.k == P_PROD) {
        s += ",";
        for (size_t i = 0; i < m.b.size(); ++i) if (m.b[i] != 0) s += fmt("%+.3gx%zu", m.b[i], i);
        s += fmt("%+.3g", m.b0);
      }
      s += ") ";
    }
    return s;
  }

  Fn scaled(double k) const {
    Fn f = *this;
    for (auto& m : f.t) m.c *= k;
    return f;
  }
};

/// Writes an affine form.
inline PV write_affine(Rng& g, const std::vector<double>& a, double a0, const std::vector<PV>& x) {
  int nz = 0;
  for (double v : a) nz += v != 0;
  if (nz > 1 && g.chance(0.3)) {
    PM A(1, int(a.size())), X(int(a.size()));
    for (size_t i = 0; i < a.size(); ++i) {
      A[0, int(i)] = a[i];
      X[int(i)] = x[i];
    }
    PV r = PM{A * X};
    return a0 != 0 ? r + a0 : r;
  }
  bool started = false;
  PV r;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i] == 0) continue;
    PV e = a[i] == 1 ? x[i] : g.chance(0.5) ? PV{a[i] * x[i]} : PV{x[i] * a[i]};
    if (!started) r = e;
    else if (g.chance(0.5)) r = r + e;
    else r += e;
    started = true;
  }
  if (!started) return PV{a0};
  if (a0 != 0) r = g.chance(0.5) ? r + a0 : r - (-a0);
  return r;
}

inline PV write_term(Rng& g, const Term& m, const std::vector<PV>& x) {
  if (m.k == P_CONST) return PV{m.c};
  PV u = write_affine(g, m.a, m.a0, x), e;
  switch (m.k) {
    case P_LIN: e = u; break;
    case P_SQ: e = g.chance(0.5) ? u * u : slp::pow(u, 2); break;
    case P_PROD: e = u * write_affine(g, m.b, m.b0, x); break;
    case P_CUBE: e = g.chance(0.5) ? u * u * u : slp::pow(u, 3); break;
    case P_QUART: e = g.chance(0.5) ? (u * u) * (u * u) : slp::pow(u, 4); break;
    case P_EXP: e = slp::exp(u); break;
    case P_SIN: e = slp::sin(u); break;
    case P_COS: e = slp::cos(u); break;
    case P_SQRT1: e = g.chance(0.5) ? slp::sqrt(1 + u * u) : slp::hypot(PV{1.0}, u); break;
    case P_RAT: e = 1 / (1 + u * u); break;
    case P_ATAN: e = slp::atan(u); break;
    case P_LOG: e = slp::log(u); break;
    case P_SQRT: e = slp::sqrt(u); break;
    case P_TANH: e = slp::tanh(u); break;
    case P_SOFTPLUS: e = slp::log(1 + slp::exp(u)); break;
    case P_INV: e = 1 / u; break;
    default: break;
  }
  if (m.c == 1) return e;
  if (m.c == -1 && g.chance(0.5)) return -e;
  return g.chance(0.5) ? m.c * e : e * m.c;
}

inline PV write_fn(Rng& g, const Fn& f, const std::vector<PV>& x, size_t from = 0, size_t to = ~size_t(0)) {
  PV r{0.0};
  bool started = false;
  for (size_t i = from; i < f.t.size() && i < to; ++i) {
    PV e = write_term(g, f.t[i], x);
    if (!started) r = e;
    else if (g.chance(0.7)) r += e;
    else r = e + r;
    started = true;
  }
  return r;
}

struct Prob {
  int n = 0;
  bool has_f = true;
  Fn f;
  std::vector<Fn> ce, ci;  // ce = 0, ci >= 0
  DVec x0;

  std::string text() const {
    std::string s = fmt("n=%d", n);
    if (has_f) s += " min " + f.text();
    for (auto& c : ce) s += "; 0 = " + c.text();
    for (auto& c : ci) s += "; 0 <= " + c.text();
    s += "; x0 =";
    for (int i = 0; i < n; ++i) s += fmt(" %.17g", x0[i]);
    return s;
  }
};

/// The problem written to the library.
struct Built {
  slp::Problem<double> p;
  std::vector<PV> x;

  void set(const DVec& v) {
    for (size_t i = 0; i < x.size(); ++i) x[i].set_value(v[i]);
  }
  DVec get() {
    DVec v(x.size());
    for (size_t i = 0; i < x.size(); ++i) v[i] = x[i].value();
    return v;
  }
};

/// plain: constraints keep sign and order (residual i is exactly c_i) and are
/// given one by one; otherwise all the ways of writing are mixed.
inline std::unique_ptr<Built> build(Rng& g, const Prob& q, bool plain = false) {
  auto b = std::make_unique<Built>();
  while (int(b->x.size()) < q.n) {
    int left = q.n - b->x.size(), how = g.in(0, 3);
    if (how == 0) {
      b->x.push_back(b->p.decision_variable());
    } else if (how == 1) {
      int r = g.in(1, left);
      auto m = b->p.decision_variable(r);
      for (int i = 0; i < r; ++i) b->x.push_back(m[i]);
    } else if (how == 2 && left >= 3) {
      auto m = b->p.symmetric_decision_variable(2);
      b->x.push_back(m[0, 0]);
      b->x.push_back(g.chance(0.5) ? m[1, 0] : m[0, 1]);
      b->x.push_back(m[1, 1]);
    } else {
      int r = g.in(1, left), c = std::max(1, left / r);
      auto m = b->p.decision_variable(r, c);
      for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) b->x.push_back(m[i, j]);
    }
  }
  b->set(q.x0);

  auto objective = [&] {
    if (!q.has_f) return;
    if (!plain && g.chance(0.25)) b->p.maximize(write_fn(g, q.f.scaled(-1), b->x));
    else b->p.minimize(write_fn(g, q.f, b->x));
  };
  bool early = g.chance(0.5);
  if (early) objective();
  size_t ie = 0, ii = 0;
  while (ie < q.ce.size() || ii < q.ci.size()) {
    bool eq = ie < q.ce.size() && (ii >= q.ci.size() || g.chance(0.5));
    auto& list = eq ? q.ce : q.ci;
    size_t& at = eq ? ie : ii;
    int batch = plain ? 1 : g.chance(0.3) ? g.in(1, int(list.size() - at)) : 1;
    if (batch > 1) {
      PM l(batch), r(batch);
      for (int i = 0; i < batch; ++i) {
        size_t cut = g.in(0, list[at + i].t.size());
        l[i] = write_fn(g, list[at + i], b->x, 0, cut);
        r[i] = write_fn(g, list[at + i].scaled(-1), b->x, cut);
      }
      if (eq) b->p.subject_to(l == r);
      else if (g.chance(0.5)) b->p.subject_to(l >= r);
      else b->p.subject_to(r <= l);
    } else if (plain || g.chance(0.4)) {
      PV e = write_fn(g, list[at], b->x);
      if (eq) b->p.subject_to(e == 0);
      else if (plain || g.chance(0.5)) b->p.subject_to(e >= 0);
      else b->p.subject_to(0 <= e);
    } else {
      size_t cut = g.in(0, list[at].t.size());
      PV l = write_fn(g, list[at], b->x, 0, cut), r = write_fn(g, list[at].scaled(-1), b->x, cut);
      if (eq) b->p.subject_to(l == r);
      else if (g.chance(0.5)) b->p.subject_to(l >= r);
      else b->p.subject_to(r <= l);
    }
    at += batch;
  }
  if (!early) objective();
  return b;
}

// ------------------------------------------------------------- generators
inline std::vector<double> random_dir(Rng& g, int n, double density = 0.6) {
  std::vector<double> a(n, 0.0);
  for (int i = 0; i < n; ++i)
    if (g.chance(density)) a[i] = std::round(g.normal() * 16) / 16;
  bool any = false;
  for (double v : a) any |= v != 0;
  if (!any) a[g.in(0, n - 1)] = g.chance(0.5) ? 1 : -1;
  return a;
}

inline double dot(const std::vector<double>& a, const DVec& x) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += a[i] * x[i];
  return s;
}

/// A random convex term (c > 0).
inline Term convex_term(Rng& g, int n, double size = 1) {
  static const Phi ks[] = {P_SQ, P_SQ, P_EXP, P_SQRT1, P_QUART, P_SOFTPLUS};
  Phi k = ks[g.in(0, 5)];
  auto a = random_dir(g, n);
  double s = k == P_EXP || k == P_QUART ? 0.5 : 1;
  for (auto& v : a) v *= s;
  return {k, g.real(0.2, 1.5) * size, a, g.real(-1, 1)};
}

struct Convex {
  Prob q;
  DVec xs;                 // the optimum
  std::vector<double> y, z;  // its multipliers
};

/// A strictly convex problem with a known solution, with linearly independent
/// active constraint gradients (well conditioned) and strict complementarity.
inline bool try_convex(Rng& g, Convex& c, int maxn, bool bad_scale) {
  {
    int n = c.q.n = g.in(1, maxn);
    c.xs = DVec(n);
    for (int i = 0; i < n; ++i) c.xs[i] = g.normal();
    int me = 0, ma = 0, mi = 0;
    switch (g.in(0, 4)) {
      case 0: break;
      case 1: me = g.in(0, n - 1); break;
      case 2: ma = g.in(0, n); mi = g.in(0, 3); break;
      default:
        me = g.in(0, n - 1);
        ma = g.in(0, n - me);
        mi = g.in(0, 3);
    }
    int only_quadratic = g.in(0, 2);
    for (int i = 0; i < n; ++i) {
      std::vector<double> e(n, 0.0);
      e[i] = 1;
      c.q.f.t.push_back({P_SQ, g.real(0.4, 1.5), e, std::round(g.normal() * 8) / 8});
    }
    for (int k = g.in(0, 3); k > 0; --k) {
      Term t = convex_term(g, n);
      if (only_quadratic == 0) t.k = P_SQ;
      c.q.f.t.push_back(t);
    }
    for (int j = 0; j < me; ++j) {
      auto a = random_dir(g, n);
      c.q.ce.push_back({{{P_LIN, 1, a, -dot(a, c.xs)}}});
      c.y.push_back(g.real(-2, 2));
    }
    for (int j = 0; j < ma + mi; ++j) {
      Fn f;
      double margin = j < ma ? 0 : g.real(0.2, 3);
      int how = g.in(0, 3);
      if (how == 0) {  // a bound
        std::vector<double> a(n, 0.0);
        int i = g.in(0, n - 1);
        a[i] = g.chance(0.5) ? 1 : -1;
        f.t.push_back({P_LIN, 1, a, -a[i] * c.xs[i] + margin});
      } else if (how == 1) {
        auto a = random_dir(g, n);
        f.t.push_back({P_LIN, 1, a, -dot(a, c.xs) + margin});
      } else {
        auto a = random_dir(g, n);
        f.t.push_back({P_LIN, 1, a, 0});
        for (int k = g.in(1, 2); k > 0; --k) {
          Term t = convex_term(g, n, 0.5);
          t.c = -t.c;
          f.t.push_back(t);
        }
        double v = f.eval(c.xs, false).v;
        f.t.push_back({P_CONST, margin - v, {}, 0});
      }
      c.q.ci.push_back(f);
      c.z.push_back(j < ma ? g.real(0.2, 2) : 0);
    }
    // independence of active gradients
    if (me + ma > 0) {
      LMat A(me + ma, n);
      for (int j = 0; j < me; ++j) A.row(j) = c.q.ce[j].eval(c.xs, false).g.transpose();
      for (int j = 0; j < ma; ++j) A.row(me + j) = c.q.ci[j].eval(c.xs, false).g.transpose();
      for (int j = 0; j < me + ma; ++j) {
        LD nr = A.row(j).norm();
        if (nr < 0.1 || nr > 20) return false;
        A.row(j) /= nr;
      }
      Eigen::JacobiSVD<Eigen::MatrixXd> svd(A.cast<double>());
      if (svd.singularValues()(me + ma - 1) < 0.2) return false;
    }
    {
      // multipliers make xs stationary
      LVec r = -c.q.f.eval(c.xs, false).g;
      for (int j = 0; j < me; ++j) r += c.y[j] * c.q.ce[j].eval(c.xs, false).g;
      for (int j = 0; j < ma; ++j) r += c.z[j] * c.q.ci[j].eval(c.xs, false).g;
      std::vector<double> lin(n);
      for (int i = 0; i < n; ++i) lin[i] = (double)r[i];
      c.q.f.t.push_back({P_LIN, 1, lin, 0});
    }
    if (bad_scale && g.chance(0.4)) {
      c.q.f = c.q.f.scaled(std::pow(10, g.in(-1, 4)));
      for (auto& k : c.q.ce) k = k.scaled(std::pow(10, g.in(-1, 4)));
      for (auto& k : c.q.ci) k = k.scaled(std::pow(10, g.in(0, 4)));
    }
    // With flatter constraints the infeasibility test's absolute thresholds
    // take a small violation for a stationary one
    for (auto& k : c.q.ci) {
      LD nr = k.eval(c.xs, false).g.norm();
      if (nr < 1) k = k.scaled(std::ceil(double(1 / std::max<LD>(nr, 1e-3L))));
    }
    // shuffle inequalities
    for (int j = int(c.q.ci.size()) - 1; j > 0; --j) {
      int k = g.in(0, j);
      std::swap(c.q.ci[j], c.q.ci[k]);
      std::swap(c.z[j], c.z[k]);
    }
    c.q.x0 = DVec(n);
    double far = g.pick(std::vector<double>{0, 0.5, 2, 4});
    for (int i = 0; i < n; ++i) c.q.x0[i] = g.chance(0.1) ? 0 : c.xs[i] + far * g.normal();
    // no starts so far out that automatic scaling flattens a function
    auto steep = [&](const Fn& f) {
      LD a = f.eval(c.q.x0, false).g.cwiseAbs().maxCoeff(), b = f.eval(c.xs, false).g.cwiseAbs().maxCoeff();
      return !(a <= 100 * std::max<LD>(b, 1e-2L));
    };
    for (int tries = 0; tries < 60; ++tries) {
      bool bad = steep(c.q.f);
      for (auto& k : c.q.ci) bad |= steep(k);
      if (!bad) break;
      c.q.x0 = (c.q.x0 + c.xs) / 2;
    }
    return true;
  }
}

inline Convex gen_convex(Rng& g, int maxn = 8, bool bad_scale = true) {
  for (;;) {
    Convex c;
    if (try_convex(g, c, maxn, bad_scale)) return c;
  }
}

/// Any smooth term.
inline Term any_term(Rng& g, int n) {
  static const Phi ks[] = {P_LIN, P_SQ, P_PROD, P_CUBE, P_QUART, P_EXP, P_SIN, P_COS, P_SQRT1, P_RAT, P_ATAN, P_TANH, P_SOFTPLUS};
  Term t{ks[g.in(0, 12)], std::round(g.normal() * 16) / 8, random_dir(g, n), std::round(g.real(-2, 2) * 8) / 8};
  if (t.c == 0) t.c = 1;
  if (t.k == P_EXP || t.k == P_CUBE || t.k == P_QUART) for (auto& v : t.a) v *= 0.5;
  if (t.k == P_PROD) {
    t.b = random_dir(g, n);
    t.b0 = std::round(g.real(-1, 1) * 8) / 8;
  }
  return t;
}

inline Fn any_fn(Rng& g, int n, int terms) {
  Fn f;
  for (int i = 0; i < terms; ++i) f.t.push_back(any_term(g, n));
  return f;
}

/// A nonconvex problem, feasible at some point near the start, with a cost
/// bounded from below.
inline Prob gen_nonconvex(Rng& g, int maxn = 6, bool bad_scale = true) {
  Prob q;
  int n = q.n = g.in(1, maxn);
  q.f = any_fn(g, n, g.in(1, 4));
  for (int i = 0; i < n; ++i) {  // coercive
    std::vector<double> e(n, 0.0);
    e[i] = 0.5;
    q.f.t.push_back({P_QUART, 1, e, 0});
    q.f.t.push_back({P_SQ, g.real(0, 1), e, g.real(-1, 1)});
  }
  DVec xf(n);
  for (int i = 0; i < n; ++i) xf[i] = g.normal();
  int kind = g.in(0, 3);
  int me = kind == 1 || kind == 3 ? g.in(kind == 1, n) : 0, mi = kind >= 2 ? g.in(1, 5) : 0;
  for (int j = 0; j < me; ++j) {
    Fn c = any_fn(g, n, g.in(1, 3));
    c.t.push_back({P_CONST, (double)-c.eval(xf, false).v, {}, 0});
    q.ce.push_back(c);
  }
  for (int j = 0; j < mi; ++j) {
    Fn c;
    if (g.chance(0.4)) {
      std::vector<double> a(n, 0.0);
      a[g.in(0, n - 1)] = g.chance(0.5) ? 1 : -1;
      c.t.push_back({P_LIN, 1, a, 0});
    } else {
      c = any_fn(g, n, g.in(1, 3));
    }
    c.t.push_back({P_CONST, (double)-c.eval(xf, false).v + g.real(0, 2), {}, 0});
    q.ci.push_back(c);
  }
  // degenerate variations: duplicates
  if (g.chance(0.1) && mi > 0) q.ci.push_back(q.ci[g.in(0, mi - 1)].scaled(g.real(0.5, 2)));
  if (bad_scale && g.chance(0.6)) {
    q.f = q.f.scaled(std::pow(10, g.in(-3, 6)));
    for (auto& k : q.ce) k = k.scaled(std::pow(10, g.in(-3, 6)));
    for (auto& k : q.ci) k = k.scaled(std::pow(10, g.in(-3, 6)));
  }
  q.x0 = DVec(n);
  for (int i = 0; i < n; ++i) q.x0[i] = g.chance(0.15) ? 0 : xf[i] + g.pick(std::vector<double>{0, 0.3, 1, 3}) * g.normal();
  return q;
}

// ------------------------------------------------------- optimality oracle
/// min |g - A'l|^2 + sum (w_j l_j)^2 over l with l_j >= 0 for j >= nfree.
inline LVec nnls(const LMat& At, const LVec& g, const LVec& w, int nfree) {
  int n = At.rows(), m = At.cols();
  LMat M = LMat::Zero(n + m, m);
  M.topRows(n) = At;
  for (int j = 0; j < m; ++j) M(n + j, j) = w[j];
  LVec rhs = LVec::Zero(n + m);
  rhs.head(n) = g;
  std::vector<bool> in(m, false);
  for (int j = 0; j < nfree; ++j) in[j] = true;
  LVec l = LVec::Zero(m);
  auto solve_in = [&] {
    std::vector<int> id;
    for (int j = 0; j < m; ++j) if (in[j]) id.push_back(j);
    LVec s = LVec::Zero(m);
    if (id.empty()) return s;
    LMat B(n + m, id.size());
    for (size_t k = 0; k < id.size(); ++k) B.col(k) = M.col(id[k]);
    LVec r = B.completeOrthogonalDecomposition().solve(rhs);
    for (size_t k = 0; k < id.size(); ++k) s[id[k]] = r[k];
    return s;
  };
  if (nfree) l = solve_in();
  LVec best = l;
  LD bestv = (rhs - M * l).squaredNorm();
  for (int it = 0; it < 4 * m + 10; ++it) {
    LVec d = M.transpose() * (rhs - M * l);
    int pick = -1;
    LD big = 1e-17L * (1 + rhs.norm());
    for (int j = nfree; j < m; ++j) if (!in[j] && d[j] > big) { big = d[j]; pick = j; }
    if (pick < 0) break;
    in[pick] = true;
    for (int inner = 0; inner < 2 * m + 5; ++inner) {
      LVec s = solve_in();
      LD al = 2;
      for (int j = nfree; j < m; ++j) if (in[j] && s[j] <= 0) al = std::min(al, l[j] / (l[j] - s[j] + 1e-300L));
      if (al > 1) { l = s; break; }
      for (int j = 0; j < m; ++j) if (in[j]) l[j] += al * (s[j] - l[j]);
      for (int j = nfree; j < m; ++j) if (in[j] && (l[j] <= 0 || (s[j] <= 0 && l[j] <= 1e-25L))) { in[j] = false; l[j] = 0; }
    }
    LD v = (rhs - M * l).squaredNorm();
    if (v < bestv) { bestv = v; best = l; }
  }
  return best;
}

struct Kkt {
  LD feas_e = 0, feas_i = 0;  // worst violations in the user's units
  LD stat = 0, comp = 0;      // best achievable stationarity and complementarity
  LD lmean = 0;               // mean multiplier size at that best
  LD gsize = 0;               // magnitude of the gradient terms summed up there
};

/// Slacks may differ from the constraint values by the tolerance.
inline Kkt kkt_of(const Prob& q, const DVec& x, double tol) {
  Kkt k;
  int me = q.ce.size(), mi = q.ci.size(), n = q.n;
  LMat At(n, me + mi);
  LVec w = LVec::Zero(me + mi), nr(me + mi);
  LVec gs(me + mi);
  for (int j = 0; j < me + mi; ++j) {
    auto o = (j < me ? q.ce[j] : q.ci[j - me]).eval(x, false);
    nr[j] = o.g.norm();
    gs[j] = o.gsize;
    if (j >= me) nr[j] = std::hypot(nr[j], std::max<LD>(o.v - tol, 0));
    if (nr[j] == 0) nr[j] = 1;
    At.col(j) = o.g / nr[j];
    LD round = 1e-14L * o.size;
    if (j < me) k.feas_e = std::max(k.feas_e, std::fabs(o.v) - round);
    else {
      k.feas_i = std::max(k.feas_i, -o.v - round);
      w[j] = std::max<LD>(o.v - tol, 0) / nr[j];
    }
  }
  LVec g = LVec::Zero(n);
  if (q.has_f) {
    auto o = q.f.eval(x, false);
    g = o.g;
    k.gsize = o.gsize;
  }
  LVec l = me + mi ? nnls(At, g, w, me) : LVec(0);
  LVec r = g;
  if (me + mi) r -= At * l;
  if (getenv("VERIF_DIST")) for (int j = 0; j < me + mi; ++j) fprintf(stderr, "K %d l %.6Lg w %.6Lg nr %.6Lg\n", j, l[j], w[j], nr[j]);
  k.stat = n ? r.cwiseAbs().maxCoeff() : 0;
  for (int j = 0; j < me + mi; ++j) {
    if (j >= me) k.comp = std::max(k.comp, w[j] * l[j]);
    k.lmean += std::fabs(l[j] / nr[j]);
    k.gsize += std::fabs(l[j] / nr[j]) * gs[j];
  }
  if (me + mi) k.lmean /= me + mi;
  return k;
}

inline const char* status_name(slp::ExitStatus s) {
  switch (int(s)) {
    case 0: return "SUCCESS";
    case 1: return "CALLBACK_REQUESTED_STOP";
    case -1: return "TOO_FEW_DOFS";
    case -2: return "LOCALLY_INFEASIBLE";
    case -3: return "GLOBALLY_INFEASIBLE";
    case -4: return "FACTORIZATION_FAILED";
    case -5: return "LINE_SEARCH_FAILED";
    case -6: return "FEASIBILITY_RESTORATION_FAILED";
    case -7: return "NONFINITE_INITIAL_GUESS";
    case -8: return "DIVERGING_ITERATES";
    case -9: return "MAX_ITERATIONS_EXCEEDED";
    case -10: return "TIMEOUT";
    default: return "?";
  }
}

}  // namespace vf
