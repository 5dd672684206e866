// R01: lifetimes of all kinds of objects, in any order. R02: expression storage.
#include <pthread.h>

#include <cmath>
#include <deque>
#include <memory>
#include <optional>
#include <stdexcept>

#include "common.hpp"

#ifdef VF_ONLY
#define HAS(n) (VF_ONLY == (n))
#else
#define HAS(n) 1
#endif

#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/autodiff/variable.hpp>
#include <sleipnir/autodiff/variable_matrix.hpp>
#include <sleipnir/util/pool.hpp>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/problem.hpp>

#include "jet.hpp"
#include "prob.hpp"

using namespace vf;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using EM = Eigen::MatrixXd;

static size_t in_use() { return slp::global_pool_resource().blocks_in_use(); }

// ---------------------------------------------------------------- R01
#if HAS(1)
/// What the entries are worth: a plain expression graph.
struct Dag {
  struct N {
    char op;
    int a, b;
    double k;
  };
  std::vector<N> n;
  std::vector<double> v;
  double calc(const N& x) const {
    switch (x.op) {
      case '+': return v[x.a] + v[x.b];
      case '-': return v[x.a] - v[x.b];
      case '*': return v[x.a] * v[x.b];
      case 's': return std::sin(v[x.a]);
      case 'n': return -v[x.a];
      default: return x.k;
    }
  }
  int put(char op, int a = -1, int b = -1, double k = 0) {
    n.push_back({op, a, b, k});
    v.push_back(calc(n.back()));
    return n.size() - 1;
  }
  void recalc() {
    for (size_t i = 0; i < n.size(); ++i) v[i] = calc(n[i]);
  }
};

struct Life {
  Rng& g;
  Dag d;
  struct Var {
    std::unique_ptr<V> s;  // on the heap: reads of a destroyed one are caught
    int id = -1;           // -1: moved from, may only be assigned or destroyed
  };
  struct Mat {
    std::unique_ptr<VM> s;
    int r = 0, c = 0;
    bool moved = false;
    std::vector<int> e;
    struct View {
      std::unique_ptr<VB> s;
      int r0, c0, h, w;
    };
    std::vector<View> views;
  };
  struct Leaf {
    V s;
    int id;
  };
  std::vector<Leaf> leaves;
  std::vector<Var> vars;
  std::vector<Mat> mats;
  struct Deriv {
    std::unique_ptr<slp::Gradient<double>> g;
    std::unique_ptr<slp::Jacobian<double>> j;
    std::unique_ptr<slp::Hessian<double, Eigen::Lower | Eigen::Upper>> h;
    bool moved = false;
    // to build it again
    std::vector<V> of;
    std::vector<V> wrt;
  };
  std::vector<Deriv> derivs;
  struct Con {
    std::unique_ptr<slp::EqualityConstraints<double>> eq;
    std::unique_ptr<slp::InequalityConstraints<double>> iq;
    std::vector<std::pair<int, int>> sides;
    bool moved = false;
  };
  std::vector<Con> cons;
  std::string log;
  bool failed = false;

  explicit Life(Rng& g) : g{g} {}

  double num() { return g.chance(0.4) ? double(g.in(-2, 2)) : std::round(g.real(-3, 3) * 64) / 64; }
  int rnd(size_t n) { return g.in(0, int(n) - 1); }

  /// A fresh scalar over the leaves and variables.
  std::pair<V, int> scalar(int depth = 2) {
    int k = g.in(0, 9);
    if (depth == 0 || k < 3) {
      if (k == 0) {
        double x = num();
        return {V{x}, d.put('k', -1, -1, x)};
      }
      if (k == 1 && !vars.empty()) {
        auto& v = vars[rnd(vars.size())];
        if (v.id >= 0 && std::fabs(d.v[v.id]) < 1e3) return {*v.s, v.id};
      }
      if (k == 2 && !mats.empty()) {
        auto& m = mats[rnd(mats.size())];
        if (!m.moved && m.r * m.c) {
          int i = rnd(m.e.size());
          if (std::fabs(d.v[m.e[i]]) < 1e3) return {(*m.s)[i / m.c, i % m.c], m.e[i]};
        }
      }
      auto& l = leaves[rnd(leaves.size())];
      return {l.s, l.id};
    }
    auto [a, ia] = scalar(depth - 1);
    if (k == 3) return {sin(a), d.put('s', ia)};
    if (k == 4) return {-a, d.put('n', ia)};
    auto [b, ib] = scalar(depth - 1);
    if (k < 7) return {a + b, d.put('+', ia, ib)};
    if (k < 8) return {a - b, d.put('-', ia, ib)};
    if (std::fabs(d.v[ia] * d.v[ib]) > 1e4) return {a, ia};
    return {a * b, d.put('*', ia, ib)};
  }
  bool near(double got, int id, const char* what) {
    double want = d.v[id];
    R.count("values compared");
    if (std::fabs(want) > 1e9 || std::fabs(got - want) <= 1e-6 * (1 + std::fabs(want))) return true;
    if (!failed) R.fail(what, fmt("got %.17g, expected %.17g after: %s", got, want, log.c_str()));
    failed = true;
    return false;
  }
  Mat fresh() {
    Mat m;
    m.r = g.chance(0.12) ? 0 : g.in(1, 4), m.c = g.chance(0.12) ? 0 : g.in(1, 4);
    if (m.r + m.c == 0 && g.chance(0.5)) m.s = std::make_unique<VM>();
    else m.s = std::make_unique<VM>(m.r, m.c);
    for (int i = 0; i < m.r * m.c; ++i) {
      auto [s, id] = scalar(1);
      if (g.chance(0.5)) (*m.s)[i / m.c, i % m.c] = s;
      else (*m.s)[i] = std::move(s);
      m.e.push_back(id);
    }
    return m;
  }
  void check_mat(Mat& m, const char* what) {
    if (m.moved) return;
    if (m.s->rows() != m.r || m.s->cols() != m.c) {
      if (!failed) R.fail(what, fmt("%dx%d instead of %dx%d after: %s", m.s->rows(), m.s->cols(), m.r, m.c, log.c_str()));
      failed = true;
      return;
    }
    if (g.chance(0.5)) {
      EM v = m.s->value();
      for (int i = 0; i < m.r * m.c && !failed; ++i) near(v(i / m.c, i % m.c), m.e[i], what);
    } else {
      int i = 0;
      for (auto& x : *m.s) {
        if (failed) return;
        near(x.value(), m.e[i++], what);
      }
    }
    for (auto& w : m.views) {
      EM v = w.s->value();
      for (int i = 0; i < w.h; ++i)
        for (int j = 0; j < w.w && !failed; ++j) near(v(i, j), m.e[(w.r0 + i) * m.c + w.c0 + j], "view of a matrix");
    }
  }
  std::vector<V> some_leaves() {
    std::vector<V> w;
    for (auto& l : leaves)
      if (g.chance(0.6)) w.push_back(l.s);
    return w;
  }
  static VM column(const std::vector<V>& w) {
    VM m(int(w.size()), 1);
    for (size_t i = 0; i < w.size(); ++i) m[i] = w[i];
    return m;
  }
  void same_matrix(const EM& a, const EM& b, const char* what) {
    if (failed) return;
    R.count("derivatives compared");
    if (a.rows() != b.rows() || a.cols() != b.cols() || (a.size() && !((a - b).array().abs() <= 1e-9 * (1 + b.array().abs())).all())) {
      if (b.size() && !(b.array().abs() < 1e9).all()) return;
      R.fail(what, fmt("an older derivative object disagrees with a new one after: %s", log.c_str()));
      failed = true;
    }
  }
  void check_deriv(Deriv& x) {
    if (x.moved) return;
    VM w = column(x.wrt);
    if (x.g) {
      EM v = x.g->value();
      slp::Gradient<double> f{x.of[0], w};
      same_matrix(v, f.value(), "gradient object");
      if (g.chance(0.3)) same_matrix(x.g->get().value(), v, "gradient object");
    } else if (x.j) {
      EM v = x.j->value();
      slp::Jacobian<double> f{column(x.of), w};
      same_matrix(v, f.value(), "jacobian object");
      if (g.chance(0.3)) same_matrix(x.j->get().value(), v, "jacobian object");
    } else {
      EM v = x.h->value();
      slp::Hessian<double, Eigen::Lower | Eigen::Upper> f{x.of[0], w};
      same_matrix(v, f.value(), "hessian object");
      if (g.chance(0.3)) same_matrix(x.h->get().value(), v, "hessian object");
    }
  }
  void check_con(Con& c) {
    if (c.moved) return;
    bool want = true, clear = true;
    for (auto [a, b] : c.sides) {
      double x = d.v[a] - d.v[b];
      if (std::fabs(x) > 1e9 || (std::fabs(x) < 1e-6 && (!c.eq || x != 0))) clear = false;
      want = want && (c.eq ? x == 0 : x >= 0);
    }
    bool got = c.eq ? bool(*c.eq) : bool(*c.iq);
    if (clear && c.iq) {
      R.count("constraints compared");
      if (got != want && !failed) {
        failed = true;
        R.fail("constraint", "constraint has another truth value after: " + log);
      }
    }
  }

  void step() {
    int k = g.in(0, 31);
    switch (k) {
      case 0: case 1: {
        auto [s, id] = scalar();
        vars.push_back({std::make_unique<V>(g.chance(0.5) ? V{s} : V{std::move(s)}), id});
        log += "new variable; ";
        break;
      }
      case 2: case 3: case 4: {  // assign one variable to another (or itself)
        if (vars.empty()) break;
        int i = rnd(vars.size()), j = rnd(vars.size());
        if (vars[j].id < 0) break;
        if (g.chance(0.5) || i == j) {
          *vars[i].s = *vars[j].s;
          vars[i].id = vars[j].id;
          log += i == j ? "self-assignment; " : "copy assignment; ";
        } else {
          *vars[i].s = std::move(*vars[j].s);
          vars[i].id = std::exchange(vars[j].id, -1);
          log += "move assignment; ";
        }
        break;
      }
      case 5: {
        if (vars.empty()) break;
        int i = rnd(vars.size());
        auto [s, id] = scalar();
        *vars[i].s = s;
        vars[i].id = id;
        log += "expression assigned; ";
        break;
      }
      case 6: {
        if (vars.empty()) break;
        int i = rnd(vars.size());
        double x = num();
        if (vars[i].id >= 0 && g.chance(0.5)) vars[i].s->value();
        *vars[i].s = x;
        vars[i].id = d.put('k', -1, -1, x);
        log += "number assigned; ";
        break;
      }
      case 7: {
        if (vars.empty()) break;
        int i = rnd(vars.size());
        vars[i] = std::move(vars.back());
        vars.pop_back();
        log += "variable destroyed; ";
        break;
      }
      case 8: {  // compound, also with itself
        if (vars.size() < 1) break;
        int i = rnd(vars.size()), j = rnd(vars.size());
        if (vars[i].id < 0 || vars[j].id < 0) break;
        int a = vars[i].id, b = vars[j].id;
        if (g.chance(0.5) || std::fabs(d.v[a] * d.v[b]) > 1e4) {
          *vars[i].s += *vars[j].s;
          vars[i].id = d.put('+', a, b);
        } else {
          *vars[i].s *= *vars[j].s;
          vars[i].id = d.put('*', a, b);
        }
        log += i == j ? "compound with itself; " : "compound; ";
        break;
      }
      case 9: {
        if (vars.size() < 2) break;
        int i = rnd(vars.size()), j = rnd(vars.size());
        if (i == j) break;
        std::swap(*vars[i].s, *vars[j].s);
        std::swap(vars[i].id, vars[j].id);
        log += "swap; ";
        break;
      }
      case 10: case 11: {
        mats.push_back(fresh());
        log += fmt("new %dx%d matrix; ", mats.back().r, mats.back().c);
        break;
      }
      case 12: case 13: {  // copy or move a matrix into another
        if (mats.size() < 1) break;
        int i = rnd(mats.size()), j = rnd(mats.size());
        auto &a = mats[i], &b = mats[j];
        if (b.moved) break;
        if (i == j) {
          if (!a.views.empty()) break;
          *a.s = *b.s;
          log += "matrix self-assignment; ";
          break;
        }
        a.views.clear();
        if (g.chance(0.5)) {
          *a.s = *b.s;
          a.e = b.e;
          log += "matrix copied; ";
        } else {
          b.views.clear();
          *a.s = std::move(*b.s);
          a.e = std::move(b.e);
          b.moved = true;
          log += "matrix moved; ";
        }
        a.r = b.r, a.c = b.c, a.moved = false;
        break;
      }
      case 14: {  // constructed from another
        if (mats.empty()) break;
        auto& b = mats[rnd(mats.size())];
        if (b.moved) break;
        Mat a;
        a.r = b.r, a.c = b.c, a.e = b.e;
        if (g.chance(0.5)) {
          a.s = std::make_unique<VM>(*b.s);
        } else {
          b.views.clear();
          a.s = std::make_unique<VM>(std::move(*b.s));
          b.moved = true;
        }
        mats.push_back(std::move(a));
        log += "matrix constructed from another; ";
        break;
      }
      case 15: {
        if (mats.empty()) break;
        int i = rnd(mats.size());
        mats[i].views.clear();
        mats[i] = std::move(mats.back());
        mats.pop_back();
        log += "matrix destroyed; ";
        break;
      }
      case 16: case 17: {  // views
        if (mats.empty()) break;
        auto& m = mats[rnd(mats.size())];
        if (m.moved) break;
        int h = g.in(0, m.r), w = g.in(0, m.c), r0 = g.in(0, m.r - h), c0 = g.in(0, m.c - w);
        std::unique_ptr<VB> b;
        if (g.chance(0.3) && !m.views.empty()) {
          auto& o = m.views[rnd(m.views.size())];
          b = std::make_unique<VB>(*o.s);
          r0 = o.r0, c0 = o.c0, h = o.h, w = o.w;
        } else if (h == 0 || w == 0 || g.chance(0.5)) {
          b = std::make_unique<VB>(m.s->block(r0, c0, h, w));
        } else {
          b = std::make_unique<VB>((*m.s)[slp::Slice{r0, r0 + h}, slp::Slice{c0, c0 + w}]);
        }
        m.views.push_back({std::move(b), r0, c0, h, w});
        log += fmt("%dx%d view; ", h, w);
        break;
      }
      case 18: {  // drop a view
        if (mats.empty()) break;
        auto& m = mats[rnd(mats.size())];
        if (m.views.empty()) break;
        m.views.erase(m.views.begin() + rnd(m.views.size()));
        break;
      }
      case 19: {  // write through a view
        if (mats.empty()) break;
        auto& m = mats[rnd(mats.size())];
        if (m.moved || m.views.empty()) break;
        auto& w = m.views[rnd(m.views.size())];
        auto id = [&](int i, int j) -> int& { return m.e[(w.r0 + i) * m.c + w.c0 + j]; };
        switch (g.in(0, 3)) {
          case 0: {
            double x = num();
            if (w.h != 1 || w.w != 1) break;
            *w.s = x;
            for (int i = 0; i < w.h; ++i)
              for (int j = 0; j < w.w; ++j) id(i, j) = d.put('k', -1, -1, x);
            break;
          }
          case 1: {
            VM t = VM{*w.s} + VM{*w.s};
            *w.s = t;
            for (int i = 0; i < w.h; ++i)
              for (int j = 0; j < w.w; ++j) id(i, j) = d.put('+', id(i, j), id(i, j));
            break;
          }
          case 2: {
            *w.s += *w.s;
            for (int i = 0; i < w.h; ++i)
              for (int j = 0; j < w.w; ++j) id(i, j) = d.put('+', id(i, j), id(i, j));
            break;
          }
          default: {
            EM t(w.h, w.w);
            for (int i = 0; i < w.h; ++i)
              for (int j = 0; j < w.w; ++j) t(i, j) = num(), id(i, j) = d.put('k', -1, -1, t(i, j));
            *w.s = t;
          }
        }
        log += "written through a view; ";
        break;
      }
      case 20: case 21: {  // matrix operations, empty operands included
        if (mats.empty()) break;
        auto &a = mats[rnd(mats.size())], &b = mats[rnd(mats.size())];
        if (a.moved || b.moved) break;
        Mat o;
        switch (g.in(0, 5)) {
          case 0:
            o.s = std::make_unique<VM>(a.s->T());
            o.r = a.c, o.c = a.r;
            for (int i = 0; i < o.r * o.c; ++i) o.e.push_back(a.e[(i % o.c) * a.c + i / o.c]);
            break;
          case 1:
            if (a.r != b.r || a.c != b.c) return;
            o.s = std::make_unique<VM>(*a.s + *b.s);
            o.r = a.r, o.c = a.c;
            for (int i = 0; i < o.r * o.c; ++i) o.e.push_back(d.put('+', a.e[i], b.e[i]));
            break;
          case 2: {
            if (a.c != b.r) return;
            for (int i : a.e) if (std::fabs(d.v[i]) > 1e3) return;
            for (int i : b.e) if (std::fabs(d.v[i]) > 1e3) return;
            o.s = std::make_unique<VM>(*a.s * *b.s);
            o.r = a.r, o.c = b.c;
            for (int i = 0; i < o.r; ++i)
              for (int j = 0; j < o.c; ++j) {
                int s = d.put('k', -1, -1, 0);
                for (int l = 0; l < a.c; ++l) s = d.put('+', s, d.put('*', a.e[i * a.c + l], b.e[l * b.c + j]));
                o.e.push_back(s);
              }
            break;
          }
          case 3:
            o.s = std::make_unique<VM>(-*a.s);
            o.r = a.r, o.c = a.c;
            for (int i : a.e) o.e.push_back(d.put('n', i));
            break;
          case 4: {
            o.s = std::make_unique<VM>(a.s->cwise_transform([](const V& x) { return sin(x); }));
            o.r = a.r, o.c = a.c;
            for (int i : a.e) o.e.push_back(d.put('s', i));
            break;
          }
          default: {  // joined
            if (a.r != b.r) return;
            if (a.r == 0) return;
            o.s = std::make_unique<VM>(slp::block<double>({{*a.s, *b.s}}));
            o.r = a.r, o.c = a.c + b.c;
            for (int i = 0; i < o.r; ++i)
              for (int j = 0; j < o.c; ++j) o.e.push_back(j < a.c ? a.e[i * a.c + j] : b.e[i * b.c + j - a.c]);
          }
        }
        if (o.e.size() == 0) R.count("empty results");
        mats.push_back(std::move(o));
        log += "matrix operation; ";
        break;
      }
      case 22: {  // element written
        if (mats.empty()) break;
        auto& m = mats[rnd(mats.size())];
        if (m.moved || m.e.empty()) break;
        int i = rnd(m.e.size());
        auto [s, id] = scalar();
        (*m.s)[i / m.c, i % m.c] = std::move(s);
        m.e[i] = id;
        log += "element assigned; ";
        break;
      }
      case 23: {  // derivative objects
        Deriv x;
        x.wrt = some_leaves();
        VM w = column(x.wrt);
        int kind = g.in(0, 2);
        int n = kind == 1 ? g.in(0, 4) : 1;
        for (int i = 0; i < n; ++i) x.of.push_back(scalar(3).first);
        if (kind == 0) x.g = std::make_unique<slp::Gradient<double>>(x.of[0], w);
        if (kind == 1) x.j = std::make_unique<slp::Jacobian<double>>(column(x.of), w);
        if (kind == 2) x.h = std::make_unique<slp::Hessian<double, Eigen::Lower | Eigen::Upper>>(x.of[0], w);
        if (n == 0 || x.wrt.empty()) R.count("empty derivatives");
        derivs.push_back(std::move(x));
        log += fmt("derivative object %d (%d by %zu); ", kind, n, derivs.back().wrt.size());
        break;
      }
      case 24: {  // copied, moved or destroyed
        if (derivs.empty()) break;
        auto& x = derivs[rnd(derivs.size())];
        if (x.moved || g.chance(0.3)) {
          x = std::move(derivs.back());
          derivs.pop_back();
          log += "derivative destroyed; ";
          break;
        }
        Deriv y;
        y.of = x.of, y.wrt = x.wrt;
        bool copy = g.chance(0.5);
        if (x.g) y.g = copy ? std::make_unique<slp::Gradient<double>>(*x.g) : std::make_unique<slp::Gradient<double>>(std::move(*x.g));
        if (x.j) y.j = copy ? std::make_unique<slp::Jacobian<double>>(*x.j) : std::make_unique<slp::Jacobian<double>>(std::move(*x.j));
        if (x.h) {
          using H = slp::Hessian<double, Eigen::Lower | Eigen::Upper>;
          y.h = copy ? std::make_unique<H>(*x.h) : std::make_unique<H>(std::move(*x.h));
        }
        x.moved = !copy;
        derivs.push_back(std::move(y));
        log += copy ? "derivative copied; " : "derivative moved; ";
        break;
      }
      case 25: {
        Con c;
        bool eq = g.chance(0.5);
        int n = g.in(1, 3);
        VM a(n, 1), b(n, 1);
        for (int i = 0; i < n; ++i) {
          auto [s, is] = scalar();
          auto [t, it] = scalar();
          a[i] = s, b[i] = t;
          c.sides.push_back({is, it});
        }
        if (eq) c.eq = std::make_unique<slp::EqualityConstraints<double>>(a == b);
        else c.iq = std::make_unique<slp::InequalityConstraints<double>>(a >= b);
        cons.push_back(std::move(c));
        log += "constraint; ";
        break;
      }
      case 26: {
        if (cons.empty()) break;
        auto &a = cons[rnd(cons.size())], &b = cons[rnd(cons.size())];
        if (&a == &b || b.moved || !a.eq != !b.eq || g.chance(0.2)) {
          if (&a != &cons.back()) a = std::move(cons.back());
          cons.pop_back();
          log += "constraint destroyed; ";
        } else {
          bool copy = g.chance(0.5);
          if (a.eq) copy ? *a.eq = *b.eq : *a.eq = std::move(*b.eq);
          else copy ? *a.iq = *b.iq : *a.iq = std::move(*b.iq);
          a.sides = b.sides, a.moved = false;
          b.moved = !copy;
          log += "constraint assigned; ";
        }
        break;
      }
      case 27: case 28: {
        for (auto& l : leaves)
          if (g.chance(0.6)) {
            double x = num();
            d.n[l.id].k = x;
            l.s.set_value(x);
          }
        d.recalc();
        log += "leaves change; ";
        break;
      }
      case 29: {  // a leaf's handle is replaced; the old one lives on in expressions
        auto& l = leaves[rnd(leaves.size())];
        double x = num();
        l.s = V{};
        l.s.set_value(x);
        l.id = d.put('l', -1, -1, x);
        log += "leaf replaced; ";
        break;
      }
      default: check();
    }
  }
  void check() {
    for (auto& v : vars)
      if (v.id >= 0 && g.chance(0.5) && !near(v.s->value(), v.id, "variable")) return;
    for (auto& m : mats)
      if (g.chance(0.5)) check_mat(m, "matrix");
    for (auto& x : derivs)
      if (g.chance(0.5)) check_deriv(x);
    for (auto& c : cons)
      if (g.chance(0.5)) check_con(c);
    log += "checked; ";
  }
};

static void lifetimes(Rng& g) {
  Life w{g};
  int nl = g.in(1, 4);
  for (int i = 0; i < nl; ++i) {
    double x = w.num();
    V l;
    l.set_value(x);
    w.leaves.push_back({l, w.d.put('l', -1, -1, x)});
  }
  int n = g.in(5, 60);
  for (int i = 0; i < n && !w.failed; ++i) w.step();
  w.check();
  R.count("operations", n);
  R.nontrivial(hash_str(w.log));
  R.sample(w.log);
  // everything goes, in any order
  int ord[5] = {0, 1, 2, 3, 4};
  for (int i = 4; i > 0; --i) std::swap(ord[i], ord[g.in(0, i)]);
  for (int o : ord) {
    if (o == 0) w.vars.clear();
    if (o == 1) for (auto& m : w.mats) m.views.clear();
    if (o == 1) w.mats.clear();
    if (o == 2) w.derivs.clear();
    if (o == 3) w.cons.clear();
    if (o == 4) w.leaves.clear();
    if (!w.failed && g.chance(0.5)) w.check();
  }
}

struct Oops {
  int id;
};

/// Problems with callbacks that throw, moved around between solves.
static void problems(Rng& g) {
  Prob q = g.chance(0.6) ? gen_convex(g, 5).q : gen_nonconvex(g, 4);
  uint64_t bs = g.next();
  Rng b1{bs}, b2{bs};
  auto w = build(b1, q);
  auto fresh = build(b2, q);
  int calls = 0, throw_at = -1;
  auto token = std::make_shared<int>(7);
  int kinds = g.in(0, 2);
  auto cb = [&, token](const slp::IterationInfo<double>& i) {
    if (*token != 7 || !i.x.size()) std::abort();
    if (calls++ == throw_at) throw Oops{calls};
  };
  if (kinds != 1) w->p.add_callback([cb](const slp::IterationInfo<double>& i) { cb(i); });
  if (kinds != 0) w->p.add_persistent_callback([cb](const slp::IterationInfo<double>& i) { cb(i); return false; });
  if (kinds == 2) w->p.add_callback([cb](const slp::IterationInfo<double>& i) { cb(i); return false; });
  slp::Options o;
  o.max_iterations = 60;
  o.feasible_ipm = g.chance(0.2);
  fresh->set(q.x0);
  auto s0 = fresh->p.solve(o);
  DVec x0 = fresh->get();
  int thrown = 0;
  // move-constructed problems own what they need
  std::unique_ptr<slp::Problem<double>> p = std::make_unique<slp::Problem<double>>(std::move(w->p));
  for (int round = g.in(1, 4); round > 0; --round) {
    if (g.chance(0.4)) p = std::make_unique<slp::Problem<double>>(std::move(*p));
    if (g.chance(0.2)) {
      slp::Problem<double> t = std::move(*p);
      *p = std::move(t);
    }
    calls = 0, throw_at = g.chance(0.7) ? g.in(0, 25) : -1;
    for (size_t i = 0; i < w->x.size(); ++i) w->x[i].set_value(q.x0[i]);
    bool threw = false;
    slp::ExitStatus s{};
    try {
      s = p->solve(o);
    } catch (const Oops& e) {
      threw = true, ++thrown;
      VF_CHECK(e.id == throw_at + 1, "exception changed", "exception of call %d arrives as %d", throw_at + 1, e.id);
    }
    VF_CHECK(threw == (throw_at >= 0 && calls > throw_at), "exception lost", "call %d of %d was to throw, but %s", throw_at, calls, threw ? "an exception arrived" : "none arrived");
    if (!threw) {
      DVec x = w->get();
      VF_CHECK(s == s0 && std::memcmp(x.data(), x0.data(), 8 * x.size()) == 0, "result after an exception", "status %d instead of %d, or another point, after %d exceptions", int(s), int(s0), thrown);
      R.count("solves after exceptions", thrown > 0);
    }
  }
  if (g.chance(0.3)) p->clear_callbacks();
  R.count("exceptions", thrown);
  R.count("problems");
  // the problem or its variables go first
  if (g.chance(0.5)) {
    w->x.clear();
    throw_at = -1;
    calls = 0;
    p->solve(o);
    p.reset();
  } else {
    p.reset();
    w->get();
    w->x.clear();
  }
  VF_CHECK(token.use_count() <= 2, "callback kept", "%ld owners of the callback's data after its problem is gone", token.use_count());
  R.nontrivial(bs);
}

/// Optimal control problems whose dynamics are temporary or throw.
static void control(Rng& g) {
  int n = g.in(1, 3), m = g.in(1, 2), N = g.in(1, 6);
  auto tr = std::vector{slp::TranscriptionMethod::DIRECT_TRANSCRIPTION, slp::TranscriptionMethod::DIRECT_COLLOCATION, slp::TranscriptionMethod::SINGLE_SHOOTING}[g.in(0, 2)];
  auto ts = std::vector{slp::TimestepMethod::FIXED, slp::TimestepMethod::VARIABLE, slp::TimestepMethod::VARIABLE_SINGLE}[g.in(0, 2)];
  int throw_at = g.chance(0.5) ? g.in(0, 20) : -1, calls = 0;
  std::vector<double> a(n * n), b(n * m);
  for (auto& x : a) x = g.in(-4, 4) / 8.0;
  for (auto& x : b) x = g.in(-4, 4) / 4.0;
  auto token = std::make_unique<std::vector<double>>(b);
  auto dyn = [&, tk = token.get()](const VM& x, const VM& u) {
    if (calls++ == throw_at) throw Oops{calls};
    VM r(n, 1);
    for (int i = 0; i < n; ++i) {
      V s = sin(x[i]) * a[i * n];
      for (int j = 0; j < n; ++j) s = s + a[i * n + j] * x[j];
      for (int j = 0; j < m; ++j) s += (*tk)[i * m + j] * u[j];
      r[i] = s;
    }
    return r;
  };
  std::unique_ptr<slp::OCP<double>> p;
  bool threw = false;
  try {
    if (g.chance(0.5)) {  // a temporary callable
      p = std::make_unique<slp::OCP<double>>(n, m, std::chrono::duration<double>{0.1}, N, decltype(dyn){dyn}, slp::DynamicsType::EXPLICIT_ODE, ts, tr);
    } else {
      p = std::make_unique<slp::OCP<double>>(n, m, std::chrono::duration<double>{0.1}, N, dyn, slp::DynamicsType::EXPLICIT_ODE, ts, tr);
    }
  } catch (const Oops& e) {
    threw = true;
    VF_CHECK(e.id == throw_at + 1, "exception changed", "exception of call %d arrives as %d", throw_at + 1, e.id);
  }
  R.count("control problems");
  R.nontrivial(mix(g.s) ^ n ^ N << 4);
  VF_CHECK(threw == (throw_at >= 0 && calls > throw_at), "exception lost", "call %d of %d was to throw", throw_at, calls);
  if (threw) {
    R.count("exceptions from dynamics");
    return;
  }
  int steps = 0;
  auto each = [&](const VM& x, const VM& u) {
    if (steps++ == throw_at) throw Oops{steps};
    p->subject_to(u <= 1.0);
    p->subject_to(u >= -1.0);
    (void)x;
  };
  p->constrain_initial_state(EM::Zero(n, 1));
  try {
    p->for_each_step([&](const VM& x, const VM& u) { each(x, u); });
  } catch (const Oops& e) {
    R.count("exceptions from step constraints");
  }
  if (ts != slp::TimestepMethod::FIXED) p->set_min_timestep(std::chrono::duration<double>{0.05}), p->set_max_timestep(std::chrono::duration<double>{0.2});
  VM X = p->X(), U = p->U();
  V cost = 0.0;
  for (int k = 0; k <= N; ++k) {
    for (int i = 0; i < n; ++i) cost += pow(X[i, k] - 1, 2);
    for (int i = 0; i < m; ++i) cost += 0.1 * pow(U[i, k], 2);
  }
  p->minimize(cost);
  slp::Options o;
  o.max_iterations = 40;
  if (g.chance(0.5)) {
    auto q = std::make_unique<slp::OCP<double>>(std::move(*p));
    p = std::move(q);
  }
  if (g.chance(0.4)) {
    int at = g.in(0, 8), c = 0;
    p->add_callback([&](const slp::IterationInfo<double>&) {
      if (c++ == at) throw Oops{c};
    });
    try {
      p->solve(o);
    } catch (const Oops&) {
      R.count("exceptions from callbacks");
    }
    p->clear_callbacks();
  }
  token.reset();  // the dynamics are not called any more
  p->solve(o);
  R.count("control problems solved");
  if (g.chance(0.5)) {
    p.reset();
    X.value(), U.value();
  }
}

/// Empty and tiny problems, constraints without elements.
static void degenerate(Rng& g) {
  slp::Problem<double> p;
  slp::Options o;
  o.max_iterations = 20;
  VM x = p.decision_variable(g.in(0, 2), g.in(0, 2));
  std::string d = fmt("%dx%d variables", x.rows(), x.cols());
  int parts = g.in(0, 31);
  V c = 1.0;
  for (auto& e : x) c += pow(e - 2, 2);
  if (parts & 1) p.minimize(c);
  if (parts & 2) p.subject_to(c >= 0.5);
  if (parts & 4 && x.rows() * x.cols()) p.subject_to(x >= EM::Constant(x.rows(), x.cols(), -1));
  if (parts & 8 && x.rows() * x.cols()) p.subject_to(x[0] == 1);
  slp::EqualityConstraints<double> none{std::initializer_list<slp::EqualityConstraints<double>>{}};
  if (parts & 16) p.subject_to(none);
  p.solve(o);
  p.solve(o);
  slp::Problem<double> q = std::move(p);
  q.solve(o);
  R.count("degenerate problems");
  R.nontrivial(hash_str(d) ^ parts);
  // matrices without elements
  VM e0, e1(0, g.in(0, 3)), e2(g.in(0, 3), 0);
  for (VM* e : {&e0, &e1, &e2}) {
    if (e->rows() * e->cols()) continue;
    VM t = e->T();
    VM n = -*e;
    VM s = *e + *e;
    VM z = *e * t;
    EM v = e->value();
    VF_CHECK(v.rows() == e->rows() && v.cols() == e->cols() && z.rows() == e->rows() && t.rows() == e->cols(), "empty shapes", "%dx%d", e->rows(), e->cols());
    for (auto& it : *e) it.value();
    auto b = e->block(0, 0, e->rows(), e->cols());
    b.value();
    VM c2{b};
    for (auto& it : b) it.value();
    *e = s;
    s = std::move(n);
    EM zv = z.value();
    VF_CHECK(zv.size() == 0 || zv.isZero(), "empty product", "not zero");
    V y;
    VM y1(1, 1);
    y1[0] = y;
    slp::Jacobian<double> j{VM(0, 1), y1};
    j.value();
    j.get();
    slp::Gradient<double> gr{y, VM(0, 1)};
    gr.value();
    slp::Hessian<double, Eigen::Lower> h{y * y, VM(0, 1)};
    h.value();
    h.get();
  }
}
#endif

// ---------------------------------------------------------------- R02
#if HAS(2)
/// Histories of blocks of any size from pools of any chunk size.
static void blocks(Rng& g) {
#ifdef SLEIPNIR_VERIF_HOOKS
  pool_watch().poison = false;
#endif
  struct B {
    unsigned char* p;
    size_t n;
    unsigned char fill;
  };
  auto pool = std::make_unique<slp::PoolResource>(g.in(1, 9));
  std::vector<B> live;
  std::vector<size_t> sizes;
  for (int i = g.in(1, 6); i > 0; --i) sizes.push_back(g.chance(0.6) ? 8 * g.in(1, 24) : g.in(1, 200));
  int n = g.in(5, 200);
  double grow = g.real(0.3, 0.7);
  unsigned char next = 1;
  uint64_t h = 0;
  std::map<uintptr_t, size_t> used;
  for (int i = 0; i < n; ++i) {
    if (i % 50 == 49) grow = 1 - grow;
    if (live.empty() || g.chance(grow)) {
      size_t sz = g.pick(sizes);
      B b{nullptr, sz, next++};
      if (g.chance(0.5)) b.p = static_cast<unsigned char*>(pool->allocate(sz));
      else b.p = slp::PoolAllocator<unsigned char>{pool.get()}.allocate(sz);
      auto a = reinterpret_cast<uintptr_t>(b.p);
      auto it = used.lower_bound(a);
      bool over = (it != used.end() && it->first < a + sz) || (it != used.begin() && std::prev(it)->first + std::prev(it)->second > a);
      VF_CHECK(!over, "blocks overlap", "a block of %zu bytes overlaps one in use", sz);
      used[a] = sz;
      std::memset(b.p, b.fill, sz);
      live.push_back(b);
      h = mix(h ^ sz);
    } else {
      int k = g.in(0, live.size() - 1);
      auto b = live[k];
      for (size_t j = 0; j < b.n; ++j) VF_CHECK(b.p[j] == b.fill, "block changed", "byte %zu of a block of %zu bytes changed while in use", j, b.n);
      if (g.chance(0.5)) pool->deallocate(b.p, b.n);
      else slp::PoolAllocator<unsigned char>{pool.get()}.deallocate(b.p, b.n);
      used.erase(reinterpret_cast<uintptr_t>(b.p));
      live[k] = live.back();
      live.pop_back();
      h = mix(h ^ k);
    }
    if (g.chance(0.05)) {
      pool = std::make_unique<slp::PoolResource>(std::move(*pool));
      R.count("pools moved");
    }
    VF_CHECK(pool->blocks_in_use() == live.size(), "blocks in use", "%zu reported, %zu live", pool->blocks_in_use(), live.size());
    R.count("pool states checked");
  }
  VF_CHECK(pool->is_equal(*pool), "pool equality", "a pool is not equal to itself");
  R.nontrivial(h);
  R.sample(fmt("%d operations, %zu sizes", n, sizes.size()));
#ifdef SLEIPNIR_VERIF_HOOKS
  // this pool's memory is going away
  for (auto& b : live) pool_watch().live.erase(reinterpret_cast<uintptr_t>(b.p));
  pool_watch().poison = true;
#endif
}

/// A program over scalars of one type with derivative objects, evaluated and
/// partly destroyed; the count of blocks depends only on what is still alive.
template <typename S>
struct Prog {
  using W = slp::Variable<S>;
  using M = slp::VariableMatrix<S>;
  Program p;
  std::vector<W> nodes;
  std::vector<std::optional<W>> leaves;
  std::vector<char> held;
  struct Der {
    int kind;  // gradient, Jacobian, Hessian, lower Hessian; +4: its get()
    std::vector<int> of, wrt;
    std::optional<slp::Gradient<S>> g;
    std::optional<slp::Jacobian<S>> j;
    std::optional<slp::Hessian<S, Eigen::Lower | Eigen::Upper>> h;
    std::optional<slp::Hessian<S, Eigen::Lower>> l;
    std::optional<M> m;
    bool live = true;
  };
  std::deque<Der> ders;
  M list(const std::vector<int>& v) {
    M m(int(v.size()), 1);
    for (size_t i = 0; i < v.size(); ++i) m[i] = nodes[v[i]];
    return m;
  }
  void make(Der& d) {
    M w = list(d.wrt);
    M got(0, 0);
    switch (d.kind % 4) {
      case 0:
        d.g.emplace(nodes[d.of[0]], w);
        if (d.kind >= 4) d.m = d.g->get(), d.g.reset();
        break;
      case 1:
        d.j.emplace(list(d.of), w);
        if (d.kind >= 4) d.m = d.j->get(), d.j.reset();
        break;
      case 2:
        d.h.emplace(nodes[d.of[0]], w);
        if (d.kind >= 4) d.m = d.h->get(), d.h.reset();
        break;
      default:
        d.l.emplace(nodes[d.of[0]], w);
        if (d.kind >= 4) d.m = d.l->get(), d.l.reset();
    }
  }
  void eval(Der& d) {
    if (d.g) d.g->value();
    if (d.j) d.j->value();
    if (d.h) d.h->value();
    if (d.l) d.l->value();
    if (d.m) d.m->value();
  }
  void drop(Der& d) {
    d.g.reset(), d.j.reset(), d.h.reset(), d.l.reset(), d.m.reset();
    d.live = false;
  }
  void build(const std::vector<double>& x, const std::vector<char>& need) {
    leaves.resize(p.nvars);
    nodes.assign(p.nodes.size(), W{nullptr});
    for (size_t i = 0; i < p.nodes.size(); ++i) {
      if (!need[i]) continue;
      auto& n = p.nodes[i];
      if (n.op == VAR) {
        if (!leaves[n.a]) {
          leaves[n.a].emplace();
          leaves[n.a]->set_value(S(x[n.a]));
        }
        nodes[i] = *leaves[n.a];
      } else {
        nodes[i] = build_node<W, S>(n, nodes);
      }
    }
  }
  void forget_unheld() {
    for (size_t i = 0; i < nodes.size(); ++i)
      if (!held[i]) nodes[i] = W{nullptr};
    for (auto& l : leaves) l.reset();
  }
};

static int arity(const Node& n) {
  switch (n.op) {
    case VAR: case CONST: return 0;
    case HYPOT3: return 3;
    case ADD: case SUB: case MUL: case DIV: case ATAN2: case HYPOT: case MAX: case MIN: case POW: case ADD_EQ: case SUB_EQ: case MUL_EQ: case DIV_EQ: return 2;
    default: return 1;
  }
}

template <typename S>
static void conserved_t(Rng& g, const char* type) {
  size_t base = in_use();
  {
    Prog<S> a;
    int nv = g.in(1, 3);
    auto pts = random_points(g, nv, 3);
    Style st = g.chance(0.3) ? poly_style() : smooth_style();
    a.p = random_program(g, nv, g.in(2, 20), st, pts);
    size_t n = a.p.nodes.size();
    std::vector<char> all(n, 1);
    a.build(pts[0], all);
    a.held.assign(n, 1);
    std::string log = a.p.text() + ": ";
    int steps = g.in(3, 14);
    for (int s = 0; s < steps; ++s) {
      int i = g.in(0, n - 1);
      switch (g.in(0, 6)) {
        case 0:
          for (int l = 0; l < nv; ++l) a.leaves[l]->set_value(S(g.pick(pts)[l]));
          break;
        case 1:
          if (a.held[i]) a.nodes[i].value(), log += fmt("value %d; ", i);
          break;
        case 2: case 3: {
          typename Prog<S>::Der d;
          d.kind = g.in(0, 7);
          int k = d.kind % 4 == 1 ? g.in(1, 3) : 1;
          for (int j = 0; j < k; ++j) {
            int o = g.in(0, n - 1);
            if (a.held[o]) d.of.push_back(o);
          }
          for (size_t j = 0; j < n; ++j)
            if (a.p.nodes[j].op == VAR && a.held[j] && g.chance(0.7)) {
              bool dup = false;
              for (int o : d.wrt) dup = dup || a.p.nodes[o].a == a.p.nodes[j].a;
              if (!dup) d.wrt.push_back(j);
            }
          if (d.of.empty() || d.wrt.empty()) break;
          a.ders.push_back(std::move(d));
          a.make(a.ders.back());
          log += fmt("derivative %d of %d; ", a.ders.back().kind, a.ders.back().of[0]);
          break;
        }
        case 4:
          if (!a.ders.empty()) {
            auto& d = a.ders[g.in(0, a.ders.size() - 1)];
            size_t before = in_use();
            a.eval(d);
            VF_CHECK(in_use() == before, "evaluation leaks", "%s: %zu blocks in use before, %zu after a value() of derivative kind %d: %s", type, before, in_use(), d.kind, log.c_str());
            R.count("evaluations counted");
          }
          break;
        case 5:
          if (!a.ders.empty()) a.drop(a.ders[g.in(0, a.ders.size() - 1)]), log += "dropped; ";
          break;
        default:
          if (g.chance(0.6) && a.p.nodes[i].op != VAR) a.nodes[i] = slp::Variable<S>{nullptr}, a.held[i] = 0, log += fmt("forget %d; ", i);
      }
    }
    if (g.chance(0.5))
      for (size_t i = 0; i < n; ++i)
        if (g.chance(0.5)) a.held[i] = 0;
    a.forget_unheld();
    size_t mine = in_use() - base;
    // the same, built from nothing
    size_t before = in_use();
    Prog<S> b;
    b.p = a.p;
    b.held = a.held;
    std::vector<char> need = a.held;
    for (auto& d : a.ders)
      if (d.live) {
        for (int o : d.of) need[o] = 1;
        for (int o : d.wrt) need[o] = 1;
      }
    for (size_t i = n; i-- > 0;)
      if (need[i]) {
        auto& x = a.p.nodes[i];
        int ar = arity(x);
        if (ar > 0) need[x.a] = 1;
        if (ar > 1) need[x.b] = 1;
        if (ar > 2) need[x.c] = 1;
      }
    b.build(pts[0], need);
    for (auto& d : a.ders)
      if (d.live) {
        typename Prog<S>::Der e;
        e.kind = d.kind, e.of = d.of, e.wrt = d.wrt;
        b.ders.push_back(std::move(e));
        b.make(b.ders.back());
      }
    b.forget_unheld();
    size_t again = in_use() - before;
    VF_CHECK(mine == again, "blocks kept", "%s: %zu blocks in use where building the same objects takes %zu: %s", type, mine, again, log.c_str());
    R.count("block counts compared");
    R.maximum("blocks", again);
    R.nontrivial(hash_str(log) ^ sizeof(S));
    R.sample(log);
    // go in a random order
    if (g.chance(0.5)) a.ders.clear();
    if (g.chance(0.5)) a.nodes.clear();
    if (g.chance(0.5)) b.nodes.clear();
  }
  VF_CHECK(in_use() == base, "leak", "%s: %zu blocks in use after all objects are gone, %zu before", type, in_use(), base);
}
static void conserved(Rng& g) {
  switch (g.in(0, 5)) {
    case 0: conserved_t<float>(g, "float"); break;
    case 1: conserved_t<long double>(g, "long double"); break;
    default: conserved_t<double>(g, "double");
  }
}

/// Scalars of several sizes alive together.
template <typename S>
struct Typed {
  std::vector<std::pair<slp::Variable<S>, std::vector<long double>>> v;  // with d/dleaf.. value only
  std::vector<slp::Variable<S>> leaf;
  std::vector<long double> x;
};
template <typename S>
static bool typed_step(Rng& g, Typed<S>& t, const char* name) {
  using W = slp::Variable<S>;
  if (t.leaf.empty() || g.chance(0.05)) {
    W l;
    long double x = g.in(-16, 16) / 8.0L;
    l.set_value(S(x));
    t.leaf.push_back(l);
    t.x.push_back(x);
    t.v.push_back({l, {x, 0}});
    return true;
  }
  int k = g.in(0, 5);
  auto& a = t.v[g.in(0, t.v.size() - 1)];
  auto& b = t.v[g.in(0, t.v.size() - 1)];
  long double r = 0, e = 0;  // value and bound of the rounding error
  long double va = a.second[0], vb = b.second[0], ea = a.second[1], eb = b.second[1];
  W w{nullptr};
  switch (k) {
    case 0: r = va + vb, e = ea + eb, w = a.first + b.first; break;
    case 1: r = va * vb, e = std::fabs(va) * eb + std::fabs(vb) * ea + ea * eb, w = a.first * b.first; break;
    case 2: r = va - vb, e = ea + eb, w = a.first - b.first; break;
    case 3: r = std::sin(va), e = ea, w = sin(a.first); break;
    case 4: {  // forget
      if (t.v.size() > 3) t.v.erase(t.v.begin() + g.in(0, t.v.size() - 1));
      return true;
    }
    default: {  // a gradient on the way
      slp::Gradient<S> d{a.first * a.first, t.leaf[0]};
      d.value();
      return true;
    }
  }
  e += 8 * (long double)std::numeric_limits<S>::epsilon() * (1 + std::fabs(r));
  if (std::fabs(r) > 50 || e > 1e-3L) return true;
  t.v.push_back({w, {r, e}});
  auto& c = t.v[g.in(0, t.v.size() - 1)];
  S got = c.first.value();
  R.count(std::string("values compared: ") + name);
  if (!(std::fabs((long double)got - c.second[0]) <= 4 * c.second[1])) {
    R.fail("mixed types", fmt("a %s expression is worth %.20Lg instead of %.20Lg", name, (long double)got, c.second[0]));
    return false;
  }
  return true;
}
static void mixed(Rng& g) {
  size_t base = in_use();
  {
    Typed<float> f;
    Typed<double> d;
    Typed<long double> l;
    int n = g.in(10, 120);
    for (int i = 0; i < n; ++i) {
      bool ok = true;
      switch (g.in(0, 2)) {
        case 0: ok = typed_step(g, f, "float"); break;
        case 1: ok = typed_step(g, d, "double"); break;
        default: ok = typed_step(g, l, "long double");
      }
      if (!ok) return;
    }
    // everything again
    for (auto& [v, x] : d.v) VF_CHECK(std::fabs(v.value() - double(x[0])) < 1e-9 * (1 + std::fabs(double(x[0]))), "mixed types", "a double expression changed to %.17g from %.17Lg", v.value(), x[0]);
    R.nontrivial(g.s);
  }
  VF_CHECK(in_use() == base, "leak", "%zu blocks in use after all objects are gone, %zu before", in_use(), base);
}

/// Problems and optimal control problems give everything back, also after
/// exceptions; solving keeps nothing.
static void problems_conserved(Rng& g) {
  size_t base = in_use();
  {
    Prob q = g.chance(0.6) ? gen_convex(g, 5).q : gen_nonconvex(g, 4);
    auto w = build(g, q);
    slp::Options o;
    o.max_iterations = 40;
    size_t before = in_use();
    int stop = g.in(0, 30), calls = 0, how = g.in(0, 2);
    if (how) w->p.add_callback([&](const slp::IterationInfo<double>&) -> bool {
      if (calls++ < stop) return false;
      if (how == 1) return true;
      throw 5;
    });
    for (int i = 0; i < 2; ++i) {
      w->set(q.x0);
      calls = 0;
      try {
        w->p.solve(o);
      } catch (int) {
        R.count("solves ended by exceptions");
      }
      VF_CHECK(in_use() == before, "solve leaks", "%zu blocks in use before the solve, %zu after (%s)", before, in_use(), how == 2 ? "with an exception" : how ? "stopped" : "complete");
      R.count("solves counted");
    }
    R.nontrivial(g.s);
    if (g.chance(0.3)) w->x.clear();
  }
  VF_CHECK(in_use() == base, "leak", "%zu blocks in use after the problem is gone, %zu before", in_use(), base);
  if (g.chance(0.2)) {
    int n = g.in(1, 2), at = g.chance(0.5) ? g.in(0, 12) : -1, c = 0;
    auto tr = std::vector{slp::TranscriptionMethod::DIRECT_TRANSCRIPTION, slp::TranscriptionMethod::DIRECT_COLLOCATION, slp::TranscriptionMethod::SINGLE_SHOOTING}[g.in(0, 2)];
    try {
      slp::OCP<double> p(
          n, 1, std::chrono::duration<double>{0.1}, g.in(1, 5),
          [&](const VM& x, const VM& u) -> VM {
            if (c++ == at) throw 5;
            return VM{sin(x[0]) * u[0] * VM{x}};
          },
          slp::DynamicsType::EXPLICIT_ODE, slp::TimestepMethod::FIXED, tr);
      p.minimize(p.U() * p.U().T());
      slp::Options o;
      o.max_iterations = 5;
      p.solve(o);
    } catch (int) {
      R.count("constructions ended by exceptions");
    }
    VF_CHECK(in_use() == base, "leak", "%zu blocks in use after the optimal control problem is gone, %zu before", in_use(), base);
  }
}

/// Chains of any depth, on a small stack. Everything is compared with the
/// recurrences of value, first and second derivative.
struct Deep {
  Rng& g;
  std::string error;
  void run() {
    size_t base = in_use();
    run2();
    if (error.empty() && in_use() != base) error = fmt("%zu blocks in use after all objects are gone", in_use());
  }
  void run2() {
    bool hess = g.chance(0.3), get = !hess && g.chance(0.4);
    int depth = (R.thorough ? 10 : 1) * (hess ? g.in(15000, 30000) : g.in(60000, 150000));
    int shape = g.in(0, 7);
    V t;
    double t0 = g.real(-1, 1);
    t.set_value(t0);
    struct J {
      double v, d, dd;
    };
    J y{t0, 1, 0}, z = y;
    V s = t, u = t;
    auto sn = [](J a) { return J{std::sin(a.v), std::cos(a.v) * a.d, std::cos(a.v) * a.dd - std::sin(a.v) * a.d * a.d}; };
    auto mul = [](J a, J b) { return J{a.v * b.v, a.v * b.d + a.d * b.v, a.v * b.dd + 2 * a.d * b.d + a.dd * b.v}; };
    auto add = [](J a, J b) { return J{a.v + b.v, a.d + b.d, a.dd + b.dd}; };
    auto scale = [](double k, J a) { return J{k * a.v, k * a.d, k * a.dd}; };
    for (int i = 0; i < depth; ++i) {
      switch (shape) {
        case 0: s = s + t, y = add(y, {t0, 1, 0}); break;                                  // left
        case 1: s = t - s, y = add({t0, 1, 0}, scale(-1, y)); break;                       // right
        case 2: s = 0.9 * sin(s) + t, y = add(scale(0.9, sn(y)), {t0, 1, 0}); break;       // unary
        case 3: s += -(-t), y = add(y, {t0, 1, 0}); break;
        case 4: s = 0.5 * s + 0.25 * (s * t), y = add(scale(0.5, y), scale(0.25, mul(y, {t0, 1, 0}))); break;  // fan-out: 2^depth paths
        case 5: {                                                                          // two strands
          V n = 0.5 * (s + u);
          u = 0.25 * (s - u * t);
          J ny = scale(0.5, add(y, z));
          z = scale(0.25, add(y, scale(-1, mul(z, {t0, 1, 0}))));
          s = n, y = ny;
          break;
        }
        case 6: s = sin(s + s) * 0.4 + t, y = add(scale(0.4, sn(add(y, y))), {t0, 1, 0}); break;
        default: s = (i & 1) ? V{t * 0.001 + s} : V{s / 1.0 - 0.0 * t}; if (i & 1) y = add(y, {0.001 * t0, 0.001, 0});
      }
    }
    auto near = [&](double a, double b, const char* w) {
      if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)))) error = fmt("%s of a chain of depth %d, shape %d: %.17g instead of %.17g", w, depth, shape, a, b);
      R.count("deep results compared");
    };
    R.maximum("depth", depth);
    R.count(hess ? "deep second derivatives" : get ? "deep symbolic derivatives" : "deep first derivatives");
    R.nontrivial(mix(depth) ^ shape);
    near(s.value(), y.v, "value");
    if (hess) {
      slp::Hessian<double, Eigen::Lower> h{s, t};
      near(h.value().coeff(0, 0), y.dd, "second derivative");
    } else {
      slp::Gradient<double> d{s, t};
      if (get) {
        VM m = d.get();
        near(m[0].value(), y.d, "symbolic derivative");
      }
      near(d.value().coeff(0), y.d, "derivative");
    }
    if (g.chance(0.5)) {
      VM m(1, 1);
      m[0] = std::move(s);
      u = V{nullptr};
    }
  }
};
static void deep(Rng& g) {
  Deep d{g, {}};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 << 10);
  pthread_t th;
  if (pthread_create(&th, &at, [](void* p) -> void* { static_cast<Deep*>(p)->run(); return nullptr; }, &d) != 0) exit(2);
  pthread_join(th, nullptr);
  pthread_attr_destroy(&at);
  VF_CHECK(d.error.empty(), "deep chain", "%s", d.error.c_str());
}
#endif

int main(int argc, char** argv) {
  R.init(argc, argv);
#if HAS(1)
  if (R.prop == "R01") {
    R.cases("lifetimes", 30000, lifetimes);
    R.cases("problems", 1500, problems);
    R.cases("control", 1000, control);
    R.cases("degenerate", 400, degenerate);
  }
#endif
#if HAS(2)
  if (R.prop == "R02") {
    R.cases("blocks", 20000, blocks);
    R.cases("conserved", 40000, conserved);
    R.cases("mixed", 20000, mixed);
    R.cases("problems", 3000, problems_conserved);
    R.cases("deep", 64, deep, 1);
  }
#endif
#ifdef SLEIPNIR_VERIF_HOOKS
  R.count("pool blocks handed out", pool_watch().taken);
#endif
  return R.finish(), 0;
}
