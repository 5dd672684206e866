// A01 - A03 and the expression part of A04: expression values, derivatives and
// type labels against second-order jets, over histories of leaf changes and
// interleaved evaluations.
#include <cmath>
#include <memory>
#include <numeric>
#include <optional>

#include <Eigen/SparseCore>

#include "jet.hpp"
#include "sleipnir/autodiff/gradient.hpp"
#include "sleipnir/autodiff/hessian.hpp"
#include "sleipnir/autodiff/jacobian.hpp"
#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"

using namespace vf;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

struct World {
  Program p;
  std::vector<std::vector<double>> pts;
  std::vector<Oracle> orc;
  std::vector<V> leaves;
  std::vector<V> nodes;
  int at = 0;

  void set(Rng& g, int k) {
    // leaves in random order, some through copies of the handle
    std::vector<int> ord(leaves.size());
    std::iota(ord.begin(), ord.end(), 0);
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[g.in(0, i - 1)]);
    for (int i : ord) {
      if (g.chance(0.3)) {
        V c = leaves[i];
        c.set_value(pts[k][i]);
      } else {
        leaves[i].set_value(pts[k][i]);
      }
    }
    at = k;
  }
  std::string where(int i) const {
    std::string s = fmt("node %%%d of %s at x=(", i, p.text().c_str());
    for (double e : pts[at]) s += fmt("%.17g ", e);
    return s.substr(0, 1500) + ")";
  }
};

static World make_world(Rng& g, int size, const Style& st, int npts) {
  World w;
  int nv = g.in(1, 4);
  w.pts = random_points(g, nv, npts);
  w.p = random_program(g, nv, size, st, w.pts);
  for (auto& x : w.pts) w.orc.emplace_back(w.p, x);
  w.leaves.resize(nv);
  w.set(g, 0);
  // Build in two stages; the leaves may move and values be read in between.
  size_t cut = g.in(nv, w.p.nodes.size());
  for (size_t i = 0; i < w.p.nodes.size(); ++i) {
    auto& n = w.p.nodes[i];
    if (i == cut) w.set(g, g.in(0, npts - 1));
    w.nodes.push_back(n.op == VAR ? w.leaves[n.a] : build_node<V, double>(n, w.nodes));
    if (g.chance(0.03)) {
      int j = g.in(0, i);
      w.nodes[j].value();
    }
  }
  return w;
}

static void note_program(const World& w) {
  R.nontrivial(w.p.hash());
  R.count("nodes", w.p.nodes.size());
  for (auto& n : w.p.nodes) R.count(std::string("op ") + op_name(n.op));
  R.sample(w.p.text());
}

static bool check_value(World& w, int i, double got, const char* how) {
  auto& o = w.orc[w.at];
  if (!close(got, o.v(i), o.vt(i))) {
    R.fail(fmt("value %s", op_name(w.p.nodes[i].op)),
           fmt("%s: got %.17g, expected %.17g for %s", how, got, o.v(i), w.where(i).c_str()));
    return false;
  }
  R.count("values compared");
  return true;
}

// ---------------------------------------------------------------- A01
static void a01_history(Rng& g) {
  Style st = g.chance(0.3) ? poly_style() : smooth_style();
  World w = make_world(g, g.in(2, 30), st, g.in(2, 4));
  note_program(w);
  int n = w.nodes.size();
  std::vector<std::optional<V>> held(w.nodes.begin(), w.nodes.end());
  int steps = g.in(4, 14);
  for (int s = 0; s < steps; ++s) {
    switch (g.in(0, 6)) {
      case 0:
        w.set(g, g.in(0, w.pts.size() - 1));
        break;
      case 1: {  // drop a handle; nodes stay alive through their parents
        int i = g.in(0, n - 1);
        if (i >= w.p.nvars) {
          held[i].reset();
          w.nodes[i] = V{nullptr};
        }
        break;
      }
      case 2: {  // a fresh expression over existing ones
        int i = g.in(0, n - 1), j = g.in(0, n - 1);
        if (held[i] && held[j]) {
          auto& o = w.orc[w.at];
          V e = *held[i] * 2.0 - *held[j];
          if (!close(e.value(), 2 * o.v(i) - o.v(j), 2 * o.vt(i) + o.vt(j))) {
            R.fail("value fresh", "2a-b wrong: " + w.where(i));
            return;
          }
          R.count("values compared");
        }
        break;
      }
      case 3: {  // through a matrix
        VM m(2, 2);
        int id[4];
        bool all = true;
        for (int& i : id) {
          i = g.in(0, n - 1);
          all = all && held[i];
        }
        if (!all) break;
        for (int k = 0; k < 4; ++k) m[k / 2, k % 2] = *held[id[k]];
        Eigen::MatrixXd mv = m.value();
        for (int k = 0; k < 4; ++k)
          if (!check_value(w, id[k], mv(k / 2, k % 2), "matrix value()")) return;
        break;
      }
      default: {
        int i = g.chance(0.5) ? n - 1 : g.in(0, n - 1);
        if (!held[i]) break;
        if (g.chance(0.3)) {
          V c = *held[i];
          if (!check_value(w, i, c.value(), "copy.value()")) return;
        } else if (!check_value(w, i, held[i]->value(), "value()")) {
          return;
        }
      }
    }
  }
  for (int k = 0; k < static_cast<int>(w.pts.size()); ++k) {
    w.set(g, k);
    for (int i = n - 1; i >= 0; --i) {
      if (held[i] && !check_value(w, i, held[i]->value(), "final sweep")) return;
    }
  }
}

// All functions and operators at the points simplification rules and special
// cases look for, with every mix of constant and variable operands.
static void a01_special(Rng& g) {
  static const std::vector<double> vals{0, 1, -1, 2, -2, 0.5, -0.5, 3, 1e-3, -1e-3, 1e-9, 40, -40, 1e8,
                                        3.141592653589793, 1.5707963267948966, 100.25, -7.75};
  auto val = [&] { return g.chance(0.8) ? g.pick(vals) : g.real(-5, 5); };
  double a = val(), b = g.chance(0.15) ? a : val(), c = val();
  int op = g.in(ADD, N_OPS - 1);
  Node n{op, 0, 1, 2, b};
  // mode: which operands are constants (folded) or variables
  int mode = g.in(0, 7);
  auto operand = [&](double v, bool constant) {
    if (constant) {
      if (v == std::round(v) && std::fabs(v) < 1e6 && g.chance(0.5)) return V{static_cast<int>(v)};
      return V{v};
    }
    V x;
    x.set_value(v);
    switch (g.in(0, 3)) {
      case 0: return x * 1.0;
      case 1: return 0.0 + x;
      default: return x;
    }
  };
  // the unit tests want constant zeros to stay zero there
  if (a == 0 && (mode & 1) && (op == LOG || op == LOG10)) return;
  // build at a different place, then move there, so folding at build shows
  std::vector<V> r;
  std::vector<V> leaf(3);
  double v3[3] = {a, b, c};
  for (int i = 0; i < 3; ++i) {
    if (mode >> i & 1) {
      r.push_back(operand(v3[i], true));
    } else {
      leaf[i].set_value(g.chance(0.5) ? v3[i] : g.real(-2, 2));
      r.push_back(leaf[i]);
    }
  }
  V e = build_node<V, double>(n, r);
  for (int i = 0; i < 3; ++i) leaf[i].set_value(v3[i]);
  double want;
  switch (op) {
    case ADD: case ADD_NUM: case ADD_EQ: case NUM_ADD: want = a + b; break;
    case SUB: case SUB_NUM: case SUB_EQ: want = a - b; break;
    case NUM_SUB: want = b - a; break;
    case MUL: case MUL_NUM: case MUL_EQ: case NUM_MUL: want = a * b; break;
    case DIV: case DIV_NUM: case DIV_EQ: if (b == 0) return; want = a / b; break;
    case NUM_DIV: if (a == 0) return; want = b / a; break;
    case NEG: want = -a; break;
    case POS: want = a; break;
    case ABS: want = std::abs(a); break;
    case ACOS: want = std::acos(a); break;
    case ASIN: want = std::asin(a); break;
    case ATAN: want = std::atan(a); break;
    case ATAN2: if (a == 0 && b == 0) return; want = std::atan2(a, b); break;
    case CBRT: want = std::cbrt(a); break;
    case COS: want = std::cos(a); break;
    case COSH: want = std::cosh(a); break;
    case ERF: want = std::erf(a); break;
    case EXP: want = std::exp(a); break;
    case HYPOT: want = std::hypot(a, b); break;
    case HYPOT3: want = std::hypot(a, b, c); break;
    case LOG: want = std::log(a); break;
    case LOG10: want = std::log10(a); break;
    case MAX: want = std::max(a, b); break;
    case MIN: want = std::min(a, b); break;
    case POW: case POW_NUM:
      if (a == 0 && b <= 0) return;
      want = std::pow(a, b);
      break;
    case NUM_POW:
      if (b == 0 && a <= 0) return;
      want = std::pow(b, a);
      break;
    case SIGN: want = a < 0 ? -1 : a > 0 ? 1 : 0; break;
    case SIN: want = std::sin(a); break;
    case SINH: want = std::sinh(a); break;
    case SQRT: want = std::sqrt(a); break;
    case TAN: want = std::tan(a); break;
    case TANH: want = std::tanh(a); break;
    default: return;
  }
  if (std::isnan(want)) return;  // undefined there
  double got = e.value();
  R.nontrivial(hash_str(fmt("%d %g %g %g %d", op, a, b, c, mode)));
  R.count("special values compared");
  R.sample(fmt("%s(%g,%g,%g) constants=%d -> %g", op_name(op), a, b, c, mode, got));
  VF_CHECK(close(got, want, 1e-12 + 1e-9 * std::fabs(want)), fmt("special %s", op_name(op)),
           "%s at (%.17g, %.17g, %.17g), constants mask %d: got %.17g, expected %.17g", op_name(op), a, b, c, mode,
           got, want);
}

// Mixed-scalar helpers: functions taking a plain number on either side.
static void a01_number_forms(Rng& g) {
  double a = g.chance(0.3) ? g.in(-2, 2) : g.real(-3, 3), b = g.chance(0.3) ? g.in(-2, 2) : g.real(-3, 3);
  bool constant = g.chance(0.3);
  V x;
  x.set_value(constant ? a : g.real(-1, 1));
  V e = constant ? V{a} : x;
  int f = g.in(0, 12);
  V r;
  double want;
  switch (f) {
    case 0: r = atan2(b, e); want = std::atan2(b, a); if (a == 0 && b == 0) return; break;
    case 1: r = atan2(e, b); want = std::atan2(a, b); if (a == 0 && b == 0) return; break;
    case 2: r = hypot(b, e); want = std::hypot(b, a); break;
    case 3: r = hypot(e, b); want = std::hypot(a, b); break;
    case 4: r = max(b, e); want = std::max(a, b); break;
    case 5: r = max(e, b); want = std::max(a, b); break;
    case 6: r = min(b, e); want = std::min(a, b); break;
    case 7: r = min(e, b); want = std::min(a, b); break;
    case 8: r = pow(b, e); want = std::pow(b, a); if (b == 0 && a <= 0) return; break;
    case 9: r = pow(e, b); want = std::pow(a, b); if (a == 0 && b <= 0) return; break;
    case 10: { V t = e; t += b; t *= 2; t -= a; r = t; want = (a + b) * 2 - a; break; }
    case 11: { V t = e; if (b == 0) return; t /= b; r = t; want = a / b; break; }
    default: {  // reassigning a handle leaves expressions built from it alone
      V t = e;
      r = t * 3.0;
      t = b;
      if (t.value() != b) { R.fail("reassign", "assigned value not reported"); return; }
      want = 3 * a;
      break;
    }
  }
  x.set_value(a);
  if (std::isnan(want)) return;
  double got = r.value();
  R.nontrivial(hash_str(fmt("nf%d %g %g %d", f, a, b, constant)));
  R.count("number-form values compared");
  VF_CHECK(close(got, want, 1e-12 + 1e-9 * std::fabs(want)), fmt("number form %d", f),
           "form %d at x=%.17g number=%.17g constant=%d: got %.17g, expected %.17g", f, a, b, constant, got, want);
}

// ---------------------------------------------------------------- A02
static std::vector<int> random_wrt(Rng& g, int nv, int extra) {
  // a permutation of a nonempty subset of leaves [0, nv) and unused ones [nv, nv+extra)
  std::vector<int> ids;
  for (int i = 0; i < nv + extra; ++i)
    if (g.chance(0.8)) ids.push_back(i);
  if (ids.empty()) ids.push_back(0);
  for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[g.in(0, i - 1)]);
  return ids;
}

struct Wrt {
  std::vector<int> ids;
  VM m;
};

static Wrt make_wrt(Rng& g, World& w, std::vector<V>& extra) {
  Wrt r;
  r.ids = random_wrt(g, w.p.nvars, extra.size());
  r.m = VM(r.ids.size(), 1);
  for (size_t i = 0; i < r.ids.size(); ++i)
    r.m[i] = r.ids[i] < w.p.nvars ? w.leaves[r.ids[i]] : extra[r.ids[i] - w.p.nvars];
  return r;
}

static double d1(World& w, int node, int leaf) { return leaf < w.p.nvars ? w.orc[w.at].g(node, leaf) : 0; }
static double d1t(World& w, int node, int leaf) { return leaf < w.p.nvars ? w.orc[w.at].gt(node, leaf) : 0; }
static double d2(World& w, int node, int l, int k) {
  return l < w.p.nvars && k < w.p.nvars ? w.orc[w.at].h(node, l, k) : 0;
}
static double d2t(World& w, int node, int l, int k) {
  return l < w.p.nvars && k < w.p.nvars ? w.orc[w.at].ht(node, l, k) : 0;
}

static bool check_jac(World& w, const std::vector<int>& outs, const Wrt& wrt, const Eigen::MatrixXd& J, const char* how) {
  if (J.rows() != static_cast<int>(outs.size()) || J.cols() != static_cast<int>(wrt.ids.size())) {
    R.fail(std::string("shape ") + how, fmt("%s is %dx%d, expected %zux%zu", how, int(J.rows()), int(J.cols()), outs.size(), wrt.ids.size()));
    return false;
  }
  for (int r = 0; r < J.rows(); ++r)
    for (int c = 0; c < J.cols(); ++c)
      if (!close(J(r, c), d1(w, outs[r], wrt.ids[c]), d1t(w, outs[r], wrt.ids[c]))) {
        R.fail(std::string("derivative ") + how,
               fmt("%s(%d,%d) = %.17g, expected d/dx%d = %.17g for %s", how, r, c, J(r, c), wrt.ids[c],
                   d1(w, outs[r], wrt.ids[c]), w.where(outs[r]).c_str()));
        return false;
      }
  R.count("derivative entries compared", J.size());
  return true;
}

static bool check_hess(World& w, int node, const Wrt& wrt, const Eigen::MatrixXd& H, bool lower, const char* how) {
  int n = wrt.ids.size();
  if (H.rows() != n || H.cols() != n) {
    R.fail(std::string("shape ") + how, fmt("%s is %dx%d, expected %dx%d", how, int(H.rows()), int(H.cols()), n, n));
    return false;
  }
  for (int r = 0; r < n; ++r)
    for (int c = 0; c < n; ++c) {
      double want = lower && c > r ? 0 : d2(w, node, wrt.ids[r], wrt.ids[c]);
      double tol = lower && c > r ? 0 : d2t(w, node, wrt.ids[r], wrt.ids[c]);
      if (!close(H(r, c), want, tol)) {
        R.fail(std::string("second derivative ") + how,
               fmt("%s(%d,%d) = %.17g, expected d2/dx%ddx%d = %.17g for %s", how, r, c, H(r, c), wrt.ids[r], wrt.ids[c],
                   want, w.where(node).c_str()));
        return false;
      }
    }
  R.count("second derivative entries compared", H.size());
  return true;
}

struct JacObj {
  std::vector<int> outs;
  Wrt wrt;
  std::unique_ptr<slp::Jacobian<double>> J;
  std::optional<VM> sym;
};
struct GradObj {
  int out;
  Wrt wrt;
  std::unique_ptr<slp::Gradient<double>> G;
  std::optional<VM> sym;
};
struct HessObj {
  int out;
  Wrt wrt;
  std::unique_ptr<slp::Hessian<double>> H;
  std::unique_ptr<slp::Hessian<double, Eigen::Lower>> L;
  std::optional<VM> sym, symL;
};

static void deriv_history(Rng& g, bool second) {
  Style st = g.chance(0.45) ? poly_style() : smooth_style();
  st.limit = 400;
  World w = make_world(g, g.in(2, second ? 20 : 28), st, g.in(2, 4));
  note_program(w);
  std::vector<V> extra(g.in(0, 2));
  int n = w.nodes.size();
  auto pick_out = [&] { return g.chance(0.6) ? g.in(std::max(0, n - 5), n - 1) : g.in(0, n - 1); };
  std::vector<JacObj> js;
  std::vector<GradObj> gs;
  std::vector<HessObj> hs;
  int steps = g.in(6, 14);
  for (int s = 0; s < steps; ++s) {
    int act = g.in(0, 9);
    if (s == 0) act = second ? 5 : g.in(1, 2);
    switch (act) {
      case 0:
      case 6:
      case 7:
        w.set(g, g.in(0, w.pts.size() - 1));
        break;
      case 1: {
        if (js.size() > 2) break;
        JacObj o;
        int rows = g.in(1, 5);
        for (int i = 0; i < rows; ++i) o.outs.push_back(pick_out());
        o.wrt = make_wrt(g, w, extra);
        VM f(rows, 1);
        for (int i = 0; i < rows; ++i) f[i] = w.nodes[o.outs[i]];
        if (rows == 1 && g.chance(0.5)) {
          if (o.wrt.ids.size() == 1) o.J = std::make_unique<slp::Jacobian<double>>(w.nodes[o.outs[0]], V{o.wrt.m[0]});
          else o.J = std::make_unique<slp::Jacobian<double>>(w.nodes[o.outs[0]], o.wrt.m);
        } else {
          o.J = std::make_unique<slp::Jacobian<double>>(f, o.wrt.m);
        }
        if (g.chance(0.5)) o.sym = o.J->get();
        js.push_back(std::move(o));
        break;
      }
      case 2: {
        if (gs.size() > 2) break;
        GradObj o;
        o.out = pick_out();
        o.wrt = make_wrt(g, w, extra);
        if (o.wrt.ids.size() == 1 && g.chance(0.5))
          o.G = std::make_unique<slp::Gradient<double>>(w.nodes[o.out], V{o.wrt.m[0]});
        else
          o.G = std::make_unique<slp::Gradient<double>>(w.nodes[o.out], o.wrt.m);
        if (g.chance(0.5)) o.sym = o.G->get();
        gs.push_back(std::move(o));
        break;
      }
      case 5: {
        if (!second && g.chance(0.7)) break;
        if (hs.size() > 1) break;
        HessObj o;
        o.out = pick_out();
        o.wrt = make_wrt(g, w, extra);
        if (o.wrt.ids.size() == 1 && g.chance(0.5))
          o.H = std::make_unique<slp::Hessian<double>>(w.nodes[o.out], V{o.wrt.m[0]});
        else
          o.H = std::make_unique<slp::Hessian<double>>(w.nodes[o.out], o.wrt.m);
        if (g.chance(0.7)) o.L = std::make_unique<slp::Hessian<double, Eigen::Lower>>(w.nodes[o.out], o.wrt.m);
        if (g.chance(0.5)) o.sym = o.H->get();
        hs.push_back(std::move(o));
        break;
      }
      case 3:  // read some value in between
        w.nodes[g.in(0, n - 1)].value();
        break;
      default: {
        // evaluate one derivative object
        int k = g.in(0, 2);
        if (k == 0 && !js.empty()) {
          auto& o = js[g.in(0, js.size() - 1)];
          if (!check_jac(w, o.outs, o.wrt, Eigen::MatrixXd(o.J->value()), "Jacobian.value()")) return;
        } else if (k == 1 && !gs.empty()) {
          auto& o = gs[g.in(0, gs.size() - 1)];
          if (!check_jac(w, {o.out}, o.wrt, Eigen::VectorXd(o.G->value()).transpose(), "Gradient.value()")) return;
        } else if (!hs.empty()) {
          auto& o = hs[g.in(0, hs.size() - 1)];
          if (!check_hess(w, o.out, o.wrt, Eigen::MatrixXd(o.H->value()), false, "Hessian.value()")) return;
        }
      }
    }
  }
  // Everything, everywhere, in random order
  for (int k = 0; k < static_cast<int>(w.pts.size()); ++k) {
    w.set(g, k);
    std::vector<int> order(6);
    std::iota(order.begin(), order.end(), 0);
    for (int i = 5; i > 0; --i) std::swap(order[i], order[g.in(0, i)]);
    for (int what : order) {
      for (auto& o : js) {
        if (what == 0 && !check_jac(w, o.outs, o.wrt, Eigen::MatrixXd(o.J->value()), "Jacobian.value()")) return;
        if (what == 1) {
          if (!o.sym) o.sym = o.J->get();
          if (!check_jac(w, o.outs, o.wrt, o.sym->value(), "Jacobian.get()")) return;
        }
      }
      for (auto& o : gs) {
        if (what == 2 && !check_jac(w, {o.out}, o.wrt, Eigen::VectorXd(o.G->value()).transpose(), "Gradient.value()")) return;
        if (what == 3) {
          if (!o.sym) o.sym = o.G->get();
          Eigen::MatrixXd sv = o.sym->value();
          if (sv.cols() != 1) {
            R.fail("shape Gradient.get()", "not a column");
            return;
          }
          if (!check_jac(w, {o.out}, o.wrt, sv.transpose(), "Gradient.get()")) return;
        }
      }
      for (auto& o : hs) {
        if (what == 4) {
          if (!check_hess(w, o.out, o.wrt, Eigen::MatrixXd(o.H->value()), false, "Hessian.value()")) return;
          if (o.L && !check_hess(w, o.out, o.wrt, Eigen::MatrixXd(o.L->value()), true, "Hessian<Lower>.value()")) return;
        }
        if (what == 5) {
          if (!o.sym) o.sym = o.H->get();
          if (!check_hess(w, o.out, o.wrt, o.sym->value(), false, "Hessian.get()")) return;
        }
      }
    }
    // the expression values themselves survive derivative evaluation
    for (int i = n - 1; i >= std::max(0, n - 3); --i)
      if (!check_value(w, i, w.nodes[i].value(), "after derivatives")) return;
  }
  R.count("derivative objects", js.size() + gs.size() + 2 * hs.size());
}

// One operation applied to affine forms of two variables: each rule's first
// (and second) derivative in both arguments, all operand kinds.
static void deriv_single_op(Rng& g, bool second) {
  int op = g.in(ADD, N_OPS - 1);
  World w;
  int nv = 2;
  for (int tries = 0; tries < 60; ++tries) {
    w.pts = random_points(g, nv, 3);
    w.p = Program{};
    w.p.nvars = nv;
    w.p.nodes = {{VAR, 0}, {VAR, 1}, {CONST, -1, -1, -1, pick_const(g, smooth_style())}};
    auto arg = [&]() -> int {  // variable, constant, scaled or shifted variable
      int k = g.in(0, 5);
      if (k <= 2) return k == 2 && g.chance(0.5) ? 0 : k;
      Node n;
      n.op = g.pick(std::vector<int>{ADD, MUL, SUB, ADD_NUM, MUL_NUM, MUL});
      n.a = g.in(0, 1);
      n.b = g.in(0, 2);
      n.k = g.real(-2, 2);
      w.p.nodes.push_back(n);
      return w.p.nodes.size() - 1;
    };
    Node n;
    n.op = op;
    n.a = arg();
    n.b = arg();
    n.c = arg();
    n.k = pick_const(g, smooth_style());
    w.p.nodes.push_back(n);
    bool ok = true;
    for (auto& x : w.pts) {
      bool o;
      bool ol;
      auto r = eval_program<double>(w.p, x, &o);
      eval_program<long double>(w.p, x, &ol);
      ok = ok && o && ol;
      if (o)
        for (auto& j : r) ok = ok && j.finite() && j.biggest() < 1e4;
    }
    if (ok) {
      w.orc.clear();
      for (auto& x : w.pts) w.orc.emplace_back(w.p, x);
      break;
    }
    w.orc.clear();
  }
  if (w.orc.empty()) return;
  R.nontrivial(w.p.hash());
  R.count(std::string("single op ") + op_name(op));
  w.leaves.resize(nv);
  w.set(g, 0);
  w.nodes = build_program<V, double>(w.p, w.leaves);
  int out = w.nodes.size() - 1;
  Wrt wrt;
  wrt.ids = {0, 1};
  if (g.chance(0.5)) std::swap(wrt.ids[0], wrt.ids[1]);
  wrt.m = VM(2, 1);
  for (int i = 0; i < 2; ++i) wrt.m[i] = w.leaves[wrt.ids[i]];
  slp::Jacobian<double> J{w.nodes[out], wrt.m};
  VM Js = J.get();
  slp::Hessian<double> H{w.nodes[out], wrt.m};
  for (int k : {1, 0, 2}) {
    w.set(g, k);
    if (!check_jac(w, {out}, wrt, Eigen::MatrixXd(J.value()), "Jacobian.value()")) return;
    if (!check_jac(w, {out}, wrt, Js.value(), "Jacobian.get()")) return;
    if (second) {
      if (!check_hess(w, out, wrt, Eigen::MatrixXd(H.value()), false, "Hessian.value()")) return;
      if (!check_hess(w, out, wrt, H.get().value(), false, "Hessian.get()")) return;
    }
  }
}

// Wide Jacobians and Hessians: many rows/columns, sparse rows, shared parts.
static void deriv_wide(Rng& g, bool second) {
  int n = g.in(5, 60), m = g.in(5, 60);
  VM x(n, 1);
  std::vector<double> xv(n);
  struct Term { double c; int i, j, kind; };
  std::vector<std::vector<Term>> rows(m);
  for (auto& r : rows) {
    int t = g.chance(0.15) ? 0 : g.in(1, 4);
    for (int k = 0; k < t; ++k) r.push_back({std::round(g.real(-4, 4) * 4) / 4, g.in(0, n - 1), g.in(0, n - 1), g.in(0, 4)});
  }
  auto setall = [&] {
    for (int i = 0; i < n; ++i) {
      xv[i] = g.real(-2, 2);
      x[i].set_value(xv[i]);
    }
  };
  setall();
  std::vector<V> shared(n);
  for (int i = 0; i < n; ++i) shared[i] = sin(x[i]);
  VM f(m, 1);
  V total = 0.0;
  for (int r = 0; r < m; ++r) {
    V e = 0.0;
    for (auto& t : rows[r]) {
      switch (t.kind) {
        case 0: e += t.c * x[t.i]; break;
        case 1: e += t.c * x[t.i] * x[t.j]; break;
        case 2: e += t.c * shared[t.i]; break;
        case 3: e += t.c * shared[t.i] * x[t.j]; break;
        default: e += V{t.c}; break;
      }
    }
    f[r] = e;
    total += e;
  }
  slp::Jacobian<double> J{f, x};
  VM Js = J.get();
  std::unique_ptr<slp::Hessian<double, Eigen::Lower>> H;
  std::unique_ptr<slp::Hessian<double>> Hf;
  if (second) {
    H = std::make_unique<slp::Hessian<double, Eigen::Lower>>(total, x);
    Hf = std::make_unique<slp::Hessian<double>>(total, x);
  }
  R.nontrivial(g.next());
  R.sample(fmt("%d functions of %d variables", m, n));
  for (int rep = 0; rep < 2; ++rep) {
    setall();
    Eigen::MatrixXd want = Eigen::MatrixXd::Zero(m, n), wantH = Eigen::MatrixXd::Zero(n, n);
    auto h = [&](int i, int j, double v) {
      wantH(i, j) += v;
      if (i != j) wantH(j, i) += v;
    };
    for (int r = 0; r < m; ++r)
      for (auto& t : rows[r]) {
        double si = std::sin(xv[t.i]), ci = std::cos(xv[t.i]);
        switch (t.kind) {
          case 0: want(r, t.i) += t.c; break;
          case 1:
            want(r, t.i) += t.c * xv[t.j];
            want(r, t.j) += t.c * xv[t.i];
            if (t.i == t.j) h(t.i, t.i, 2 * t.c); else h(t.i, t.j, t.c);
            break;
          case 2: want(r, t.i) += t.c * ci; h(t.i, t.i, -t.c * si); break;
          case 3:
            want(r, t.i) += t.c * ci * xv[t.j];
            want(r, t.j) += t.c * si;
            h(t.i, t.i, -t.c * si * xv[t.j]);
            if (t.i == t.j) h(t.i, t.i, 2 * t.c * ci); else h(t.i, t.j, t.c * ci);
            break;
          default: break;
        }
      }
    for (int which = 0; which < 2; ++which) {
      Eigen::MatrixXd got = which ? Js.value() : Eigen::MatrixXd(J.value());
      double e = (got - want).cwiseAbs().maxCoeff();
      R.count("derivative entries compared", got.size());
      VF_CHECK(e < 1e-9, which ? "wide Jacobian.get()" : "wide Jacobian.value()", "%d x %d Jacobian off by %g", m, n, e);
    }
    if (second) {
      R.count("second derivative entries compared", 2 * n * n);
      double e = (Eigen::MatrixXd(Hf->value()) - wantH).cwiseAbs().maxCoeff();
      VF_CHECK(e < 1e-9, "wide Hessian", "%d x %d Hessian off by %g", n, n, e);
      Eigen::MatrixXd low = wantH.triangularView<Eigen::Lower>();
      e = (Eigen::MatrixXd(H->value()) - low).cwiseAbs().maxCoeff();
      VF_CHECK(e < 1e-9, "wide Hessian<Lower>", "%d x %d lower Hessian off by %g", n, n, e);
    }
  }
}

// First derivatives at points where the value is smooth but rules may divide by
// zero or lose precision (zero bases, large arguments).
/// At a kink (a tie of max or min, a zero of abs) the derivative has to lie
/// between those of the two sides.
static void a02_kink(Rng& g) {
  int n = g.in(1, 3), op = g.in(0, 3);  // max, min, abs, product with sign-free scale of abs
  std::vector<double> x(n), cu(n), cv(n);
  for (auto& e : x) e = g.in(-8, 8) * 0.25;
  for (auto& e : cu) e = g.in(-4, 4) * 0.5;
  for (auto& e : cv) e = g.in(-4, 4) * 0.5;
  bool vconst = g.chance(0.35), uconst = !vconst && g.chance(0.2);
  if (vconst) for (auto& e : cv) e = 0;
  if (uconst) for (auto& e : cu) e = 0;
  double su = 0, sv = 0, tie = g.in(-4, 4) * 0.5, k = g.pick(std::vector<double>{1, -1, 2, -0.5});
  for (int i = 0; i < n; ++i) su += cu[i] * x[i], sv += cv[i] * x[i];
  if (op >= 2) tie = 0;
  std::vector<V> xs(n);
  auto lin = [&](const std::vector<double>& c, double off, bool isconst) {
    if (isconst) return V{off};
    V e = xs[0] * c[0];
    for (int i = 1; i < n; ++i) e = e + c[i] * xs[i];
    return e + off;
  };
  V u = lin(cu, tie - su, uconst), v = lin(cv, tie - sv, vconst);
  V inner = op == 0 ? max(u, v) : op == 1 ? min(u, v) : abs(u);
  int outer = g.in(0, 2);
  V f = outer == 0 ? inner : outer == 1 ? k * inner : k * inner + xs[0] * 3.0;
  double kk = outer == 0 ? 1 : k;
  VM wrt(n, 1);
  for (int i = 0; i < n; ++i) wrt[i] = xs[i];
  bool early = g.chance(0.5);
  if (early) for (int i = 0; i < n; ++i) xs[i].set_value(x[i]);
  else for (int i = 0; i < n; ++i) xs[i].set_value(g.real(-3, 3));
  slp::Gradient<double> G{f, wrt};
  VM Gs = G.get();
  if (!early && g.chance(0.5)) G.value();
  for (int i = 0; i < n; ++i) xs[i].set_value(x[i]);
  // derivative = kk * (l * du + (1 - l) * dv) for one l in [0, 1]; for abs: l in [-1, 1] and dv = 0
  auto judge = [&](const Eigen::VectorXd& d, const char* what) {
    double lo = op >= 2 ? -1 : 0, hi = 1;
    bool ok = true;
    for (int i = 0; i < n; ++i) {
      double e = (d[i] - (outer == 2 && i == 0 ? 3.0 : 0.0)) / kk, a = cu[i], b = op >= 2 ? 0 : cv[i];
      if (!std::isfinite(e)) ok = false;
      else if (a == b) ok = ok && std::fabs(e - a) < 1e-9;
      else {
        double l = (e - b) / (a - b);
        lo = std::max(lo, l - 1e-9), hi = std::min(hi, l + 1e-9);
      }
    }
    ok = ok && lo <= hi;
    std::string t;
    for (int i = 0; i < n; ++i) t += fmt(" [%g; sides %g, %g]", d[i], cu[i] * kk, (op >= 2 ? -cu[i] : cv[i]) * kk);
    VF_CHECK(ok, fmt("kink %s", what), "%s of %s at a tie, %s:%s", what, op == 0 ? "max" : op == 1 ? "min" : "abs", outer == 2 ? "plus 3 x0" : "scaled", t.c_str());
  };
  R.count("kinks judged", 2);
  R.nontrivial(mix(uint64_t(op * 100 + outer)) ^ hash_str(fmt("%g %g %g %g", su, sv, tie, k)));
  judge(Eigen::VectorXd(G.value()), "Gradient.value()");
  judge(Eigen::VectorXd(Gs.value()), "Gradient.get()");
}

static void a02_edge(Rng& g) {
  struct E { const char* name; V (*f)(const V&); double (*d)(double); double x; };
  static const std::vector<E> es{
      {"pow(x,2)@0", [](const V& x) { return pow(x, 2); }, [](double x) { return 2 * x; }, 0},
      {"pow(x,3)@0", [](const V& x) { return pow(x, 3); }, [](double x) { return 3 * x * x; }, 0},
      {"pow(x,1)@0", [](const V& x) { return pow(x, 1); }, [](double) { return 1.0; }, 0},
      {"x*x@0", [](const V& x) { return x * x; }, [](double x) { return 2 * x; }, 0},
      {"pow(x,2)@-3", [](const V& x) { return pow(x, 2); }, [](double x) { return 2 * x; }, -3},
      {"pow(x,4)@-1.5", [](const V& x) { return pow(x, 4); }, [](double x) { return 4 * x * x * x; }, -1.5},
      {"pow(x,-2)@-2", [](const V& x) { return pow(x, -2); }, [](double x) { return -2 / (x * x * x); }, -2},
      {"pow(x,1.5)@1e-6", [](const V& x) { return pow(x, 1.5); }, [](double x) { return 1.5 * std::sqrt(x); }, 1e-6},
      {"tanh@30", [](const V& x) { return tanh(x); }, [](double x) { return 1 / std::pow(std::cosh(x), 2); }, 30},
      {"atan@1e6", [](const V& x) { return atan(x); }, [](double x) { return 1 / (1 + x * x); }, 1e6},
      {"erf@6", [](const V& x) { return erf(x); }, [](double x) { return 2 / std::sqrt(M_PI) * std::exp(-x * x); }, 6},
      {"sin(x)/x@1e-4", [](const V& x) { return sin(x) / x; }, [](double x) { return -x / 3 + x * x * x / 30; }, 1e-4},
      {"sqrt@1e-8", [](const V& x) { return sqrt(x); }, [](double x) { return 0.5 / std::sqrt(x); }, 1e-8},
      {"cbrt@-8", [](const V& x) { return cbrt(x); }, [](double x) { return 1 / (3 * std::cbrt(x) * std::cbrt(x)); }, -8},
      {"exp@-30", [](const V& x) { return exp(x); }, [](double x) { return std::exp(x); }, -30},
      {"hypot(x,0)@-2", [](const V& x) { return hypot(x, V{0.0}); }, [](double) { return -1.0; }, -2},
      {"atan2(x,-1)@0.5", [](const V& x) { return atan2(x, V{-1.0}); }, [](double x) { return -1 / (x * x + 1); }, 0.5},
      {"atan2(1,x)@0", [](const V& x) { return atan2(V{1.0}, x); }, [](double x) { return -1 / (x * x + 1); }, 0},
      {"acos@0.999", [](const V& x) { return acos(x); }, [](double x) { return -1 / std::sqrt(1 - x * x); }, 0.999},
      {"asin@-0.999", [](const V& x) { return asin(x); }, [](double x) { return 1 / std::sqrt(1 - x * x); }, -0.999},
      {"log@1e-6", [](const V& x) { return log(x); }, [](double x) { return 1 / x; }, 1e-6},
      {"x*0.0", [](const V& x) { return x * 0.0; }, [](double) { return 0.0; }, 2},
      {"x-x", [](const V& x) { return x - x; }, [](double) { return 0.0; }, 2},
      {"x/x", [](const V& x) { return x / x; }, [](double) { return 0.0; }, 2},
      {"0-x", [](const V& x) { return 0.0 - x; }, [](double) { return -1.0; }, 2},
      {"pow(2,x)@0", [](const V& x) { return pow(V{2.0}, x); }, [](double x) { return std::log(2.0) * std::pow(2, x); }, 0},
      {"pow(x,x)@1", [](const V& x) { return pow(x, x); }, [](double x) { return std::pow(x, x) * (1 + std::log(x)); }, 1},
  };
  auto& e = es[g.next() % es.size()];
  V x;
  x.set_value(g.chance(0.5) ? e.x : 0.25);
  V f = e.f(x);
  slp::Gradient<double> G{f, x};
  VM Gs = G.get();
  x.set_value(e.x);
  double want = e.d(e.x), tol = 1e-9 + 1e-7 * std::fabs(want);
  R.nontrivial(hash_str(e.name));
  R.count("edge derivatives compared", 2);
  double got = G.value().coeff(0);
  VF_CHECK(close(got, want, tol), fmt("edge %s", e.name), "d/dx %s numerically %.17g, expected %.17g", e.name, got, want);
  got = Gs.value(0, 0);
  VF_CHECK(close(got, want, tol), fmt("edge %s", e.name), "d/dx %s symbolically %.17g, expected %.17g", e.name, got, want);
}

// ---------------------------------------------------------------- A04
static void a04_types(Rng& g) {
  Style st;
  switch (g.in(0, 2)) {
    case 0: st = poly_style(); break;
    case 1: st = smooth_style(); break;
    default:
      st = poly_style();
      for (int op : {ABS, MIN, MAX, SIGN, DIV, DIV, NUM_DIV, POW, POW, NUM_POW, SQRT, HYPOT, DIV_EQ, EXP, ATAN2, CBRT, HYPOT3}) st.ops.push_back(op);
  }
  st.limit = 1e4;
  World w = make_world(g, g.in(2, 16), st, 6);
  note_program(w);
  for (int i = 0; i < static_cast<int>(w.nodes.size()); ++i) {
    auto t = w.nodes[i].type();
    R.count(std::string("type ") + (t == slp::ExpressionType::CONSTANT ? "constant" : t == slp::ExpressionType::LINEAR ? "linear" : t == slp::ExpressionType::QUADRATIC ? "quadratic" : "nonlinear"));
    for (int k = 0; k < 6; ++k) {
      w.at = k;
      auto &a = w.orc[0], &b = w.orc[k];
      int nv = w.p.nvars;
      if (t == slp::ExpressionType::CONSTANT || t == slp::ExpressionType::NONE) {
        VF_CHECK(std::fabs(a.v(i) - b.v(i)) <= a.vt(i) + b.vt(i), fmt("constant %s", op_name(w.p.nodes[i].op)),
                 "labelled constant but changes from %g to %g: %s", a.v(i), b.v(i), w.where(i).c_str());
      }
      for (int l = 0; l < nv; ++l) {
        if (t <= slp::ExpressionType::CONSTANT)
          VF_CHECK(std::fabs(b.g(i, l)) <= b.gt(i, l), fmt("constant %s", op_name(w.p.nodes[i].op)),
                   "labelled constant but d/dx%d = %g: %s", l, b.g(i, l), w.where(i).c_str());
        if (t <= slp::ExpressionType::LINEAR)
          VF_CHECK(std::fabs(b.g(i, l) - a.g(i, l)) <= b.gt(i, l) + a.gt(i, l), fmt("linear %s", op_name(w.p.nodes[i].op)),
                   "labelled linear but d/dx%d changes from %g to %g: %s", l, a.g(i, l), b.g(i, l), w.where(i).c_str());
        for (int m = 0; m < nv; ++m)
          if (t <= slp::ExpressionType::QUADRATIC)
            VF_CHECK(std::fabs(b.h(i, l, m) - a.h(i, l, m)) <= b.ht(i, l, m) + a.ht(i, l, m), fmt("quadratic %s", op_name(w.p.nodes[i].op)),
                     "labelled quadratic but a second derivative changes from %g to %g: %s", a.h(i, l, m), b.h(i, l, m), w.where(i).c_str());
      }
      R.count("labels compared");
    }
  }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  if (R.prop == "A01") {
    R.cases("history", 120000, a01_history);
    R.cases("special", 300000, a01_special);
    R.cases("numberform", 50000, a01_number_forms);
  } else if (R.prop == "A02") {
    R.cases("history", 90000, [](Rng& g) { deriv_history(g, false); });
    R.cases("single", 150000, [](Rng& g) { deriv_single_op(g, false); });
    R.cases("edge", 3000, a02_edge);
    R.cases("kink", 10000, a02_kink);
    R.cases("wide", 7000, [](Rng& g) { deriv_wide(g, false); });
  } else if (R.prop == "A03") {
    R.cases("history", 60000, [](Rng& g) { deriv_history(g, true); });
    R.cases("single", 150000, [](Rng& g) { deriv_single_op(g, true); });
    R.cases("wide", 700, [](Rng& g) { deriv_wide(g, true); });
  } else if (R.prop == "A04") {
    R.cases("types", 200000, a04_types);
  } else {
    return 2;
  }
  R.finish();
  return 0;
}
