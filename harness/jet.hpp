// Reference semantics for scalar expressions: straight-line programs evaluated
// with second-order forward-mode jets (independent of Sleipnir's reverse mode).
#pragma once

#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "common.hpp"

namespace vf {

/// Value, gradient and Hessian wrt n leaf variables.
template <typename T>
struct Jet {
  int n = 0;
  bool fixed = false;  // written without any variable
  T v{0};
  std::vector<T> g;
  std::vector<T> h;  // n x n, full
  Jet() = default;
  Jet(int n, T v) : n{n}, v{v}, g(n, T(0)), h(n * n, T(0)) {}
  T H(int i, int j) const { return h[i * n + j]; }

  static Jet unary(const Jet& a, T v, T d, T dd) {
    Jet r{a.n, v};
    for (int i = 0; i < a.n; ++i) {
      r.g[i] = d * a.g[i];
      for (int j = 0; j < a.n; ++j) {
        r.h[i * a.n + j] = d * a.h[i * a.n + j] + dd * a.g[i] * a.g[j];
      }
    }
    return r;
  }
  static Jet binary(const Jet& a, const Jet& b, T v, T da, T db, T daa, T dab, T dbb) {
    Jet r{a.n, v};
    for (int i = 0; i < a.n; ++i) {
      r.g[i] = da * a.g[i] + db * b.g[i];
      for (int j = 0; j < a.n; ++j) {
        r.h[i * a.n + j] = da * a.h[i * a.n + j] + db * b.h[i * a.n + j] + daa * a.g[i] * a.g[j] +
                           dab * (a.g[i] * b.g[j] + b.g[i] * a.g[j]) + dbb * b.g[i] * b.g[j];
      }
    }
    return r;
  }
  bool finite() const {
    using std::isfinite;
    if (!isfinite(v)) return false;
    for (T x : g) if (!isfinite(x)) return false;
    for (T x : h) if (!isfinite(x)) return false;
    return true;
  }
  double biggest() const {
    double m = std::fabs(double(v));
    for (T x : g) m = std::max(m, std::fabs(double(x)));
    for (T x : h) m = std::max(m, std::fabs(double(x)));
    return m;
  }
};

enum Op {
  VAR, CONST, ADD, SUB, MUL, DIV, NEG, POS, ABS, ACOS, ASIN, ATAN, ATAN2, CBRT, COS, COSH, ERF, EXP,
  HYPOT, HYPOT3, LOG, LOG10, MAX, MIN, POW, SIGN, SIN, SINH, SQRT, TAN, TANH,
  // the same operation written with a plain number on one side, or in place
  ADD_NUM, NUM_ADD, SUB_NUM, NUM_SUB, MUL_NUM, NUM_MUL, DIV_NUM, NUM_DIV, POW_NUM, NUM_POW,
  ADD_EQ, SUB_EQ, MUL_EQ, DIV_EQ,
  N_OPS
};

inline const char* op_name(int op) {
  static const char* names[] = {"var", "const", "+", "-", "*", "/", "neg", "pos", "abs", "acos", "asin", "atan",
                                "atan2", "cbrt", "cos", "cosh", "erf", "exp", "hypot", "hypot3", "log", "log10",
                                "max", "min", "pow", "sign", "sin", "sinh", "sqrt", "tan", "tanh",
                                "+num", "num+", "-num", "num-", "*num", "num*", "/num", "num/", "pow_num", "num_pow",
                                "+=", "-=", "*=", "/="};
  return names[op];
}

struct Node {
  int op = CONST;
  int a = -1, b = -1, c = -1;
  double k = 0;  // constant, or the plain number of *_NUM forms
};

inline bool is_num_form(int op) { return op >= ADD_NUM && op <= NUM_POW; }

struct Program {
  int nvars = 0;
  std::vector<Node> nodes;  // nodes[0..nvars) are the variables
  std::string text() const {
    std::string s;
    for (size_t i = 0; i < nodes.size(); ++i) {
      auto& n = nodes[i];
      s += fmt("%%%zu=", i);
      if (n.op == VAR) s += fmt("x%d", n.a);
      else if (n.op == CONST) s += fmt("%g", n.k);
      else {
        s += op_name(n.op);
        s += "(";
        if (n.a >= 0) s += fmt("%%%d", n.a);
        if (n.b >= 0) s += fmt(",%%%d", n.b);
        if (n.c >= 0) s += fmt(",%%%d", n.c);
        if (is_num_form(n.op)) s += fmt(";%g", n.k);
        s += ")";
      }
      s += " ";
    }
    return s;
  }
  uint64_t hash() const { return hash_str(text()); }
};

/// Margin by which an operand must stay away from kinks and domain borders.
constexpr double MARGIN = 0.06;

/// Evaluates one node from already evaluated operands. Returns false where the
/// formula is undefined or not twice differentiable (within MARGIN).
template <typename T>
bool eval_node(const Node& n, const std::vector<Jet<T>>& r, const std::vector<double>& x, Jet<T>& o) {
  using J = Jet<T>;
  using std::abs, std::acos, std::asin, std::atan, std::atan2, std::cbrt, std::cos, std::cosh, std::erf, std::exp,
      std::hypot, std::log, std::log10, std::pow, std::sin, std::sinh, std::sqrt, std::tan, std::tanh;
  int N = static_cast<int>(x.size());
  if (n.op == VAR) {
    o = J{N, T(x[n.a])};
    o.g[n.a] = 1;
    return true;
  }
  if (n.op == CONST) {
    o = J{N, T(n.k)};
    o.fixed = true;
    return true;
  }
  int op = n.op;
  J num{N, T(n.k)};
  num.fixed = true;
  const J* A = n.a >= 0 ? &r[n.a] : nullptr;
  const J* B = n.b >= 0 ? &r[n.b] : nullptr;
  switch (op) {
    case ADD_NUM: op = ADD; B = &num; break;
    case NUM_ADD: op = ADD; B = A; A = &num; break;
    case SUB_NUM: op = SUB; B = &num; break;
    case NUM_SUB: op = SUB; B = A; A = &num; break;
    case MUL_NUM: op = MUL; B = &num; break;
    case NUM_MUL: op = MUL; B = A; A = &num; break;
    case DIV_NUM: op = DIV; B = &num; break;
    case NUM_DIV: op = DIV; B = A; A = &num; break;
    case POW_NUM: op = POW; B = &num; break;
    case NUM_POW: op = POW; B = A; A = &num; break;
    case ADD_EQ: op = ADD; break;
    case SUB_EQ: op = SUB; break;
    case MUL_EQ: op = MUL; break;
    case DIV_EQ: op = DIV; break;
    default: break;
  }
  const J& a = *A;
  T u = a.v, w = B ? B->v : T(0);
  switch (op) {
    case ADD: o = J::binary(a, *B, u + w, 1, 1, 0, 0, 0); break;
    case SUB: o = J::binary(a, *B, u - w, 1, -1, 0, 0, 0); break;
    case MUL: o = J::binary(a, *B, u * w, w, u, 0, 1, 0); break;
    case DIV:
      if (abs(w) < MARGIN) return false;
      o = J::binary(a, *B, u / w, 1 / w, -u / (w * w), 0, -1 / (w * w), 2 * u / (w * w * w));
      break;
    case NEG: o = J::unary(a, -u, -1, 0); break;
    case POS: o = a; break;
    case ABS:
      if (abs(u) < MARGIN) return false;
      o = J::unary(a, abs(u), u < 0 ? -1 : 1, 0);
      break;
    case ACOS: {
      if (abs(u) > 1 - MARGIN) return false;
      T s = sqrt(1 - u * u);
      o = J::unary(a, acos(u), -1 / s, -u / (s * s * s));
      break;
    }
    case ASIN: {
      if (abs(u) > 1 - MARGIN) return false;
      T s = sqrt(1 - u * u);
      o = J::unary(a, asin(u), 1 / s, u / (s * s * s));
      break;
    }
    case ATAN: {
      T q = 1 + u * u;
      o = J::unary(a, atan(u), 1 / q, -2 * u / (q * q));
      break;
    }
    case ATAN2: {  // atan2(y = a, x = b)
      T q = u * u + w * w;
      // keep away from the origin and the branch cut
      if (q < 4 * MARGIN * MARGIN || (w < 0 && abs(u) < MARGIN)) return false;
      o = J::binary(a, *B, atan2(u, w), w / q, -u / q, -2 * u * w / (q * q), (u * u - w * w) / (q * q),
                    2 * u * w / (q * q));
      break;
    }
    case CBRT: {
      if (abs(u) < MARGIN) return false;
      T c = cbrt(u);
      o = J::unary(a, c, 1 / (3 * c * c), T(-2) / (9 * c * c * c * c * c));
      break;
    }
    case COS: o = J::unary(a, cos(u), -sin(u), -cos(u)); break;
    case COSH: o = J::unary(a, cosh(u), sinh(u), cosh(u)); break;
    case ERF: {
      T d = T(2) / sqrt(T(3.14159265358979323846264338327950288L)) * exp(-u * u);
      o = J::unary(a, erf(u), d, -2 * u * d);
      break;
    }
    case EXP: o = J::unary(a, exp(u), exp(u), exp(u)); break;
    case HYPOT: {
      T q = hypot(u, w);
      if (q < MARGIN) return false;
      T q3 = q * q * q;
      o = J::binary(a, *B, q, u / q, w / q, w * w / q3, -u * w / q3, u * u / q3);
      break;
    }
    case HYPOT3: {
      const J& c3 = r[n.c];
      J s = J::binary(a, *B, u * u + w * w, 2 * u, 2 * w, 2, 0, 2);
      s = J::binary(s, c3, s.v + c3.v * c3.v, 1, 2 * c3.v, 0, 0, 2);
      if (s.v < MARGIN * MARGIN) return false;
      T q = sqrt(s.v);
      o = J::unary(s, q, 1 / (2 * q), -1 / (4 * q * q * q));
      break;
    }
    case LOG:
      if (u < MARGIN) return false;
      o = J::unary(a, log(u), 1 / u, -1 / (u * u));
      break;
    case LOG10: {
      if (u < MARGIN) return false;
      T l = log(T(10));
      o = J::unary(a, log10(u), 1 / (l * u), -1 / (l * u * u));
      break;
    }
    case MAX:
      if (abs(u - w) < MARGIN) return false;
      o = u > w ? a : *B;
      break;
    case MIN:
      if (abs(u - w) < MARGIN) return false;
      o = u < w ? a : *B;
      break;
    case POW: {
      bool base_const = a.fixed, pow_const = B->fixed;
      // unit tests pin the value of constants there to 0
      if (u == 0 && w <= 0) return false;
      if (pow_const) {
        bool integer = w == std::round(w);
        if (u == 0 && base_const) {
          o = J{N, pow(u, w)};
          break;
        }
        if (abs(w - std::round(w)) < T(1e-6) && w != std::round(w)) return false;
        if (abs(u) < MARGIN && !(integer && w >= 0)) return false;
        if (u < 0 && !integer) return false;
        T d = w == 0 ? T(0) : w * pow(u, w - 1);
        T dd = (w == 0 || w == 1) ? T(0) : w * (w - 1) * pow(u, w - 2);
        o = J::unary(a, pow(u, w), d, dd);
        break;
      }
      if (u == 0 && base_const) {
        if (w < MARGIN) return false;
        o = J{N, T(0)};
        break;
      }
      if (u < MARGIN) return false;
      T p = pow(u, w), l = log(u);
      o = J::binary(a, *B, p, w * pow(u, w - 1), p * l, w * (w - 1) * pow(u, w - 2),
                    pow(u, w - 1) * (1 + w * l), p * l * l);
      break;
    }
    case SIGN:
      if (abs(u) < MARGIN) return false;
      o = J{N, T(u < 0 ? -1 : 1)};
      break;
    case SIN: o = J::unary(a, sin(u), cos(u), -sin(u)); break;
    case SINH: o = J::unary(a, sinh(u), cosh(u), sinh(u)); break;
    case SQRT: {
      if (u < MARGIN) return false;
      T q = sqrt(u);
      o = J::unary(a, q, 1 / (2 * q), -1 / (4 * q * q * q));
      break;
    }
    case TAN: {
      if (abs(cos(u)) < MARGIN) return false;
      T t = tan(u), d = 1 + t * t;
      o = J::unary(a, t, d, 2 * t * d);
      break;
    }
    case TANH: {
      T t = tanh(u), d = 1 - t * t;
      o = J::unary(a, t, d, -2 * t * d);
      break;
    }
    default: return false;
  }
  o.fixed = A->fixed && (!B || B->fixed) && (n.op != HYPOT3 || r[n.c].fixed);
  return true;
}

template <typename T>
std::vector<Jet<T>> eval_program(const Program& p, const std::vector<double>& x, bool* ok = nullptr) {
  std::vector<Jet<T>> r;
  for (auto& n : p.nodes) {
    Jet<T> o;
    if (!eval_node<T>(n, r, x, o)) {
      if (ok) *ok = false;
      return r;
    }
    r.push_back(std::move(o));
  }
  if (ok) *ok = true;
  return r;
}

/// What to draw programs from.
struct Style {
  std::vector<int> ops;
  double const_prob = 0.12;   // probability that a new node is a constant
  double special_const = 0.5;  // ... with a value pruning rules look for
  double limit = 60;          // bound on values and derivatives
};

inline Style smooth_style() {
  Style s;
  for (int op = ADD; op < N_OPS; ++op) s.ops.push_back(op);
  for (int i = 0; i < 3; ++i)
    for (int op : {ADD, SUB, MUL, DIV, NEG, POW, MUL_NUM, NUM_SUB}) s.ops.push_back(op);
  return s;
}

inline Style poly_style() {
  Style s;
  s.ops = {ADD, SUB, MUL, NEG, POS, ADD_NUM, NUM_ADD, SUB_NUM, NUM_SUB, MUL_NUM, NUM_MUL, DIV_NUM, POW_NUM,
           ADD_EQ, SUB_EQ, MUL_EQ, ADD, SUB, MUL, MUL_NUM};
  s.const_prob = 0.15;
  return s;
}

inline double pick_const(Rng& g, const Style& st) {
  static const std::vector<double> special{0, 1, -1, 2, 0, 1, -2, 0.5, 3};
  if (g.chance(st.special_const)) return g.pick(special);
  return std::round(g.real(-4, 4) * 64) / 64;
}

/// Grows a random program which is defined and twice differentiable at every
/// one of the given points (with bounded values and derivatives).
inline Program random_program(Rng& g, int nvars, int size, const Style& st,
                              const std::vector<std::vector<double>>& points) {
  Program p;
  p.nvars = nvars;
  std::vector<std::vector<Jet<double>>> r(points.size());
  std::vector<std::vector<Jet<long double>>> rl(points.size());
  auto push = [&](const Node& n) {
    std::vector<Jet<double>> os;
    std::vector<Jet<long double>> ls;
    for (size_t k = 0; k < points.size(); ++k) {
      Jet<double> o;
      if (!eval_node<double>(n, r[k], points[k], o) || !o.finite() || o.biggest() > st.limit) return false;
      Jet<long double> l;
      if (!eval_node<long double>(n, rl[k], points[k], l) || !l.finite()) return false;
      os.push_back(std::move(o));
      ls.push_back(std::move(l));
    }
    for (size_t k = 0; k < points.size(); ++k) {
      r[k].push_back(std::move(os[k]));
      rl[k].push_back(std::move(ls[k]));
    }
    p.nodes.push_back(n);
    return true;
  };
  for (int i = 0; i < nvars; ++i) push({VAR, i});
  int tries = 0;
  while (static_cast<int>(p.nodes.size()) < nvars + size && tries++ < 40 * size) {
    Node n;
    int m = static_cast<int>(p.nodes.size());
    if (g.chance(st.const_prob)) {
      n.op = CONST;
      n.k = pick_const(g, st);
      push(n);
      continue;
    }
    // favour recent nodes so that depth grows, but keep sharing likely
    auto operand = [&] { return g.chance(0.55) ? g.in(std::max(0, m - 4), m - 1) : g.in(0, m - 1); };
    n.op = g.pick(st.ops);
    n.a = operand();
    switch (n.op) {
      case ADD: case SUB: case MUL: case DIV: case ATAN2: case HYPOT: case MAX: case MIN: case POW:
      case ADD_EQ: case SUB_EQ: case MUL_EQ: case DIV_EQ:
        n.b = operand();
        break;
      case HYPOT3:
        n.b = operand();
        n.c = operand();
        break;
      default: break;
    }
    if (is_num_form(n.op)) n.k = pick_const(g, st);
    push(n);
  }
  return p;
}

/// Builds the program's nodes as Sleipnir expressions over the given leaves.
template <typename V, typename S>
V build_node(const Node& n, const std::vector<V>& r) {
  switch (n.op) {
    case CONST: return V{S(n.k)};
    case ADD: return r[n.a] + r[n.b];
    case SUB: return r[n.a] - r[n.b];
    case MUL: return r[n.a] * r[n.b];
    case DIV: return r[n.a] / r[n.b];
    case NEG: return -r[n.a];
    case POS: return +r[n.a];
    case ABS: return abs(r[n.a]);
    case ACOS: return acos(r[n.a]);
    case ASIN: return asin(r[n.a]);
    case ATAN: return atan(r[n.a]);
    case ATAN2: return atan2(r[n.a], r[n.b]);
    case CBRT: return cbrt(r[n.a]);
    case COS: return cos(r[n.a]);
    case COSH: return cosh(r[n.a]);
    case ERF: return erf(r[n.a]);
    case EXP: return exp(r[n.a]);
    case HYPOT: return hypot(r[n.a], r[n.b]);
    case HYPOT3: return hypot(r[n.a], r[n.b], r[n.c]);
    case LOG: return log(r[n.a]);
    case LOG10: return log10(r[n.a]);
    case MAX: return max(r[n.a], r[n.b]);
    case MIN: return min(r[n.a], r[n.b]);
    case POW: return pow(r[n.a], r[n.b]);
    case SIGN: return sign(r[n.a]);
    case SIN: return sin(r[n.a]);
    case SINH: return sinh(r[n.a]);
    case SQRT: return sqrt(r[n.a]);
    case TAN: return tan(r[n.a]);
    case TANH: return tanh(r[n.a]);
    case ADD_NUM: return n.k == std::round(n.k) ? r[n.a] + int(n.k) : r[n.a] + S(n.k);
    case NUM_ADD: return S(n.k) + r[n.a];
    case SUB_NUM: return r[n.a] - S(n.k);
    case NUM_SUB: return S(n.k) - r[n.a];
    case MUL_NUM: return r[n.a] * S(n.k);
    case NUM_MUL: return n.k == std::round(n.k) ? int(n.k) * r[n.a] : S(n.k) * r[n.a];
    case DIV_NUM: return r[n.a] / S(n.k);
    case NUM_DIV: return S(n.k) / r[n.a];
    case POW_NUM: return pow(r[n.a], S(n.k));
    case NUM_POW: return pow(S(n.k), r[n.a]);
    case ADD_EQ: { V t = r[n.a]; t += r[n.b]; return t; }
    case SUB_EQ: { V t = r[n.a]; t -= r[n.b]; return t; }
    case MUL_EQ: { V t = r[n.a]; t *= r[n.b]; return t; }
    case DIV_EQ: { V t = r[n.a]; t /= r[n.b]; return t; }
    default: abort();
  }
}

template <typename V, typename S = double>
std::vector<V> build_program(const Program& p, const std::vector<V>& leaves) {
  std::vector<V> r;
  r.reserve(p.nodes.size());
  for (auto& n : p.nodes) {
    if (n.op == VAR) r.push_back(leaves[n.a]);
    else r.push_back(build_node<V, S>(n, r));
  }
  return r;
}

/// The oracle at one point: long double jets, with an error allowance taken
/// from how far plain double jets are off.
struct Oracle {
  std::vector<Jet<long double>> hi;
  std::vector<Jet<double>> lo;
  double scale = 1;
  Oracle() = default;
  Oracle(const Program& p, const std::vector<double>& x) {
    hi = eval_program<long double>(p, x);
    lo = eval_program<double>(p, x);
    for (auto& j : lo) scale = std::max(scale, j.biggest());
  }
  double tol(long double h, double l) const {
    return 2e-9 * scale + 1e4 * std::fabs(double(h - (long double)l)) + 1e-9 * std::fabs(l);
  }
  double v(int i) const { return double(hi[i].v); }
  double vt(int i) const { return tol(hi[i].v, lo[i].v); }
  double g(int i, int k) const { return double(hi[i].g[k]); }
  double gt(int i, int k) const { return tol(hi[i].g[k], lo[i].g[k]); }
  double h(int i, int k, int l) const { return double(hi[i].H(k, l)); }
  double ht(int i, int k, int l) const { return tol(hi[i].H(k, l), lo[i].H(k, l)); }
};

inline std::vector<std::vector<double>> random_points(Rng& g, int nvars, int k) {
  std::vector<std::vector<double>> pts;
  for (int i = 0; i < k; ++i) {
    std::vector<double> x(nvars);
    if (i > 0 && g.chance(0.4)) {  // change a single leaf of an earlier point
      x = pts[g.in(0, i - 1)];
      x[g.in(0, nvars - 1)] = g.real(-3, 3);
    } else {
      for (auto& e : x) {
        e = g.chance(0.15) ? double(g.in(-2, 2)) : g.real(-3, 3);
      }
    }
    pts.push_back(x);
  }
  return pts;
}

}  // namespace vf
