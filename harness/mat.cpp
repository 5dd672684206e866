// M01 - M05: variable matrices, views, in-place operations, linear solve,
// matrix exponential and constraints against an index-based model whose entries
// are nodes of a plain double-valued expression DAG.
#include <cmath>
#include <deque>
#include <functional>
#include <memory>
#include <numeric>
#include <optional>
#include <span>

#include <Eigen/Core>
#include <Eigen/LU>

#include "common.hpp"
#include "sleipnir/autodiff/slice.hpp"
#include "sleipnir/autodiff/variable.hpp"
#include "sleipnir/autodiff/variable_matrix.hpp"

using namespace vf;
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;
using VB = slp::VariableBlock<VM>;
using CVB = slp::VariableBlock<const VM>;
using slp::Slice;
using EM = Eigen::MatrixXd;
using RM = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;

// ------------------------------------------------------------------ the model
struct Dag {
  struct N {
    char op;
    int a = -1, b = -1;
    double k = 0;
  };
  std::vector<N> n;
  std::vector<double> v;  // current values
  int put(N x) {
    n.push_back(x);
    v.push_back(0);
    calc(n.size() - 1);
    return n.size() - 1;
  }
  void calc(int i) {
    auto& x = n[i];
    switch (x.op) {
      case 'l': case 'k': v[i] = x.k; break;
      case '+': v[i] = v[x.a] + v[x.b]; break;
      case '-': v[i] = v[x.a] - v[x.b]; break;
      case '*': v[i] = v[x.a] * v[x.b]; break;
      case '/': v[i] = v[x.a] / v[x.b]; break;
      case 'n': v[i] = -v[x.a]; break;
      case 's': v[i] = std::sin(v[x.a]); break;
      case 'a': v[i] = std::atan(v[x.a]); break;
      case 'h': v[i] = std::hypot(v[x.a], v[x.b]); break;
    }
  }
  void recalc() {
    for (size_t i = 0; i < n.size(); ++i) calc(i);
  }
  int k(double x) { return put({'k', -1, -1, x}); }
  int leaf(double x) { return put({'l', -1, -1, x}); }
  int op(char c, int a, int b = -1) { return put({c, a, b}); }
};

struct MM {  // model matrix
  int r = 0, c = 0;
  std::vector<int> e;
  int& at(int i, int j) { return e[i * c + j]; }
  int at(int i, int j) const { return e[i * c + j]; }
};

struct Obj {
  VM s;
  MM m;
};

struct View {  // a view of an object
  int obj = -1;
  std::vector<int> ri, ci;
  std::optional<VB> s;
  std::string text;
};

struct World {
  Rng& g;
  Dag d;
  std::deque<Obj> objs;
  std::vector<std::pair<int, V>> leaves;  // model leaf, handle
  std::string log;
  bool failed = false;

  explicit World(Rng& g) : g{g} {}

  double num() { return g.chance(0.35) ? double(g.in(-2, 2)) : std::round(g.real(-3, 3) * 256) / 256; }
  double nonzero() {
    double x = 0;
    while (std::fabs(x) < 0.25) x = num();
    return x;
  }
  EM eigen(int r, int c) {
    EM m(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) m(i, j) = num();
    return m;
  }
  MM of(const EM& x) {
    MM m{int(x.rows()), int(x.cols()), {}};
    for (int i = 0; i < m.r; ++i)
      for (int j = 0; j < m.c; ++j) m.e.push_back(d.k(x(i, j)));
    return m;
  }
  int dim() { return g.chance(0.06) ? 0 : g.in(1, 4); }

  Obj fresh(int r, int c) {
    Obj o{VM(r, c), MM{r, c, {}}};
    for (int i = 0; i < r * c; ++i) {
      double x = num();
      if (g.chance(0.2)) {
        o.s[i] = x;
        o.m.e.push_back(d.k(x));
      } else if (!leaves.empty() && g.chance(0.15)) {
        auto& l = leaves[g.in(0, leaves.size() - 1)];
        o.s[i] = l.second;
        o.m.e.push_back(l.first);
      } else {
        int l = d.leaf(x);
        o.s[i].set_value(x);
        o.m.e.push_back(l);
        leaves.emplace_back(l, o.s[i]);
      }
    }
    return o;
  }
  void move_leaves() {
    for (auto& [id, v] : leaves)
      if (g.chance(0.7)) {
        double x = num();
        d.n[id].k = x;
        v.set_value(x);
      }
    d.recalc();
    log += "set_values; ";
  }
  bool same(double got, int id) {
    double want = d.v[id];
    if (!std::isfinite(want) || std::fabs(want) > 1e12) return true;
    R.count("entries compared");
    return std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)) * cond();
  }
  double cond() const { return 1; }
  void fail(const std::string& key, const std::string& msg) {
    R.fail(key, msg + " after: " + log.substr(log.size() > 1200 ? log.size() - 1200 : 0));
    failed = true;
  }
  // Compares a Sleipnir matrix or block with the model, entry by entry
  template <typename S>
  bool check(S& s, const MM& m, const char* what) {
    if (s.rows() != m.r || s.cols() != m.c || static_cast<int>(s.size()) != m.r * m.c) {
      fail(std::string("shape ") + what, fmt("%s: shape %dx%d, expected %dx%d", what, s.rows(), s.cols(), m.r, m.c));
      return false;
    }
    int how = g.in(0, 3);
    EM all;
    if (how == 0) all = s.value();
    for (int i = 0; i < m.r; ++i)
      for (int j = 0; j < m.c; ++j) {
        double got;
        switch (how) {
          case 0: got = all(i, j); break;
          case 1: got = s.value(i, j); break;
          case 2: got = s.value(i * m.c + j); break;
          default: {
            V t = g.chance(0.5) ? V{s[i, j]} : V{s[i * m.c + j]};
            got = t.value();
          }
        }
        if (!same(got, m.at(i, j))) {
          fail(std::string("value ") + what, fmt("%s: entry (%d,%d) of %dx%d is %.17g, expected %.17g (read %d)", what, i, j, m.r, m.c, got, d.v[m.at(i, j)], how));
          return false;
        }
      }
    return true;
  }
  bool check_all(const char* what) {
    for (auto& o : objs)
      if (!check(o.s, o.m, what)) return false;
    return true;
  }
};

// --- Python's slice semantics, from the language reference
struct PySlice {
  std::optional<int> start, stop, step;
  std::vector<int> indices(int len) const {
    long st = step.value_or(1);
    long lower = st < 0 ? -1 : 0, upper = st < 0 ? len - 1 : len;
    auto clamp = [&](std::optional<int> x, long dflt) {
      if (!x) return dflt;
      long v = *x;
      if (v < 0) {
        v += len;
        if (v < lower) v = lower;
      } else if (v > upper) {
        v = upper;
      }
      return v;
    };
    long a = clamp(start, st < 0 ? upper : lower), b = clamp(stop, st < 0 ? lower : upper);
    std::vector<int> r;
    if (st > 0)
      for (long i = a; i < b; i += st) r.push_back(i);
    else
      for (long i = a; i > b; i += st) r.push_back(i);
    return r;
  }
  std::string text() const {
    auto t = [](std::optional<int> x) { return x ? fmt("%d", *x) : std::string("_"); };
    return t(start) + ":" + t(stop) + ":" + t(step);
  }
  Slice slice() const {
    using slp::slicing::_;
    if (start && stop && step) return Slice{*start, *stop, *step};
    if (start && stop) return Slice{*start, *stop, _};
    if (start && step) return Slice{*start, _, *step};
    if (stop && step) return Slice{_, *stop, *step};
    if (start) return Slice{*start, _};
    if (stop) return Slice{_, *stop};
    if (step) return Slice{_, _, *step};
    return Slice{_};
  }
};

static PySlice random_slice(Rng& g, int len) {
  PySlice s;
  auto v = [&] { return g.chance(0.05) ? (g.chance(0.5) ? 1000000 : -1000000) : g.in(-len - 2, len + 2); };
  if (g.chance(0.65)) s.start = v();
  if (g.chance(0.65)) s.stop = v();
  if (g.chance(0.6)) {
    int st = 0;
    while (st == 0) st = g.in(-3, 3);
    s.step = st;
  }
  return s;
}

template <typename T>
static std::vector<int> sub(const std::vector<int>& base, const T& idx) {
  std::vector<int> r;
  for (int i : idx) r.push_back(base[i]);
  return r;
}

// Narrows a view one step further, in one of the ways the interface offers
template <typename S>  // VM or VB
static VB narrow(World& w, S& s, View& v) {
  Rng& g = w.g;
  int R_ = v.ri.size(), C_ = v.ci.size();
  auto range = [](int a, int n) {
    std::vector<int> x(n);
    std::iota(x.begin(), x.end(), a);
    return x;
  };
  switch (g.in(0, 6)) {
    case 0: {
      int a = g.in(0, R_), b = g.in(0, C_), n = g.in(0, R_ - a), m = g.in(0, C_ - b);
      v.text += fmt(".block(%d,%d,%d,%d)", a, b, n, m);
      VB r = s.block(a, b, n, m);
      v.ri = sub(v.ri, range(a, n));
      v.ci = sub(v.ci, range(b, m));
      return r;
    }
    case 1:
      if (R_ > 0) {
        int a = g.in(0, R_ - 1);
        v.text += fmt(".row(%d)", a);
        VB r = s.row(a);
        v.ri = {v.ri[a]};
        return r;
      }
      [[fallthrough]];
    case 2:
      if (C_ > 0) {
        int a = g.in(0, C_ - 1);
        v.text += fmt(".col(%d)", a);
        VB r = s.col(a);
        v.ci = {v.ci[a]};
        return r;
      }
      [[fallthrough]];
    case 3:
      if (C_ == 1 && R_ > 0) {
        int a = g.in(0, R_ - 1), n = g.in(0, R_ - a);
        v.text += fmt(".segment(%d,%d)", a, n);
        VB r = s.segment(a, n);
        v.ri = sub(v.ri, range(a, n));
        return r;
      }
      [[fallthrough]];
    default: {
      PySlice a = random_slice(g, R_), b = random_slice(g, C_);
      // a single index selects that one row or column
      auto single = [&](PySlice& p, int n, Slice& out) {
        if (n > 0 && g.chance(0.15)) {
          int i = g.in(-n, n - 1);
          p.start = i;
          p.stop = i == -1 ? std::nullopt : std::optional<int>{i + 1};
          p.step = {};
          out = Slice{i};
        } else {
          out = p.slice();
        }
      };
      Slice sa, sb;
      single(a, R_, sa);
      single(b, C_, sb);
      v.text += "[" + a.text() + "," + b.text() + "]";
      auto ia = a.indices(R_), ib = b.indices(C_);
      VB r = [&] {
        if (g.chance(0.25)) {  // the form taking precomputed lengths
          int la = sa.adjust(R_), lb = sb.adjust(C_);
          return s[sa, la, sb, lb];
        }
        return s[sa, sb];
      }();
      v.ri = sub(v.ri, ia);
      v.ci = sub(v.ci, ib);
      return r;
    }
  }
}

static View random_view(World& w, int obj, int depth) {
  View v;
  v.obj = obj;
  auto& o = w.objs[obj];
  v.ri.resize(o.m.r);
  v.ci.resize(o.m.c);
  std::iota(v.ri.begin(), v.ri.end(), 0);
  std::iota(v.ci.begin(), v.ci.end(), 0);
  v.text = fmt("M%d", obj);
  if (depth == 0) {
    v.s.emplace(o.s);
    return v;
  }
  VB b = narrow(w, o.s, v);
  v.s.emplace(b);
  for (int i = 1; i < depth; ++i) {
    VB c = narrow(w, *v.s, v);
    v.s.emplace(c);
  }
  return v;
}

static MM model_of(World& w, const View& v) {
  MM m{int(v.ri.size()), int(v.ci.size()), {}};
  for (int i : v.ri)
    for (int j : v.ci) m.e.push_back(w.objs[v.obj].m.at(i, j));
  return m;
}

// A view of exactly the given shape into some object (a dense random window)
static std::optional<View> shaped_view(World& w, int obj, int r, int c) {
  Rng& g = w.g;
  auto& o = w.objs[obj];
  if (o.m.r < r || o.m.c < c) return {};
  View v;
  v.obj = obj;
  auto pick = [&](int n, int len, std::vector<int>& idx, Slice& s) {
    // start/step such that n elements fit
    int maxstep = n > 1 ? (len - 1) / (n - 1) : 1;
    int step = n > 1 ? g.in(1, maxstep) : 1;
    int span = n > 0 ? (n - 1) * step + 1 : 0;
    int a = g.in(0, len - span);
    for (int i = 0; i < n; ++i) idx.push_back(a + i * step);
    if (n > 0 && g.chance(0.3)) {  // reversed
      std::reverse(idx.begin(), idx.end());
      int stop = idx.back() - 1;
      s = stop < 0 ? Slice{idx.front(), slp::slicing::_, -step} : Slice{idx.front(), stop, -step};
    } else {
      s = Slice{a, a + span, step};
    }
  };
  Slice sr, sc;
  pick(r, o.m.r, v.ri, sr);
  pick(c, o.m.c, v.ci, sc);
  v.text = fmt("M%d[%d:%d:%d,%d:%d:%d]", obj, sr.start, sr.stop, sr.step, sc.start, sc.stop, sc.step);
  v.s.emplace(o.s[sr, sc]);
  return v;
}

// ------------------------------------------------------------------- operands
// Calls f(sleipnir-or-eigen operand, model) for a random operand kind of shape
// r x c.
template <typename F>
static void with_operand(World& w, int r, int c, bool allow_eigen, F f) {
  Rng& g = w.g;
  int kind = g.in(0, allow_eigen ? 5 : 3);
  switch (kind) {
    case 0: {
      Obj o = w.fresh(r, c);
      w.log += fmt("mat%dx%d ", r, c);
      f(o.s, o.m);
      return;
    }
    case 1:
    case 2: {
      // a view of a bigger or equal fresh matrix
      w.objs.push_back(w.fresh(r + g.in(0, 2), c + g.in(0, 2)));
      auto v = shaped_view(w, w.objs.size() - 1, r, c);
      w.log += v->text + " ";
      MM m = model_of(w, *v);
      f(*v->s, m);
      return;
    }
    case 3: {
      w.objs.push_back(w.fresh(r + g.in(0, 1), c + g.in(0, 1)));
      auto& o = w.objs.back();
      const VM& cs = o.s;
      int a = g.in(0, o.m.r - r), b = g.in(0, o.m.c - c);
      w.log += fmt("const block(%d,%d,%d,%d) ", a, b, r, c);
      MM m{r, c, {}};
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) m.e.push_back(o.m.at(a + i, b + j));
      CVB cb = cs.block(a, b, r, c);
      f(cb, m);
      return;
    }
    case 4: {
      EM e = w.eigen(r, c);
      w.log += fmt("Eigen%dx%d ", r, c);
      MM m = w.of(e);
      f(e, m);
      return;
    }
    default: {
      RM e = w.eigen(r, c);
      w.log += fmt("EigenRow%dx%d ", r, c);
      MM m = w.of(EM(e));
      f(e, m);
      return;
    }
  }
}

static MM m_bin(World& w, char op, const MM& a, const MM& b) {
  MM r{a.r, a.c, {}};
  for (size_t i = 0; i < a.e.size(); ++i) r.e.push_back(w.d.op(op, a.e[i], b.e[i]));
  return r;
}
static MM m_mul(World& w, const MM& a, const MM& b) {
  MM r{a.r, b.c, {}};
  for (int i = 0; i < a.r; ++i)
    for (int j = 0; j < b.c; ++j) {
      int s = w.d.k(0);
      for (int k = 0; k < a.c; ++k) s = w.d.op('+', s, w.d.op('*', a.at(i, k), b.at(k, j)));
      r.e.push_back(s);
    }
  return r;
}
static MM m_scale(World& w, char op, const MM& a, int k) {
  MM r{a.r, a.c, {}};
  for (int e : a.e) r.e.push_back(w.d.op(op, e, k));
  return r;
}
static MM m_t(const MM& a) {
  MM r{a.c, a.r, {}};
  for (int j = 0; j < a.c; ++j)
    for (int i = 0; i < a.r; ++i) r.e.push_back(a.at(i, j));
  return r;
}

static void finish_m(World& w, VM res, const MM& m, const char* what) {
  if (!w.check(res, m, what)) return;
  w.move_leaves();
  if (!w.check(res, m, what)) return;
  w.objs.push_back({res, m});
  R.nontrivial(hash_str(w.log));
  R.count(what);
}

template <typename T>
constexpr bool is_eig = !slp::SleipnirType<T>;

// -------------------------------------------------------------------- M01
static void m01_arith(Rng& g) {
  World w{g};
  int ops = g.in(1, 4);
  for (int o = 0; o < ops && !w.failed; ++o) {
    int r = w.dim(), c = w.dim(), k = w.dim();
    switch (g.in(0, 13)) {
      case 0: case 1:
        with_operand(w, r, c, true, [&](auto& a, const MM& ma) {
          with_operand(w, r, c, is_eig<decltype(a)> ? false : true, [&](auto& b, const MM& mb) {
            if constexpr (!(is_eig<decltype(a)> && is_eig<decltype(b)>)) {
              w.log += "+; ";
              VM res = a + b;
              finish_m(w, res, m_bin(w, '+', ma, mb), "matrix +");
            }
          });
        });
        break;
      case 2: case 3:
        with_operand(w, r, c, true, [&](auto& a, const MM& ma) {
          with_operand(w, r, c, is_eig<decltype(a)> ? false : true, [&](auto& b, const MM& mb) {
            if constexpr (!(is_eig<decltype(a)> && is_eig<decltype(b)>)) {
              w.log += "-; ";
              VM res = a - b;
              finish_m(w, res, m_bin(w, '-', ma, mb), "matrix -");
            }
          });
        });
        break;
      case 4: case 5:
        with_operand(w, r, k, true, [&](auto& a, const MM& ma) {
          with_operand(w, k, c, is_eig<decltype(a)> ? false : true, [&](auto& b, const MM& mb) {
            if constexpr (!(is_eig<decltype(a)> && is_eig<decltype(b)>)) {
              w.log += "*; ";
              VM res = a * b;
              finish_m(w, res, m_mul(w, ma, mb), "matrix *");
            }
          });
        });
        break;
      case 6:  // scaling
        with_operand(w, r, c, false, [&](auto& a, const MM& ma) {
          double x = w.num();
          int how = g.in(0, 4);
          w.log += fmt("scale%d; ", how);
          if constexpr (!is_eig<decltype(a)>) {
            if (how < 2) {
              VM res = how ? VM{x * a} : VM{a * x};
              finish_m(w, res, m_scale(w, '*', ma, w.d.k(x)), "matrix * number");
            } else if (how == 2) {
              int xi = g.in(-3, 3);
              VM res = g.chance(0.5) ? VM{xi * a} : VM{a * xi};
              finish_m(w, res, m_scale(w, '*', ma, w.d.k(xi)), "matrix * int");
            } else {
              int l = w.d.leaf(x);
              V v;
              v.set_value(x);
              w.leaves.emplace_back(l, v);
              VM res = how == 3 ? VM{v * a} : VM{a * v};
              finish_m(w, res, m_scale(w, '*', ma, l), "matrix * variable");
            }
          }
        });
        break;
      case 7:  // quotient
        with_operand(w, r, c, false, [&](auto& a, const MM& ma) {
          double x = w.nonzero();
          w.log += "quot; ";
          if constexpr (!is_eig<decltype(a)>) {
            if (g.chance(0.5)) {
              V v;
              v.set_value(x);
              int l = w.d.leaf(x);  // stays put: never zero
              VM res = a / v;
              finish_m(w, res, m_scale(w, '/', ma, l), "matrix / variable");
            } else {
              VM res = a / x;
              finish_m(w, res, m_scale(w, '/', ma, w.d.k(x)), "matrix / number");
            }
          }
        });
        break;
      case 8:
        with_operand(w, r, c, false, [&](auto& a, const MM& ma) {
          if constexpr (!is_eig<decltype(a)>) {
            if (g.chance(0.5)) {
              w.log += "neg; ";
              MM m{ma.r, ma.c, {}};
              for (int e : ma.e) m.e.push_back(w.d.op('n', e));
              finish_m(w, -a, m, "matrix negation");
            } else {
              w.log += "T; ";
              finish_m(w, a.T(), m_t(ma), "transpose");
            }
          }
        });
        break;
      case 9:
        with_operand(w, r, c, false, [&](auto& a, const MM& ma) {
          if constexpr (!is_eig<decltype(a)>) {
            w.log += "cwise; ";
            if (g.chance(0.5)) {
              MM m{ma.r, ma.c, {}};
              for (int e : ma.e) m.e.push_back(w.d.op('s', e));
              finish_m(w, a.cwise_transform([](const V& x) { return sin(x); }), m, "cwise_transform");
            } else {
              Obj b = w.fresh(r, c);
              VM av{a};
              finish_m(w, slp::cwise_reduce<double>(av, b.s, [](const V& x, const V& y) { return x - y * 2.0; }),
                       m_bin(w, '-', ma, m_scale(w, '*', b.m, w.d.k(2))), "cwise_reduce");
            }
          }
        });
        break;
      case 10: {  // block concatenation
        int rows = g.in(1, 3), cols = g.in(1, 3);
        std::vector<int> rh(rows), cw(cols);
        for (int& x : rh) x = g.in(0, 2);
        for (int& x : cw) x = g.in(0, 2);
        std::vector<std::vector<VM>> list(rows);
        std::vector<std::vector<MM>> ml(rows);
        for (int i = 0; i < rows; ++i)
          for (int j = 0; j < cols; ++j) {
            Obj o = w.fresh(rh[i], cw[j]);
            list[i].push_back(o.s);
            ml[i].push_back(o.m);
          }
        w.log += fmt("block %dx%d; ", rows, cols);
        MM m{std::accumulate(rh.begin(), rh.end(), 0), std::accumulate(cw.begin(), cw.end(), 0), {}};
        for (int i = 0; i < rows; ++i)
          for (int a = 0; a < rh[i]; ++a)
            for (int j = 0; j < cols; ++j)
              for (int b = 0; b < cw[j]; ++b) m.e.push_back(ml[i][j].at(a, b));
        if (rows == 2 && cols == 2 && g.chance(0.6))
          finish_m(w, slp::block<double>({{list[0][0], list[0][1]}, {list[1][0], list[1][1]}}), m, "block list");
        else if (rows == 1 && cols == 3 && g.chance(0.6))
          finish_m(w, slp::block<double>({{list[0][0], list[0][1], list[0][2]}}), m, "block list");
        else if (rows == 3 && cols == 1 && g.chance(0.6))
          finish_m(w, slp::block<double>({{list[0][0]}, {list[1][0]}, {list[2][0]}}), m, "block list");
        else
          finish_m(w, slp::block<double>(list), m, "block vector");
        break;
      }
      case 11: {  // constant constructors
        int how = g.in(0, 3);
        w.log += fmt("constant%d; ", how);
        EM e;
        VM res;
        double x = w.num();
        if (how == 0) { res = VM::identity(r); e = EM::Identity(r, r); }
        if (how == 1) { res = VM::zero(r, c); e = EM::Zero(r, c); }
        if (how == 2) { res = VM::one(r, c); e = EM::Ones(r, c); }
        if (how == 3) { res = VM::constant(r, c, x); e = EM::Constant(r, c, x); }
        finish_m(w, res, w.of(e), "constant matrix");
        break;
      }
      case 12: {  // other constructors
        int how = g.in(0, 8);
        w.log += fmt("construct%d; ", how);
        if (r == 0) c = 0;
        EM e = w.eigen(r, c);
        if (how == 0) {
          std::vector<std::vector<double>> l(r, std::vector<double>(c));
          for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) l[i][j] = e(i, j);
          finish_m(w, VM{l}, w.of(e), "from numbers");
        } else if (how == 1) {
          Obj o = w.fresh(r, c);
          std::vector<std::vector<V>> l(r, std::vector<V>(c));
          for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) l[i][j] = o.s[i, j];
          finish_m(w, VM{l}, o.m, "from variables");
        } else if (how == 2) {
          Obj o = w.fresh(2, 3);
          auto& s = o.s;
          finish_m(w, VM{{s[0, 0], s[0, 1], s[0, 2]}, {s[1, 0], s[1, 1], s[1, 2]}}, o.m, "from list");
        } else if (how == 3) {
          finish_m(w, VM{e}, w.of(e), "from Eigen");
        } else if (how == 4) {
          Eigen::VectorXd dg = w.eigen(r, 1);
          finish_m(w, VM{dg.asDiagonal()}, w.of(EM(dg.asDiagonal())), "from diagonal");
        } else if (how == 5) {
          Obj o = w.fresh(r, c);
          std::vector<V> flat(o.s.begin(), o.s.end());
          finish_m(w, VM{std::span<const V>{flat}, r, c}, o.m, "from span");
        } else if (how == 6) {
          Obj o = w.fresh(r, 1);
          std::vector<V> flat(o.s.begin(), o.s.end());
          finish_m(w, VM{std::span<const V>{flat}}, o.m, "from span");
        } else if (how == 7) {
          Obj o = w.fresh(r, c);
          o.s = e;  // assign numbers
          finish_m(w, o.s, w.of(e), "assign Eigen");
        } else {
          Obj o = w.fresh(r, c);
          VM back{o.s.to_eigen()};
          finish_m(w, back, o.m, "to_eigen");
        }
        break;
      }
      default: {  // conversions of 1x1, set_value through a matrix
        if (g.chance(0.5)) {
          Obj o = w.fresh(1, 1);
          w.log += "1x1; ";
          V v = o.s;
          V u = o.s.block(0, 0, 1, 1);
          V e = v + u * 2.0;
          MM m{1, 1, {w.d.op('+', o.m.e[0], w.d.op('*', o.m.e[0], w.d.k(2)))}};
          finish_m(w, VM{e}, m, "1x1 conversion");
        } else {
          VM s(r, c);
          EM e = w.eigen(r, c);
          w.log += "set_value matrix; ";
          VM twice = s * 2.0;
          s.set_value(e);
          finish_m(w, twice, w.of(EM(2 * e)), "matrix set_value");
        }
      }
    }
  }
  if (!w.failed) {
    w.move_leaves();
    w.check_all("earlier results");
  }
  R.sample(w.log);
}

// -------------------------------------------------------------------- M02
static bool view_reads(World& w, View& v) {
  MM m = model_of(w, v);
  if (!w.check(*v.s, m, "view")) return false;
  // iteration, all flavours
  std::vector<int> want = m.e, got;
  auto seq = [&](auto b, auto e, bool rev, const char* what) {
    size_t i = 0;
    for (auto it = b; it != e; ++it, ++i) {
      if (i >= m.e.size()) break;
      V t = *it;
      if (!w.same(t.value(), m.e[rev ? m.e.size() - 1 - i : i])) {
        w.fail(std::string("iteration ") + what, fmt("element %zu of iteration %s over %s wrong", i, what, v.text.c_str()));
        return false;
      }
    }
    if (i != m.e.size()) {
      w.fail(std::string("iteration ") + what, fmt("%zu elements visited of %zu in %s", i, m.e.size(), v.text.c_str()));
      return false;
    }
    return true;
  };
  VB& b = *v.s;
  const VB& cb = b;
  switch (w.g.in(0, 3)) {
    case 0: return seq(b.begin(), b.end(), false, "forward");
    case 1: return seq(cb.begin(), cb.end(), false, "const forward");
    case 2: return seq(b.cbegin(), b.cend(), false, "cbegin");
    default: return seq(b.rbegin(), b.rend(), true, "reverse");
  }
}

static void m02_views(Rng& g) {
  World w{g};
  w.objs.push_back(w.fresh(g.in(0, 6), g.in(0, 6)));
  if (g.chance(0.4)) w.objs.push_back(w.fresh(g.in(1, 5), g.in(1, 5)));
  int steps = g.in(1, 5);
  for (int st = 0; st < steps && !w.failed; ++st) {
    View v = random_view(w, g.in(0, w.objs.size() - 1), g.in(1, 3));
    w.log += v.text + " ";
    if (!view_reads(w, v)) break;
    int r = v.ri.size(), c = v.ci.size();
    R.count("views");
    if (r * c > 0) R.count("nonempty views");
    R.nontrivial(hash_str(v.text));
    auto& om = w.objs[v.obj].m;
    switch (g.in(0, 6)) {
      case 0: {  // write numbers through the view
        EM e = w.eigen(r, c);
        *v.s = e;
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) om.at(v.ri[i], v.ci[j]) = w.d.k(e(i, j));
        w.log += "= Eigen; ";
        break;
      }
      case 1: {  // write another matrix
        Obj o = w.fresh(r, c);
        if (g.chance(0.5)) *v.s = o.s;
        else *v.s = VM{o.s};
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) om.at(v.ri[i], v.ci[j]) = o.m.at(i, j);
        w.log += "= matrix; ";
        break;
      }
      case 2: {  // single elements
        if (r * c == 0) break;
        int i = g.in(0, r - 1), j = g.in(0, c - 1);
        double x = w.num();
        if (g.chance(0.5)) (*v.s)[i, j] = x;
        else (*v.s)[i * c + j] = x;
        om.at(v.ri[i], v.ci[j]) = w.d.k(x);
        w.log += "element = number; ";
        break;
      }
      case 3: {  // scalar into 1x1
        if (r != 1 || c != 1) break;
        double x = w.num();
        *v.s = x;
        om.at(v.ri[0], v.ci[0]) = w.d.k(x);
        w.log += "= number; ";
        break;
      }
      case 4: {  // fresh leaves, then set_value through the view
        Obj o{VM(r, c), MM{r, c, {}}};
        for (int i = 0; i < r * c; ++i) {
          int l = w.d.leaf(0);
          o.m.e.push_back(l);
          w.leaves.emplace_back(l, o.s[i]);
        }
        *v.s = o.s;
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) om.at(v.ri[i], v.ci[j]) = o.m.at(i, j);
        EM e = w.eigen(r, c);
        if (r == 1 && c == 1 && g.chance(0.5)) v.s->set_value(e(0, 0));
        else v.s->set_value(e);
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) w.d.n[o.m.at(i, j)].k = e(i, j);
        w.d.recalc();
        w.log += "set_value; ";
        break;
      }
      case 5: {  // assign from a view of another object
        if (w.objs.size() < 2) break;
        auto u = shaped_view(w, 1 - v.obj, r, c);
        if (!u) break;
        MM um = model_of(w, *u);
        *v.s = *u->s;
        for (int i = 0; i < r; ++i)
          for (int j = 0; j < c; ++j) om.at(v.ri[i], v.ci[j]) = um.at(i, j);
        w.log += "= " + u->text + "; ";
        break;
      }
      default: w.move_leaves();
    }
    if (!w.check_all("after write through a view")) break;
    if (!view_reads(w, v)) break;
    // reading through a const matrix and const view
    const VM& cm = w.objs[v.obj].s;
    PySlice a = random_slice(g, om.r), b = random_slice(g, om.c);
    auto ia = a.indices(om.r), ib = b.indices(om.c);
    auto cv = cm[a.slice(), b.slice()];
    if (cv.rows() != int(ia.size()) || cv.cols() != int(ib.size())) {
      w.fail("shape const view", "const view " + a.text() + "," + b.text());
      break;
    }
    for (size_t i = 0; i < ia.size() && !w.failed; ++i)
      for (size_t j = 0; j < ib.size(); ++j) {
        V t = cv[i, j];
        if (!w.same(t.value(), om.at(ia[i], ib[j]))) {
          w.fail("value const view", fmt("const view %s,%s entry %zu,%zu", a.text().c_str(), b.text().c_str(), i, j));
          break;
        }
      }
    // views of const views
    const auto& ccv = cv;
    auto nested = [&](const auto& nv, const std::vector<int>& ni, const std::vector<int>& nj, const std::string& text) {
      R.count("nested const views");
      if (nv.rows() != int(ni.size()) || nv.cols() != int(nj.size())) {
        w.fail("shape nested const view", "const view " + a.text() + "," + b.text() + " then " + text);
        return;
      }
      std::vector<int> want;
      for (int i : ni) for (int j : nj) want.push_back(om.at(ia[i], ib[j]));
      size_t k = 0;
      for (size_t i = 0; i < ni.size() && !w.failed; ++i)
        for (size_t j = 0; j < nj.size(); ++j, ++k) {
          V t = nv[i, j];
          V u = nv[i * nj.size() + j];
          if (!w.same(t.value(), want[k]) || !w.same(u.value(), want[k])) {
            w.fail("value nested const view", fmt("const view %s,%s then %s entry %zu,%zu", a.text().c_str(), b.text().c_str(), text.c_str(), i, j));
            return;
          }
        }
      k = 0;
      for (auto it = nv.begin(); it != nv.end() && !w.failed; ++it, ++k) {
        V t = *it;
        if (k >= want.size() || !w.same(t.value(), want[k])) w.fail("iteration nested const view", text);
      }
      if (!w.failed) {
        VM copy = nv;
        for (k = 0; k < want.size() && !w.failed; ++k)
          if (!w.same(copy[k].value(), want[k])) w.fail("copy nested const view", text);
      }
    };
    if (!w.failed) {
      int hr = ia.size(), hc = ib.size();
      auto all = [](int n) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; };
      PySlice na = random_slice(g, hr), nb = random_slice(g, hc);
      auto nv = ccv[na.slice(), nb.slice()];
      nested(nv, na.indices(hr), nb.indices(hc), na.text() + "," + nb.text());
      if (!w.failed) {  // third level
        auto i2 = na.indices(hr), j2 = nb.indices(hc);
        PySlice ta = random_slice(g, i2.size()), tb = random_slice(g, j2.size());
        const auto& cnv = nv;
        auto tv = cnv[ta.slice(), tb.slice()];
        std::vector<int> ti, tj;
        for (int i : ta.indices(i2.size())) ti.push_back(i2[i]);
        for (int j : tb.indices(j2.size())) tj.push_back(j2[j]);
        nested(tv, ti, tj, na.text() + "," + nb.text() + " then " + ta.text() + "," + tb.text());
      }
      if (!w.failed && hr > 0 && hc > 0) {
        int i = g.in(0, hr - 1), j = g.in(0, hc - 1), n = g.in(0, hr - i), m = g.in(0, hc - j);
        std::vector<int> bi, bj;
        for (int k = 0; k < n; ++k) bi.push_back(i + k);
        for (int k = 0; k < m; ++k) bj.push_back(j + k);
        nested(ccv.block(i, j, n, m), bi, bj, "block");
        if (!w.failed) nested(ccv.row(i), {i}, all(hc), "row");
        if (!w.failed) nested(ccv.col(j), all(hr), {j}, "col");
        if (!w.failed && hc == 1) nested(ccv.segment(i, n), bi, {0}, "segment");
      }
    }
    if (!w.failed && om.r > 0 && om.c > 0) {
      int i = g.in(0, om.r - 1), j = g.in(0, om.c - 1);
      V t = cm.row(i)[0, j], u = cm.col(j)[i, 0];
      if (!w.same(t.value(), om.at(i, j)) || !w.same(u.value(), om.at(i, j))) w.fail("value const row/col", "const row or column");
      if (om.c == 1) {
        int n = g.in(0, om.r - i);
        auto sg = cm.segment(i, n);
        if (sg.rows() != n) w.fail("shape const segment", "const segment");
        if (n > 0) {
          V s0 = sg[n - 1, 0];
          if (!w.same(s0.value(), om.at(i + n - 1, 0))) w.fail("value const segment", "const segment");
        }
      }
    }
  }
  // matrices' own iteration
  for (auto& o : w.objs) {
    if (w.failed) break;
    size_t i = 0;
    for (auto& e : o.s) {
      if (!w.same(e.value(), o.m.e[i])) {
        w.fail("iteration matrix", "forward");
        break;
      }
      ++i;
    }
    if (!w.failed && i != o.m.e.size()) w.fail("iteration matrix", "count");
    i = o.m.e.size();
    if (!w.failed)
      for (auto it = o.s.rbegin(); it != o.s.rend(); ++it) {
        V t = *it;
        if (!w.same(t.value(), o.m.e[--i])) {
          w.fail("iteration matrix", "reverse");
          break;
        }
      }
  }
  R.sample(w.log);
}

// Every slice of every short length, against Python's rules
static void m02_slices(Rng& g) {
  static const std::vector<std::optional<int>> ends = [] {
    std::vector<std::optional<int>> e{std::nullopt};
    for (int i = -9; i <= 9; ++i) e.push_back(i);
    e.push_back(std::numeric_limits<int>::max());
    e.push_back(-1000);
    e.push_back(std::numeric_limits<int>::min() + 8);
    return e;
  }();
  int len = R.cur_index % 8;
  for (auto& st : ends)
    for (auto& sp : ends)
      for (int step = -5; step <= 6; ++step) {
        if (step == 0) continue;
        PySlice p{st, sp, step == 6 ? std::optional<int>{} : step == 5 ? std::optional<int>{1 << 28} : step};
        Slice s = p.slice();
        int n = s.adjust(len);
        auto want = p.indices(len);
        bool ok = n == int(want.size());
        for (int i = 0; ok && i < n; ++i) ok = s.start + i * s.step == want[i];
        R.count("slices compared");
        if (n > 0) R.nontrivial(hash_str(p.text(), len));
        VF_CHECK(ok, "slice", "slice %s of length %d selects %d elements from %d step %d, expected %zu%s", p.text().c_str(), len, n,
                 s.start, s.step, want.size(), want.empty() ? "" : fmt(" from %d", want[0]).c_str());
      }
  for (int i = -len; i < len; ++i) {
    Slice s{i};
    int n = s.adjust(len);
    VF_CHECK(n == 1 && s.start == (i < 0 ? i + len : i), "slice index", "Slice{%d} of length %d: %d elements from %d", i, len, n, s.start);
  }
  {
    Slice s{slp::slicing::_};
    VF_CHECK(s.adjust(len) == len && s.start == 0, "slice all", "Slice{_} of length %d", len);
    Slice d;
    VF_CHECK(d.adjust(len) == 0, "slice default", "Slice{} of length %d", len);
    Slice t{slp::slicing::_, slp::slicing::_, slp::slicing::_};
    VF_CHECK(t.adjust(len) == len && t.start == 0 && t.step == 1, "slice all", "Slice{_,_,_} of length %d", len);
    Slice m{slp::slicing::_, slp::slicing::_, std::numeric_limits<int>::min()};
    VF_CHECK(m.adjust(len) == (len > 0), "slice min step", "Slice{_,_,INT_MIN} of length %d", len);
  }
  R.sample(fmt("all slices of length %d", len));
}

// -------------------------------------------------------------------- M03
static void m03_inplace(Rng& g) {
  World w{g};
  int n = g.in(1, 4);
  bool square = g.chance(0.5);
  w.objs.push_back(w.fresh(n, square ? n : g.in(1, 4)));
  w.objs.push_back(w.fresh(g.in(1, 4), g.in(1, 4)));
  int steps = g.in(1, 4);
  for (int st = 0; st < steps && !w.failed; ++st) {
    int oi = g.in(0, 1);
    auto& o = w.objs[oi];
    bool whole = g.chance(0.35);
    // target: the whole matrix or a view of it
    View t;
    if (whole) {
      t = random_view(w, oi, 0);
    } else {
      int r = g.in(1, o.m.r), c = g.in(1, o.m.c);
      t = *shaped_view(w, oi, r, c);
    }
    int r = t.ri.size(), c = t.ci.size();
    MM before = model_of(w, t);
    w.log += t.text + (whole ? "(whole) " : " ");
    auto store = [&](const MM& m) {
      for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j) o.m.at(t.ri[i], t.ci[j]) = m.at(i, j);
    };
    // a right-hand side of the right shape, usually overlapping the target
    auto rhs = [&](int rr, int cc) -> std::optional<View> {
      int src = g.chance(0.85) ? oi : 1 - oi;
      return shaped_view(w, src, rr, cc);
    };
    int op = g.in(0, 9);
    switch (op) {
      case 0: case 1: case 2: {  // += -= =
        auto u = rhs(r, c);
        if (!u) break;
        MM um = model_of(w, *u);
        bool same_obj = u->obj == oi && u->ri == t.ri && u->ci == t.ci;
        R.count(u->obj == oi ? "overlapping operands" : "separate operands");
        w.log += fmt("%s %s; ", op == 0 ? "+=" : op == 1 ? "-=" : "=", u->text.c_str());
        bool whole_src = u->obj == oi && int(u->ri.size()) == o.m.r && int(u->ci.size()) == o.m.c && same_obj;
        (void)whole_src;
        int form = g.in(0, 2);
        if (op == 0) {
          if (whole) o.s += *u->s; else *t.s += *u->s;
          store(m_bin(w, '+', before, um));
        } else if (op == 1) {
          if (whole) o.s -= *u->s; else *t.s -= *u->s;
          store(m_bin(w, '-', before, um));
        } else {
          if (whole) o.s = *u->s;                       // VM = block of (maybe) itself
          else if (form == 0) *t.s = *u->s;             // block = block
          else if (form == 1) { VB tmp{*u->s}; *t.s = std::move(tmp); }
          else *t.s = VM{*u->s};
          store(um);
        }
        break;
      }
      case 3: {  // *= matrix (square on the right)
        if (c > 4) break;
        auto u = rhs(c, c);
        if (!u) break;
        MM um = model_of(w, *u);
        w.log += fmt("*= %s; ", u->text.c_str());
        R.count(u->obj == oi ? "overlapping operands" : "separate operands");
        if (whole) o.s *= *u->s; else *t.s *= *u->s;
        store(m_mul(w, before, um));
        break;
      }
      case 4: case 5: {  // scale by an element of the same matrix
        int i = g.in(0, o.m.r - 1), j = g.in(0, o.m.c - 1);
        int id = o.m.at(i, j);
        if (op == 5 && std::fabs(w.d.v[id]) < 0.05) break;
        w.log += fmt("%s own element (%d,%d); ", op == 4 ? "*=" : "/=", i, j);
        R.count("overlapping operands");
        int how = g.in(0, 2);
        if (op == 4) {
          if (how == 0) { if (whole) o.s *= o.s[i, j]; else *t.s *= o.s[i, j]; }
          else if (how == 1) { const V& e = o.s[i, j]; if (whole) o.s *= e; else *t.s *= e; }
          else { V e = o.s[i, j]; if (whole) o.s *= e; else *t.s *= e; }
        } else {
          if (how == 0) { if (whole) o.s /= o.s[i, j]; else *t.s /= o.s[i, j]; }
          else if (how == 1) { const V& e = o.s[i, j]; if (whole) o.s /= e; else *t.s /= e; }
          else { V e = o.s[i, j]; if (whole) o.s /= e; else *t.s /= e; }
        }
        store(m_scale(w, op == 4 ? '*' : '/', before, id));
        break;
      }
      case 6: {  // whole matrix with itself, by name
        w.log += "self; ";
        R.count("overlapping operands");
        int how = g.in(0, o.m.r == o.m.c ? 4 : 2);
        MM whole_m = o.m;
        switch (how) {
          case 0: o.s += o.s; o.m = m_bin(w, '+', whole_m, whole_m); break;
          case 1: o.s -= o.s; o.m = m_bin(w, '-', whole_m, whole_m); break;
          case 2: { VM& alias = o.s; o.s = alias; break; }
          case 3: o.s *= o.s; o.m = m_mul(w, whole_m, whole_m); break;
          default: o.s = o.s * o.s.T() - o.s; o.m = m_bin(w, '-', m_mul(w, whole_m, m_t(whole_m)), whole_m); break;
        }
        break;
      }
      case 7: {  // a block of a matrix from the matrix it views
        if (r != o.m.r || c != o.m.c) break;
        MM whole_m = o.m;
        w.log += "block = its own matrix; ";
        R.count("overlapping operands");
        int how = g.in(0, 3);
        if (how == 0) { *t.s = o.s; store(whole_m); }
        else if (how == 1) { *t.s += o.s; store(m_bin(w, '+', before, whole_m)); }
        else if (how == 2) { o.s += *t.s; o.m = m_bin(w, '+', whole_m, before); }
        else { o.s = o.s - *t.s; o.m = m_bin(w, '-', whole_m, before); }
        break;
      }
      case 8: {  // numbers
        EM e = w.eigen(r, c);
        MM em = w.of(e);
        w.log += "+= Eigen; ";
        if (g.chance(0.5)) { if (whole) o.s += e; else *t.s += e; store(m_bin(w, '+', before, em)); }
        else { if (whole) o.s -= e; else *t.s -= e; store(m_bin(w, '-', before, em)); }
        break;
      }
      default: {  // plain numbers and 1x1
        double x = w.nonzero();
        w.log += "scalar; ";
        if (r == 1 && c == 1 && g.chance(0.7)) {
          V e = o.s[o.m.r - 1, o.m.c - 1];
          int id = o.m.at(o.m.r - 1, o.m.c - 1);
          if (g.chance(0.5)) { *t.s += e; store(m_scale(w, '+', before, id)); }
          else { *t.s -= x; store(m_scale(w, '-', before, w.d.k(x))); }
        } else if (g.chance(0.5)) {
          if (whole) o.s *= x; else *t.s *= x;
          store(m_scale(w, '*', before, w.d.k(x)));
        } else {
          if (whole) o.s /= x; else *t.s /= x;
          store(m_scale(w, '/', before, w.d.k(x)));
        }
      }
    }
    if (w.failed) break;
    for (int e : o.m.e)
      if (!std::isfinite(w.d.v[e]) || std::fabs(w.d.v[e]) > 1e9) return;
    if (!w.check_all("after in-place operation")) break;
    w.move_leaves();
    for (auto& ob : w.objs)
      for (int e : ob.m.e)
        if (!std::isfinite(w.d.v[e]) || std::fabs(w.d.v[e]) > 1e9) return;
    if (!w.check_all("after in-place operation and change of leaves")) break;
    R.nontrivial(hash_str(w.log));
  }
  R.sample(w.log);
}

// -------------------------------------------------------------------- M04
// A random well-conditioned matrix: diagonally dominant up to row permutation
static EM well_conditioned(Rng& g, int n, bool permute) {
  EM a(n, n);
  for (int i = 0; i < n; ++i) {
    double s = 0;
    for (int j = 0; j < n; ++j) {
      a(i, j) = g.chance(0.2) ? 0 : g.real(-1, 1);
      s += std::fabs(a(i, j));
    }
    a(i, i) = (s + g.real(0.5, 1.5)) * (g.chance(0.5) ? 1 : -1);
  }
  if (permute)
    for (int i = n - 1; i > 0; --i) a.row(i).swap(a.row(g.in(0, i)));
  return a;
}

static void m04_solve(Rng& g) {
  int n = g.chance(0.15) ? g.in(5, 7) : g.in(1, 4), p = g.in(1, 3);
  VM A(n, n), B(n, p);
  EM a = well_conditioned(g, n, g.chance(0.5)), b(n, p);
  std::vector<std::vector<bool>> fixed(n, std::vector<bool>(n));
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (g.chance(0.15)) {
        fixed[i][j] = true;
        A[i, j] = a(i, j);
      } else {
        A[i, j].set_value(a(i, j));
      }
  for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) b(i, j) = g.real(-3, 3);
  B.set_value(b);
  // Values at construction: the well-conditioned ones, (for n <= 4) anything
  bool anyv = n <= 4 && g.chance(0.5);
  if (anyv)
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!fixed[i][j]) A[i, j].set_value(g.chance(0.5) ? 0 : g.real(-1, 1));
  VM X = solve(A, B);
  VF_CHECK(X.rows() == n && X.cols() == p, "solve shape", "solution is %dx%d for n=%d p=%d", X.rows(), X.cols(), n, p);
  R.nontrivial(g.next());
  R.sample(fmt("%dx%d system, %d right-hand sides", n, n, p));
  for (int rep = 0; rep < 3; ++rep) {
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!fixed[i][j]) A[i, j].set_value(a(i, j));
    B.set_value(b);
    EM x = X.value();
    double res = (a * x - b).cwiseAbs().maxCoeff(), scale = 1 + a.cwiseAbs().maxCoeff() * x.cwiseAbs().maxCoeff();
    R.count(fmt("solve n=%d", n));
    R.maximum("relative residual", std::isfinite(res) ? res / scale : 1e300);
    VF_CHECK(std::isfinite(res) && res <= 1e-7 * scale, rep ? fmt("solve moved n=%s", n > 4 ? ">4" : "<=4") : "solve", "n=%d p=%d: residual of A X - B is %g after %d changes of value (values at construction %s)", n, p, res, rep,
             anyv ? "arbitrary" : "well-conditioned");
    // move: another well-conditioned matrix with the fixed entries kept
    EM a2 = a;
    for (int tries = 0; tries < 30; ++tries) {
      EM c = well_conditioned(g, n, n <= 4 && g.chance(0.5));
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fixed[i][j]) c(i, j) = a(i, j);
      if (std::fabs(c.determinant()) > 0.3 && c.inverse().cwiseAbs().maxCoeff() < 20) {
        a2 = c;
        break;
      }
    }
    if (n > 4) {
      // the size range with a known finding: stay generic (no zero entries)
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!fixed[i][j]) a2(i, j) = a(i, j) * g.real(0.9, 1.1);
    }
    a = a2;
    for (int i = 0; i < n; ++i) for (int j = 0; j < p; ++j) b(i, j) = g.real(-3, 3);
  }
}

// Systems of five and more unknowns built while entries are zero
static void m04_solve_zero(Rng& g) {
  int n = g.in(5, 6);
  VM A(n, n), B(n, 1);
  EM a = well_conditioned(g, n, false), b = EM::Ones(n, 1);
  VM X = solve(A, B);
  A.set_value(a);
  B.set_value(b);
  EM x = X.value();
  R.nontrivial(g.next());
  R.count("solve built at zero");
  double res = (a * x - b).cwiseAbs().maxCoeff();
  VF_CHECK(std::isfinite(res) && res < 1e-6, "built at zero", "n=%d: residual of A X - B is %g", n, res);
}

static EM expm_ref(const EM& a) {
  // scaling and squaring with a long Taylor series in long double
  using L = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
  int n = a.rows(), s = 8;
  L m = a.cast<long double>() / std::pow(2.0L, s), t = L::Identity(n, n), e = t;
  for (int k = 1; k < 24; ++k) {
    t = t * m / (long double)k;
    e += t;
  }
  for (int i = 0; i < s; ++i) e = e * e;
  return e.cast<double>();
}

static void m04_exp(Rng& g) {
  int n = g.chance(0.1) ? 0 : g.in(1, 5);
  VM A(n, n);
  // While size * n <= 0.8 the Pade denominator is diagonally dominant, so that
  // no pivoting happens (pivoting while building is a known finding)
  double size = n == 1 ? g.real(0.1, 3) : g.real(0.05, 0.8) / n;
  auto rnd = [&] {
    EM a(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = g.chance(0.25) ? 0 : size * g.real(-1, 1);
    return a;
  };
  bool zero_start = g.chance(0.4);
  EM a = zero_start ? EM::Zero(n, n) : rnd();
  A.set_value(a);
  if (n == 0) return;
  VM E = g.chance(0.3) ? A.block(0, 0, n, n).exp() : A.exp();
  R.nontrivial(g.next());
  R.sample(fmt("exp of %dx%d", n, n));
  for (int rep = 0; rep < 3; ++rep) {
    EM want = expm_ref(a), got = E.value();
    VF_CHECK(got.rows() == n && got.cols() == n, "exp shape", "shape");
    double err = (got - want).cwiseAbs().maxCoeff();
    R.count(fmt("exp n=%d", n));
    R.maximum("exp error", std::isfinite(err) ? err : 1e300);
    VF_CHECK(std::isfinite(err) && err < 1e-8 * (1 + want.cwiseAbs().maxCoeff()), "exp", "n=%d: error %g (repetition %d, built at %s)", n, err, rep, zero_start ? "zero" : "random");
    a = rnd();
    A.set_value(a);
  }
}

// exp() built where its LU factorization pivots, evaluated elsewhere
static void m04_exp_pivot(Rng& g) {
  VM A(2, 2);
  EM a{{0, -g.real(8, 12)}, {0, 0}};
  A.set_value(a);
  VM E = A.exp();
  double err = (E.value() - EM{{1, a(0, 1)}, {0, 1}}).cwiseAbs().maxCoeff();
  VF_CHECK(std::isfinite(err) && err < 1e-6, "exp at build values", "error %g", err);
  R.nontrivial(g.next());
  R.count("exp built with pivoting");
  A.set_value(EM::Zero(2, 2));
  err = (E.value() - EM::Identity(2, 2)).cwiseAbs().maxCoeff();
  VF_CHECK(std::isfinite(err) && err < 1e-6, "pivoted", "error %g at the zero matrix", err);
}

// -------------------------------------------------------------------- M05
enum Rel { EQ, LE, LT, GE, GT };

static void m05_relation(Rng& g) {
  World w{g};
  // integers so that relations hold exactly sometimes
  int r = g.chance(0.4) ? 1 : g.in(1, 3), c = g.chance(0.4) ? 1 : g.in(1, 3);
  auto ints = [&](int rr, int cc) {
    EM e(rr, cc);
    for (int i = 0; i < rr; ++i) for (int j = 0; j < cc; ++j) {
      e(i, j) = g.in(-1, 1) * (g.chance(0.2) ? 0.5 : 1);
      // all but equal
      if (g.chance(0.06)) e(i, j) += g.pick(std::vector<double>{1e-13, -1e-13, 4e-16, -4e-16, 1e-9, -1e-9});
      if (g.chance(0.02) && e(i, j) == 0) e(i, j) = g.chance(0.5) ? 1e-300 : -1e-300;
    }
    return e;
  };
  struct Side { int kind; VM m; EM e; V v; double d; std::optional<VB> b; VM big; };
  auto side = [&](int kind) {
    auto s = std::make_unique<Side>();
    s->kind = kind;
    s->e = ints(kind < 2 ? 1 : r, kind < 2 ? 1 : c);
    if (kind == 0) s->d = s->e(0, 0);
    if (kind == 1) s->v.set_value(s->e(0, 0));
    if (kind == 2) { s->m = VM(r, c); s->m.set_value(s->e); }
    if (kind == 3) { s->big = VM(r + 1, c + 2); s->b.emplace(s->big.block(1, 1, r, c)); s->b->set_value(s->e); }
    return s;  // 4: Eigen
  };
  int ka = g.in(0, 4), kb = g.in(0, 4);
  auto slpkind = [](int k) { return k == 1 || k == 2 || k == 3; };
  if (!slpkind(ka) && !slpkind(kb)) ka = g.in(1, 3);
  auto A = side(ka), B = side(kb);
  int rr = ka < 2 && kb < 2 ? 1 : r, cc = ka < 2 && kb < 2 ? 1 : c;
  Rel rel = static_cast<Rel>(g.in(0, 4));
  auto ent = [&](const Side& s, int i, int j) { return s.kind < 2 ? s.e(0, 0) : s.e(i, j); };
  auto call = [&](auto&& f) {
    auto with = [&](Side& s, auto&& k) {
      switch (s.kind) {
        case 0: k(s.d); break;
        case 1: k(s.v); break;
        case 2: k(s.m); break;
        case 3: k(*s.b); break;
        default: k(s.e);
      }
    };
    with(*A, [&](auto& a) {
      with(*B, [&](auto& b) {
        if constexpr (slp::SleipnirType<decltype(a)> || slp::SleipnirType<decltype(b)>) f(a, b);
      });
    });
  };
  std::vector<V> cs;
  bool eq = rel == EQ;
  bool as_bool = false;
  call([&](auto& a, auto& b) {
    auto take = [&](auto con) {
      cs.assign(con.constraints.begin(), con.constraints.end());
      as_bool = bool(con);
    };
    switch (rel) {
      case EQ: take(a == b); break;
      case LE: take(a <= b); break;
      case LT: take(a < b); break;
      case GE: take(a >= b); break;
      case GT: take(a > b); break;
    }
  });
  std::string what = fmt("kinds %d,%d relation %d shape %dx%d", ka, kb, rel, rr, cc);
  R.nontrivial(hash_str(what + fmt("%d", int(g.next() % 64))));
  R.sample(what);
  R.count("relations");
  VF_CHECK(int(cs.size()) == rr * cc, "constraint count", "%s: %zu constraints", what.c_str(), cs.size());
  for (int rep = 0; rep < 2; ++rep) {
    bool all = true;
    for (int i = 0; i < rr; ++i)
      for (int j = 0; j < cc; ++j) {
        double a = ent(*A, i, j), b = ent(*B, i, j);
        bool holds = rel == EQ ? a == b : rel == LE || rel == LT ? a <= b : a >= b;
        all = all && holds;
        double v = cs[i * cc + j].value();
        bool got = eq ? v == 0 : v >= 0;
        R.count(holds ? "elements holding" : "elements violated");
        VF_CHECK(got == holds, "constraint meaning", "%s: element (%d,%d) with %g and %g has residual %g", what.c_str(), i, j, a, b, v);
        // residual is monotone in the sides: its size is the distance
        VF_CHECK(std::fabs(std::fabs(v) - std::fabs(a - b)) < 1e-12, "constraint residual", "%s: |residual| %g for sides %g and %g", what.c_str(), v, a, b);
      }
    if (rep == 0) VF_CHECK(as_bool == all, "constraint bool", "%s: converts to %d although %d", what.c_str(), as_bool, all);
    // move the variables
    for (Side* s : {A.get(), B.get()}) {
      if (!slpkind(s->kind)) continue;
      s->e = ints(s->e.rows(), s->e.cols());
      if (s->kind == 1) s->v.set_value(s->e(0, 0));
      if (s->kind == 2) s->m.set_value(s->e);
      if (s->kind == 3) s->b->set_value(s->e);
    }
  }
}

static void m05_join(Rng& g) {
  int n = g.in(1, 4);
  VM x(n, 1);
  std::vector<slp::InequalityConstraints<double>> ineq;
  std::vector<slp::EqualityConstraints<double>> eqs;
  std::vector<std::pair<int, double>> wantI, wantE;  // element index, bound
  EM e(n, 1);
  for (int i = 0; i < n; ++i) e(i, 0) = g.in(-2, 2);
  x.set_value(e);
  int k = g.in(0, 4);
  for (int q = 0; q < k; ++q) {
    double b = g.in(-2, 2);
    if (g.chance(0.5)) {
      int i = g.in(0, n - 1);
      ineq.push_back(x[i] >= b);
      eqs.push_back(x[i] == b);
      wantI.emplace_back(i, b);
      wantE.emplace_back(i, b);
    } else {
      ineq.push_back(x >= b);
      eqs.push_back(x == b);
      for (int i = 0; i < n; ++i) { wantI.emplace_back(i, b); wantE.emplace_back(i, b); }
    }
  }
  auto verify = [&](auto joined, auto& want, bool eq, const char* how) {
    R.count("joined lists");
    if (joined.constraints.size() != want.size()) {
      R.fail("join count", fmt("%s: %zu of %zu members", how, joined.constraints.size(), want.size()));
      return;
    }
    bool all = true;
    for (size_t i = 0; i < want.size(); ++i) {
      double d = e(want[i].first, 0) - want[i].second;
      all = all && (eq ? d == 0 : d >= 0);
      if (joined.constraints[i].value() != d) {
        R.fail("join order", fmt("%s: member %zu has residual %g, expected %g", how, i, joined.constraints[i].value(), d));
        return;
      }
    }
    if (bool(joined) != all) R.fail("join bool", fmt("%s: converts to %d although %d", how, !all, all));
  };
  verify(slp::InequalityConstraints<double>{ineq}, wantI, false, "vector of inequalities");
  verify(slp::EqualityConstraints<double>{eqs}, wantE, true, "vector of equalities");
  if (k == 2) {
    verify(slp::InequalityConstraints<double>{ineq[0], ineq[1]}, wantI, false, "list of inequalities");
    verify(slp::EqualityConstraints<double>{eqs[0], eqs[1]}, wantE, true, "list of equalities");
  }
  if (k == 3) {
    verify(slp::InequalityConstraints<double>{ineq[0], ineq[1], ineq[2]}, wantI, false, "list of inequalities");
    verify(slp::EqualityConstraints<double>{eqs[0], eqs[1], eqs[2]}, wantE, true, "list of equalities");
  }
  R.nontrivial(g.next());
  // two-sided bounds
  double lo = g.in(-2, 1), hi = lo + g.in(0, 2);
  int how = g.in(0, 3);
  bool want = true, got = false;
  size_t cnt = 0;
  auto use = [&](auto c) { got = bool(c); cnt = c.constraints.size(); };
  V s = x[0] * 1.0;
  if (how == 0) { use(slp::bounds(lo, x, hi)); for (int i = 0; i < n; ++i) want = want && e(i, 0) >= lo && e(i, 0) <= hi; }
  if (how == 1) { use(slp::bounds(lo, s, hi)); want = e(0, 0) >= lo && e(0, 0) <= hi; }
  if (how == 2) {
    EM L = EM::Constant(n, 1, lo), H = EM::Constant(n, 1, hi);
    for (int i = 0; i < n; ++i) { L(i, 0) -= g.in(0, 1); H(i, 0) += g.in(0, 1); }
    use(slp::bounds(L, x, H));
    for (int i = 0; i < n; ++i) want = want && e(i, 0) >= L(i, 0) && e(i, 0) <= H(i, 0);
  }
  if (how == 3) {
    V l, h;
    l.set_value(lo);
    h.set_value(hi);
    use(slp::bounds(l, x, h));
    for (int i = 0; i < n; ++i) want = want && e(i, 0) >= lo && e(i, 0) <= hi;
  }
  R.count(want ? "bounds holding" : "bounds violated");
  VF_CHECK(cnt == size_t(2 * (how == 1 ? 1 : n)), "bounds count", "bounds form %d has %zu members", how, cnt);
  VF_CHECK(got == want, "bounds meaning", "bounds form %d [%g, %g]: %d, expected %d", how, lo, hi, got, want);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  if (R.prop == "M01") {
    R.cases("arith", 60000, m01_arith);
  } else if (R.prop == "M02") {
    R.cases("slices", 16, m02_slices, 1);
    R.cases("views", 60000, m02_views);
  } else if (R.prop == "M03") {
    R.cases("inplace", 80000, m03_inplace);
  } else if (R.prop == "M04") {
    R.cases("solve", 6000, m04_solve);
    R.cases("solvezero", 20, m04_solve_zero);
    R.cases("exp", 1500, m04_exp);
    R.cases("exppivot", 20, m04_exp_pivot);
  } else if (R.prop == "M05") {
    R.cases("relation", 60000, m05_relation);
    R.cases("join", 40000, m05_join);
  } else {
    return 2;
  }
  R.finish();
  return 0;
}
