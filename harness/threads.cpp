// X01: the multistart driver. R04: objects of one thread each, on many threads.
#include <atomic>
#include <barrier>
#include <chrono>
#include <optional>
#include <sched.h>
#include <set>
#include <sleipnir/optimization/multistart.hpp>
#include <thread>

#include "common.hpp"

#ifdef VF_ONLY
#define HAS(n) (VF_ONLY == (n))
#else
#define HAS(n) 1
#endif

#if HAS(2)
#include <sleipnir/autodiff/gradient.hpp>
#include <sleipnir/autodiff/hessian.hpp>
#include <sleipnir/autodiff/jacobian.hpp>
#include <sleipnir/optimization/ocp.hpp>

#include "jet.hpp"
#include "prob.hpp"
#endif

using namespace vf;
using slp::ExitStatus;

static void dawdle(Rng& g) {
  switch (g.in(0, 5)) {
    case 0: sched_yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(g.in(1, 300))); break;
    case 2: for (volatile int i = 0; i < 3000; i = i + 1) {} break;
    default: break;
  }
}

// ---------------------------------------------------------------- X01
#if HAS(1)
struct Guess {
  int id;
  std::vector<double> v;
};

struct Record {
  std::atomic<int> calls{0};
  std::atomic<bool> intact{true};
  std::atomic<long> done{-1};
};

static const ExitStatus statuses[] = {ExitStatus::SUCCESS, ExitStatus::CALLBACK_REQUESTED_STOP, ExitStatus::TOO_FEW_DOFS, ExitStatus::LOCALLY_INFEASIBLE, ExitStatus::GLOBALLY_INFEASIBLE, ExitStatus::FACTORIZATION_FAILED,
                                      ExitStatus::LINE_SEARCH_FAILED, ExitStatus::NONFINITE_INITIAL_GUESS, ExitStatus::DIVERGING_ITERATES, ExitStatus::MAX_ITERATIONS_EXCEEDED, ExitStatus::TIMEOUT, ExitStatus::FEASIBILITY_RESTORATION_FAILED};

static void x01_case(Rng& g) {
  int n = g.chance(0.1) ? 1 : g.in(1, g.chance(0.1) ? 24 : 8);
  using Res = slp::MultistartResult<double, Guess>;
  double psucc = g.pick(std::vector<double>{0, 0.15, 0.5, 0.9, 1});
  bool ties = g.chance(0.3);
  std::vector<Guess> guesses;
  std::vector<Res> plan;
  std::vector<uint64_t> delay;
  std::string d;
  for (int i = 0; i < n; ++i) {
    Guess w{i, {}};
    for (int k = g.in(0, 20); k > 0; --k) w.v.push_back(g.normal());
    guesses.push_back(w);
    Res r;
    r.status = g.chance(psucc) ? ExitStatus::SUCCESS : statuses[g.in(1, 11)];
    bool ok = r.status == ExitStatus::SUCCESS;
    switch (g.in(0, 9)) {
      case 0: r.cost = ok ? 1e300 : -1e300; break;
      case 1: r.cost = ok ? INFINITY : -INFINITY; break;
      case 2: r.cost = ok ? g.normal() * 1e-300 : NAN; break;
      default: r.cost = ties ? g.in(-2, 2) : g.normal() * 10;
    }
    r.variables = Guess{1000 + i, {g.normal(), g.normal()}};
    plan.push_back(r);
    delay.push_back(g.next());
    d += fmt("%s(%d, %g)", i ? " " : "", int(r.status), r.cost);
  }
  std::vector<Record> rec(n);
  std::atomic<long> order{0};
  auto solve = [&](const Guess& w) -> Res {
    int i = w.id;
    if (i < 0 || i >= n) return Res{};
    rec[i].calls.fetch_add(1, std::memory_order_relaxed);
    bool same = w.v == guesses[i].v;
    Rng l{delay[i]};
    dawdle(l);
    same = same && w.v == guesses[i].v;  // still the same afterwards
    if (!same) rec[i].intact.store(false, std::memory_order_relaxed);
    Res r = plan[i];
    rec[i].done.store(order.fetch_add(1, std::memory_order_relaxed), std::memory_order_relaxed);
    return r;
  };
  Res r = slp::multistart<double, Guess>(solve, std::span<const Guess>(guesses));
  uint64_t h = hash_str(d);
  bool in_order = true;
  for (int i = 0; i < n; ++i) {
    VF_CHECK(rec[i].calls == 1, "calls", "solve called %d times with guess %d of %d: %s", rec[i].calls.load(), i, n, d.c_str());
    VF_CHECK(rec[i].intact, "guess", "guess %d of %d arrived changed", i, n);
    h = mix(h ^ rec[i].done.load());
    in_order &= rec[i].done == i;
  }
  if (!in_order) R.count("starts finished out of order");
  R.count("multistarts");
  R.count("starts", n);
  R.nontrivial(h);
  R.sample(d);
  int id = r.variables.id - 1000;
  VF_CHECK(id >= 0 && id < n, "foreign result", "result %d: %s", id, d.c_str());
  auto& p = plan[id];
  VF_CHECK(r.status == p.status && std::memcmp(&r.cost, &p.cost, 8) == 0 && r.variables.v == p.variables.v, "result changed", "result of start %d changed: %s", id, d.c_str());
  bool any = false;
  double best = INFINITY, best_failed = INFINITY;
  bool nan = false;
  for (auto& q : plan) {
    if (q.status == ExitStatus::SUCCESS) any = true, best = std::min(best, q.cost);
    else if (std::isnan(q.cost)) nan = true;
    else best_failed = std::min(best_failed, q.cost);
  }
  if (any) {
    VF_CHECK(p.status == ExitStatus::SUCCESS, "failure preferred", "start %d returned although others succeeded: %s", id, d.c_str());
    VF_CHECK(p.cost == best, "not the best", "start %d with cost %g returned, best success %g: %s", id, p.cost, best, d.c_str());
    R.count("best successes");
  } else if (!nan) {
    VF_CHECK(p.cost == best_failed, "not the best", "start %d with cost %g returned, best %g: %s", id, p.cost, best_failed, d.c_str());
    R.count("best failures");
  }
}

/// Other types of results; cheap variables.
static void x01_types(Rng& g) {
  int n = g.in(1, 6);
  std::vector<double> gu(n), co(n);
  std::vector<int> ok(n);
  bool any = false;
  for (int i = 0; i < n; ++i) gu[i] = i + 0.25, co[i] = g.normal(), ok[i] = g.chance(0.5), any |= ok[i];
  std::vector<std::atomic<int>> calls(n);
  auto solve = [&](const double& x) {
    int i = int(x);
    calls[i].fetch_add(1, std::memory_order_relaxed);
    return slp::MultistartResult<float, double>{ok[i] ? ExitStatus::SUCCESS : ExitStatus::TIMEOUT, float(co[i]), x + 100};
  };
  auto r = slp::multistart<float, double>(solve, std::span<const double>(gu));
  int id = int(r.variables - 100);
  for (int i = 0; i < n; ++i) VF_CHECK(calls[i] == 1, "calls", "start %d of %d called %d times", i, n, calls[i].load());
  VF_CHECK(id >= 0 && id < n && r.cost == float(co[id]) && (r.status == ExitStatus::SUCCESS) == bool(ok[id]), "result changed", "start %d", id);
  for (int i = 0; i < n; ++i)
    VF_CHECK(ok[id] > ok[i] || (ok[id] == ok[i] && float(co[id]) <= float(co[i])), "not the best", "start %d beaten by %d", id, i);
  R.count("float multistarts");
}
#endif

// ---------------------------------------------------------------- R04
#if HAS(2)
using V = slp::Variable<double>;
using VM = slp::VariableMatrix<double>;

struct Hash {
  uint64_t h = 99;
  void add(double v) {
    uint64_t b;
    if (std::isnan(v)) v = NAN;
    std::memcpy(&b, &v, 8);
    h = mix(h ^ b);
  }
  template <typename M>
  void add(const Eigen::DenseBase<M>& m) {
    h = mix(h ^ (m.rows() * 31 + m.cols()));
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) add(m(i, j));
  }
};

static uint64_t w_autodiff(Rng& g, Rng& jit) {
  Hash h;
  int nv = g.in(1, 4);
  auto pts = random_points(g, nv, 2);
  auto p = random_program(g, nv, g.in(3, 25), smooth_style(), pts);
  std::vector<V> leaves(nv);
  for (int i = 0; i < nv; ++i) leaves[i].set_value(pts[0][i]);
  std::vector<V> nodes;
  for (auto& n : p.nodes) {
    nodes.push_back(n.op == VAR ? leaves[n.a] : build_node<V, double>(n, nodes));
    if (jit.chance(0.1)) dawdle(jit);
  }
  VM x(nv, 1), f(std::min<int>(3, nodes.size()), 1);
  for (int i = 0; i < nv; ++i) x[i, 0] = leaves[i];
  for (int i = 0; i < f.rows(); ++i) f[i, 0] = nodes[nodes.size() - 1 - i];
  slp::Gradient<double> gr{nodes.back(), x};
  slp::Jacobian<double> ja{f, x};
  slp::Hessian<double, Eigen::Lower | Eigen::Upper> he{nodes.back(), x};
  for (auto& pt : pts) {
    for (int i = 0; i < nv; ++i) leaves[i].set_value(pt[i]);
    dawdle(jit);
    for (auto& n : nodes) h.add(n.value());
    h.add(Eigen::MatrixXd(gr.value()));
    h.add(Eigen::MatrixXd(ja.value()));
    h.add(Eigen::MatrixXd(he.value()));
    h.add(gr.get().value());
  }
  return h.h;
}

static uint64_t w_matrix(Rng& g, Rng& jit) {
  Hash h;
  int n = g.in(1, 5);
  VM a(n, n), b(n, 2);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) a[i, j].set_value(g.normal() + (i == j) * 4);
    for (int j = 0; j < 2; ++j) b[i, j].set_value(g.normal());
  }
  VM c = a * b + 2.0 * b, e = a.T() * a;
  dawdle(jit);
  VM s = slp::solve(a, b);
  dawdle(jit);
  a.block(0, 0, 1, n) *= a[0, 0];
  h.add(c.value()), h.add(e.value()), h.add(s.value()), h.add(a.value());
  auto eq = a == e;
  auto iq = b >= c;
  for (auto& k : eq.constraints) h.add(k.value());
  for (auto& k : iq.constraints) h.add(k.value());
  return h.h;
}

static uint64_t w_solve(Rng& g, Rng& jit) {
  Hash h;
  Prob q = g.chance(0.5) ? gen_nonconvex(g, 4) : gen_convex(g, 4).q;
  auto b = build(g, q);
  b->set(q.x0);
  slp::Options o;
  o.max_iterations = 40;
  o.diagnostics = g.chance(0.25);
  o.feasible_ipm = g.chance(0.2);
  int stop = g.chance(0.2) ? g.in(0, 10) : -1;
  b->p.add_callback([&](const slp::IterationInfo<double>& i) {
    h.add(i.x);
    if (jit.chance(0.1)) dawdle(jit);
    return i.iteration == stop;
  });
  auto st = b->p.solve(o);
  h.add(int(st));
  h.add(b->get());
  return h.h;
}

static uint64_t w_ocp(Rng& g, Rng& jit) {
  Hash h;
  double a = g.normal(), c = 0.5 + g.unit();
  auto f = [&](const V& t, const VM& x, const VM& u, const V& dt) -> VM {
    if (jit.chance(0.1)) dawdle(jit);
    VM r{1, 1};
    r[0, 0] = a * sin(x[0, 0]) + c * u[0, 0];
    return r;
  };
  slp::OCP<double> p(1, 1, std::chrono::duration<double>(0.1), g.in(1, 4), f, slp::DynamicsType::EXPLICIT_ODE, slp::TimestepMethod(g.in(0, 1) * 0), slp::TranscriptionMethod(g.in(0, 2)));
  p.constrain_initial_state(0.5);
  p.set_upper_input_bound(1.0);
  p.minimize(p.X() * p.X().T() + p.U() * p.U().T());
  slp::Options o;
  o.max_iterations = 30;
  h.add(int(p.solve(o)));
  h.add(p.X().value()), h.add(p.U().value());
  return h.h;
}

static uint64_t work(uint64_t seed, uint64_t jitter) {
  Rng g{seed}, jit{jitter};
  switch (seed % 8) {
    case 0: case 1: case 2: return w_autodiff(g, jit);
    case 3: case 4: return w_matrix(g, jit);
    case 5: return w_ocp(g, jit);
    default: return w_solve(g, jit);
  }
}

static const char* work_name(uint64_t s) { return s % 8 < 3 ? "differentiation" : s % 8 < 5 ? "matrices" : s % 8 == 5 ? "optimal control" : "solve"; }

static void r04_case(Rng& g) {
  int T = g.in(2, 8);
  struct Job {
    uint64_t seed, alone, got;
    int at;
  };
  std::vector<std::vector<Job>> jobs(T);
  std::vector<uint64_t> starts(T);
  uint64_t shared = g.next();
  uint64_t h = 1;
  for (int t = 0; t < T; ++t) {
    starts[t] = g.next();
    for (int k = g.in(1, 4); k > 0; --k) jobs[t].push_back({g.chance(0.2) ? shared : g.next(), 0, 1, 0});
  }
  // Alone, each in a thread of its own or one after another on this thread
  for (auto& js : jobs)
    for (auto& j : js) {
      h = mix(h ^ j.seed);
      if (g.chance(0.5)) {
        std::thread([&] { j.alone = work(j.seed, 0); }).join();
      } else {
        j.alone = work(j.seed, 0);
      }
    }
  std::barrier gate(T);
  std::vector<std::atomic<int>> running(1);
  std::atomic<int> most{0};
  std::vector<std::thread> ts;
  bool together = g.chance(0.7);
  for (int t = 0; t < T; ++t) {
    ts.emplace_back([&, t] {
      Rng l{starts[t]};
      if (together) gate.arrive_and_wait();
      dawdle(l);
      int now = running[0].fetch_add(1, std::memory_order_relaxed) + 1;
      int m = most.load(std::memory_order_relaxed);
      while (m < now && !most.compare_exchange_weak(m, now, std::memory_order_relaxed)) {}
      for (auto& j : jobs[t]) j.got = work(j.seed, l.next());
      running[0].fetch_sub(1, std::memory_order_relaxed);
    });
    if (!together && g.chance(0.5)) dawdle(g);
    if (!together && g.chance(0.2)) ts.back().join();
  }
  for (auto& t : ts)
    if (t.joinable()) t.join();
  R.maximum("threads at once", most);
  R.count(most > 1 ? "overlapping runs" : "runs without overlap");
  R.nontrivial(h);
  R.sample(fmt("%d threads, %zu jobs on the first", T, jobs[0].size()));
  for (int t = 0; t < T; ++t)
    for (auto& j : jobs[t]) {
      R.count(fmt("results compared: %s", work_name(j.seed)));
      VF_CHECK(j.got == j.alone, fmt("differs: %s", work_name(j.seed)), "%s on thread %d of %d gives another result than alone", work_name(j.seed), t, T);
    }
}

/// Multistart over real problems: every start gives the result it gives alone.
static void r04_multistart(Rng& g) {
  int n = g.in(2, 8);
  uint64_t form = g.next();
  Prob q = gen_nonconvex(g, 3, false);
  std::vector<Eigen::VectorXd> starts;
  for (int i = 0; i < n; ++i) {
    Eigen::VectorXd x = q.x0;
    for (auto& v : x) v += g.normal();
    starts.push_back(x);
  }
  using Res = slp::MultistartResult<double, Eigen::VectorXd>;
  auto one = [&](const Eigen::VectorXd& x) -> Res {
    Rng f{form};
    auto b = build(f, q);
    b->set(x);
    slp::Options o;
    o.max_iterations = 60;
    auto st = b->p.solve(o);
    return {st, double(q.f.eval(b->get(), false).v), b->get()};
  };
  std::vector<Res> alone;
  for (auto& x : starts) alone.push_back(one(x));
  Res r = slp::multistart<double, Eigen::VectorXd>(one, std::span<const Eigen::VectorXd>(starts));
  const Res* best = &alone[0];
  for (auto& a : alone) {
    bool as = a.status == ExitStatus::SUCCESS, bs = best->status == ExitStatus::SUCCESS;
    if (as != bs ? as : a.cost < best->cost) best = &a;
  }
  R.count("multistarts");
  R.nontrivial(hash_str(q.text(), form));
  bool nan = false;
  for (auto& a : alone) nan |= std::isnan(a.cost);
  if (nan) return;
  VF_CHECK(r.status == best->status && r.cost == best->cost, "multistart", "status %d cost %.17g instead of %d %.17g: %s", int(r.status), r.cost, int(best->status), best->cost, q.text().c_str());
}
#endif

int main(int argc, char** argv) {
  R.init(argc, argv);
#if HAS(1)
  R.cases("starts", 6000, x01_case);
  R.cases("types", 2000, x01_types);
#endif
#if HAS(2)
  R.cases("threads", 640, r04_case);
  R.cases("multistart", 160, r04_multistart);
#endif
  return R.finish(), 0;
}
