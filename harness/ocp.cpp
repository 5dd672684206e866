// O01: monitors of optimal control transcriptions.
#include <Eigen/LU>
#include <Eigen/QR>
#include <chrono>
#include <sleipnir/optimization/ocp.hpp>
#include <sleipnir/optimization/solver/exit_status.hpp>

#include "common.hpp"

using namespace vf;
using LD = long double;
using DVec = Eigen::VectorXd;
using DMat = Eigen::MatrixXd;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using PV = slp::Variable<double>;
using PM = slp::VariableMatrix<double>;
using slp::ExitStatus;
using Sec = std::chrono::duration<double>;
static const double INF = std::numeric_limits<double>::infinity();

/// x' = A x + B u + c + e t + amplitude * phi(x_a + w u_b + o t), as an ODE or
/// as (part of) a state transition.
struct Dyn {
  int n, m;
  DMat A, B;
  DVec c, e, amp, w, om;
  std::vector<int> phi, ja, jb;
  bool discrete = false, timed = false;
  int form = 0;  // of a discrete one: 0 x + dt r, 1 r, 2 r (1 + dt)

  template <typename S, typename Mt>
  std::vector<S> rate(const S& t, const Mt& x, const Mt& u, const S& dt) const {
    using std::sin, std::tanh, std::sqrt;
    std::vector<S> r;
    for (int i = 0; i < n; ++i) {
      S v = S(c[i]);
      for (int j = 0; j < n; ++j)
        if (A(i, j) != 0) v = v + S(A(i, j)) * x[j];
      for (int j = 0; j < m; ++j)
        if (B(i, j) != 0) v = v + S(B(i, j)) * u[j];
      if (timed && e[i] != 0) v = v + S(e[i]) * t;
      if (amp[i] != 0) {
        S a = x[ja[i]] + S(w[i]) * u[jb[i]];
        if (timed) a = a + S(om[i]) * t;
        switch (phi[i]) {
          case 0: v = v + S(amp[i]) * sin(a); break;
          case 1: v = v + S(amp[i]) * tanh(a); break;
          case 2: v = v + S(amp[i]) * x[ja[i]] * u[jb[i]]; break;
          default: v = v + S(amp[i]) / (S(1) + a * a);
        }
      }
      if (discrete) {
        if (form == 0) v = x[i] + dt * v;
        if (form == 2) v = v * (S(1) + dt);
      }
      r.push_back(v);
    }
    return r;
  }
  bool linear() const { return amp.isZero(); }

  LVec eval(LD t, const LVec& x, const LVec& u, LD dt) const {
    auto r = rate<LD>(t, x, u, dt);
    LVec v(n);
    for (int i = 0; i < n; ++i) v[i] = r[i];
    return v;
  }
  PM operator()(const PV& t, const PM& x, const PM& u, const PV& dt) const {
    VF_CHECK_SHAPES(x, u);
    auto r = rate<PV>(t, x, u, dt);
    PM v{n, 1};
    for (int i = 0; i < n; ++i) v[i, 0] = r[i];
    return v;
  }
  void VF_CHECK_SHAPES(const PM& x, const PM& u) const {
    VF_CHECK(x.rows() == n && x.cols() == 1 && u.rows() == m && u.cols() == 1, "dynamics arguments", "dynamics called with a %dx%d state and a %dx%d input", x.rows(), x.cols(), u.rows(), u.cols());
  }
};

static Dyn gen_dyn(Rng& g) {
  Dyn d;
  d.n = g.in(1, 4), d.m = g.in(1, 3);
  d.A = DMat::Zero(d.n, d.n), d.B = DMat::Zero(d.n, d.m);
  d.c = d.e = d.amp = d.w = d.om = DVec::Zero(d.n);
  d.phi.assign(d.n, 0), d.ja = d.jb = d.phi;
  d.discrete = g.chance(0.35);
  d.form = g.in(0, 2);
  d.timed = g.chance(0.6);
  bool lin = g.chance(0.35);
  double sc = d.discrete && d.form ? 0.5 : 1.0;
  for (int i = 0; i < d.n; ++i) {
    for (int j = 0; j < d.n; ++j)
      if (g.chance(0.6)) d.A(i, j) = std::round(g.normal() * 8 * sc) / 8;
    for (int j = 0; j < d.m; ++j)
      if (g.chance(0.7)) d.B(i, j) = std::round(g.normal() * 8) / 8;
    if (g.chance(0.4)) d.c[i] = g.in(-4, 4) / 4.0;
    if (g.chance(0.5)) d.e[i] = g.in(-4, 4) / 4.0;
    if (!lin && g.chance(0.5)) {
      d.amp[i] = std::round(g.normal() * 8 * sc) / 16;
      d.phi[i] = g.in(0, 3), d.ja[i] = g.in(0, d.n - 1), d.jb[i] = g.in(0, d.m - 1);
      d.w[i] = g.chance(0.5) ? g.in(-4, 4) / 4.0 : 0, d.om[i] = g.in(-8, 8) / 4.0;
    }
    // the input must matter
    if (d.B.row(i).isZero()) d.B(i, g.in(0, d.m - 1)) = g.chance(0.5) ? 1 : -1;
  }
  return d;
}

/// (a comma in brackets would split macro arguments)
static double at(PM& v, int i, int j) { return v[i, j].value(); }

using slp::DynamicsType, slp::TimestepMethod, slp::TranscriptionMethod;

struct Shape {
  TimestepMethod ts;
  TranscriptionMethod tr;
  int N;
  double dt;
};

static const char* tr_name(TranscriptionMethod t) {
  return t == TranscriptionMethod::DIRECT_TRANSCRIPTION ? "transcription" : t == TranscriptionMethod::DIRECT_COLLOCATION ? "collocation" : "shooting";
}
static const char* ts_name(TimestepMethod t) { return t == TimestepMethod::FIXED ? "fixed" : t == TimestepMethod::VARIABLE ? "variable" : "variable single"; }

/// One step of the method's rule.
static LVec rk4(const Dyn& d, LD t, const LVec& x, const LVec& u, LD h) {
  LVec k1 = d.eval(t, x, u, h), k2 = d.eval(t + h / 2, x + h / 2 * k1, u, h), k3 = d.eval(t + h / 2, x + h / 2 * k2, u, h), k4 = d.eval(t + h, x + h * k3, u, h);
  return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
}
static LVec explicit_step(const Dyn& d, LD t, const LVec& x, const LVec& u, LD h) { return d.discrete ? d.eval(t, x, u, h) : rk4(d, t, x, u, h); }

/// Hermite-Simpson: slope of the cubic at the middle minus the dynamics there.
static LVec collocation_defect(const Dyn& d, LD t, const LVec& x0, const LVec& x1, const LVec& u0, const LVec& u1, LD h) {
  LVec f0 = d.eval(t, x0, u0, h), f1 = d.eval(t + h, x1, u1, h);
  LVec xc = (x0 + x1) / 2 + h / 8 * (f0 - f1), slope = 1.5L / h * (x1 - x0) - (f0 + f1) / 4;
  return slope - d.eval(t + h / 2, xc, (u0 + u1) / 2, h);
}

struct Traj {
  LMat X, U;
  LVec dt;
};

/// X from the first column, U and dt; false when a collocation step has no
/// solution near the guess in X.
static bool simulate(const Dyn& d, const Shape& s, Traj& q) {
  LD t = 0;
  for (int k = 0; k < s.N; ++k) {
    LVec x = q.X.col(k), u = q.U.col(k);
    if (s.tr != TranscriptionMethod::DIRECT_COLLOCATION) {
      q.X.col(k + 1) = explicit_step(d, t, x, u, q.dt[k]);
    } else {
      LVec y = q.X.col(k + 1), u1 = q.U.col(k + 1);
      bool ok = false;
      for (int it = 0; it < 30 && !ok; ++it) {
        LVec r = collocation_defect(d, t, x, y, u, u1, q.dt[k]);
        LMat J(d.n, d.n);
        for (int j = 0; j < d.n; ++j) {
          LVec a = y, b = y;
          a[j] += 1e-7L, b[j] -= 1e-7L;
          J.col(j) = (collocation_defect(d, t, x, a, u, u1, q.dt[k]) - collocation_defect(d, t, x, b, u, u1, q.dt[k])) / 2e-7L;
        }
        LVec step = J.fullPivLu().solve(r);
        y -= step;
        ok = step.norm() < 1e-15L * (1 + y.norm());
      }
      if (!ok) return false;
      q.X.col(k + 1) = y;
    }
    if (!(q.X.col(k + 1).norm() < 1e6L)) return false;
    t += q.dt[k];
  }
  return true;
}

struct Ocp {
  Dyn d;
  Shape s;
  std::unique_ptr<slp::OCP<double>> p;
  std::function<PM(const PM&, const PM&)> f2;
  bool short_form = false;

  std::string text() const {
    return fmt("%s %s %s, n %d m %d N %d dt %g%s%s", d.discrete ? "discrete" : "ODE", tr_name(s.tr), ts_name(s.ts), d.n, d.m, s.N, s.dt, d.timed ? " timed" : "", short_form ? " f(x, u)" : "");
  }
};

static std::unique_ptr<Ocp> make(Rng& g, int maxN = 10) {
  auto o = std::make_unique<Ocp>();
  o->d = gen_dyn(g);
  Shape& s = o->s;
  s.tr = TranscriptionMethod(g.in(0, 2));
  if (o->d.discrete && s.tr == TranscriptionMethod::DIRECT_COLLOCATION) s.tr = g.chance(0.5) ? TranscriptionMethod::SINGLE_SHOOTING : TranscriptionMethod::DIRECT_TRANSCRIPTION;
  s.ts = TimestepMethod(g.in(0, 2));
  s.N = g.chance(0.15) ? g.in(1, 2) : g.in(1, maxN);
  s.dt = g.in(1, 16) / 32.0;
  if (s.tr == TranscriptionMethod::SINGLE_SHOOTING) s.N = std::min(s.N, 6);
  auto kind = o->d.discrete ? DynamicsType::DISCRETE : DynamicsType::EXPLICIT_ODE;
  o->short_form = !o->d.timed && (!o->d.discrete || o->d.form == 1) && g.chance(0.6);
  Dyn& d = o->d;
  if (o->short_form) {
    auto f = [&d](const PM& x, const PM& u) { return d(PV(0.0), x, u, PV(0.0)); };
    o->p = std::make_unique<slp::OCP<double>>(d.n, d.m, Sec(s.dt), s.N, f, kind, s.ts, s.tr);
  } else if (kind == DynamicsType::EXPLICIT_ODE && s.ts == TimestepMethod::FIXED && s.tr == TranscriptionMethod::DIRECT_TRANSCRIPTION && g.chance(0.5)) {
    o->p = std::make_unique<slp::OCP<double>>(d.n, d.m, Sec(s.dt), s.N, d);  // defaults
  } else {
    o->p = std::make_unique<slp::OCP<double>>(d.n, d.m, Sec(s.dt), s.N, d, kind, s.ts, s.tr);
  }
  return o;
}

static Traj read(Ocp& o) {
  Traj q;
  q.X = o.p->X().value().cast<LD>(), q.U = o.p->U().value().cast<LD>();
  DMat t = o.p->dt().value();
  q.dt = t.row(0).transpose().cast<LD>();
  return q;
}

static void check_shapes(Ocp& o) {
  auto& p = *o.p;
  VF_CHECK(p.X().rows() == o.d.n && p.X().cols() == o.s.N + 1, "shape", "X is %dx%d: %s", p.X().rows(), p.X().cols(), o.text().c_str());
  VF_CHECK(p.U().rows() == o.d.m && p.U().cols() == o.s.N + 1, "shape", "U is %dx%d: %s", p.U().rows(), p.U().cols(), o.text().c_str());
  VF_CHECK(p.dt().rows() == 1 && p.dt().cols() == o.s.N + 1, "shape", "dt is %dx%d: %s", p.dt().rows(), p.dt().cols(), o.text().c_str());
  auto a = p.initial_state(), b = p.final_state();
  VF_CHECK(a.rows() == o.d.n && a.cols() == 1 && b.rows() == o.d.n && b.cols() == 1, "shape", "initial/final state: %s", o.text().c_str());
}

/// Sets every free variable to random values.
static void scatter(Rng& g, Ocp& o) {
  auto& p = *o.p;
  for (int k = 0; k <= o.s.N; ++k) {
    for (int j = 0; j < o.d.m; ++j) p.U()[j, k].set_value(g.normal());
    if (o.s.tr != TranscriptionMethod::SINGLE_SHOOTING || k == 0)
      for (int i = 0; i < o.d.n; ++i) p.X()[i, k].set_value(g.normal());
    if (o.s.ts == TimestepMethod::VARIABLE || (o.s.ts == TimestepMethod::VARIABLE_SINGLE && k == 0)) p.dt()[0, k].set_value(g.real(0.05, 0.4));
  }
}

/// What holds without solving: shapes, time steps, shooting's states, and the
/// arguments given to for_each_step.
static void structure(Rng& g) {
  auto op = make(g);
  Ocp& o = *op;
  auto& p = *o.p;
  std::string d = o.text();
  check_shapes(o);
  R.nontrivial(hash_str(d, g.s));
  R.count(fmt("structures: %s", tr_name(o.s.tr)));
  for (int k = 0; k <= o.s.N; ++k) VF_CHECK(at(p.dt(), 0, k) == o.s.dt, "initial dt", "time step %d starts at %g: %s", k, at(p.dt(), 0, k), d.c_str());
  struct Step { PV t, dt; PM x, u; };
  std::vector<Step> steps;
  bool four = g.chance(0.6);
  if (four) {
    p.for_each_step([&](const PV& t, const PM& x, const PM& u, const PV& dt) { steps.push_back({t, dt, x, u}); });
  } else {
    p.for_each_step([&](const PM& x, const PM& u) { steps.push_back({PV(0.0), PV(0.0), x, u}); });
  }
  VF_CHECK(int(steps.size()) == o.s.N + 1, "steps visited", "for_each_step made %zu calls: %s", steps.size(), d.c_str());
  for (int rep = 0; rep < 2; ++rep) {
    scatter(g, o);
    Traj q = read(o);
    LD t = 0;
    for (int k = 0; k <= o.s.N; ++k) {
      auto& st = steps[k];
      VF_CHECK(st.x.rows() == o.d.n && st.u.rows() == o.d.m && st.x.cols() == 1 && st.u.cols() == 1, "step shapes", "step %d: %s", k, d.c_str());
      for (int i = 0; i < o.d.n; ++i) VF_CHECK(at(st.x, i, 0) == double(q.X(i, k)), "step state", "state %d of step %d is %.17g instead of %.17Lg: %s", i, k, at(st.x, i, 0), q.X(i, k), d.c_str());
      for (int i = 0; i < o.d.m; ++i) VF_CHECK(at(st.u, i, 0) == double(q.U(i, k)), "step input", "input %d of step %d is %.17g instead of %.17Lg: %s", i, k, at(st.u, i, 0), q.U(i, k), d.c_str());
      if (four) {
        VF_CHECK(std::fabs(st.t.value() - t) <= 1e-13L, "step time", "time of step %d is %.17g instead of %.17Lg: %s", k, st.t.value(), t, d.c_str());
        VF_CHECK(st.dt.value() == double(q.dt[k]), "step dt", "time step of step %d is %.17g instead of %.17Lg: %s", k, st.dt.value(), q.dt[k], d.c_str());
      }
      R.count("steps compared");
      if (o.s.ts != TimestepMethod::VARIABLE) VF_CHECK(q.dt[k] == q.dt[0], "unequal dt", "time step %d is %.17Lg, not %.17Lg: %s", k, q.dt[k], q.dt[0], d.c_str());
      if (o.s.ts == TimestepMethod::FIXED) VF_CHECK(q.dt[k] == o.s.dt, "fixed dt", "time step %d is %.17Lg: %s", k, q.dt[k], d.c_str());
      t += q.dt[k];
    }
    if (o.s.tr == TranscriptionMethod::SINGLE_SHOOTING) {
      Traj w = q;
      if (simulate(o.d, o.s, w)) {
        LD size = w.X.cwiseAbs().maxCoeff() + 1;
        for (int k = 0; k <= o.s.N; ++k)
          for (int i = 0; i < o.d.n; ++i) VF_CHECK(std::fabs(w.X(i, k) - q.X(i, k)) <= 1e-11L * size * size, "shooting state", "state %d of step %d is %.17Lg instead of %.17Lg: %s", i, k, q.X(i, k), w.X(i, k), d.c_str());
        R.count("shooting trajectories compared");
      }
    }
    auto a = p.initial_state(), b = p.final_state();
    for (int i = 0; i < o.d.n; ++i) VF_CHECK(at(a, i, 0) == double(q.X(i, 0)) && at(b, i, 0) == double(q.X(i, o.s.N)), "end states", "initial or final state differs from the trajectory's: %s", d.c_str());
  }
}

static slp::Options quiet() {
  slp::Options o;
  o.max_iterations = 300;
  return o;
}

static long attempted, unsolved;
static std::string last_unsolved;

/// All these problems are feasible; hardly any may stay unsolved.
static void rate(Rng&) {
  VF_CHECK(unsolved <= 4 + attempted / 50, "feasible problems unsolved", "%ld of %ld feasible problems were not solved, such as %s", unsolved, attempted, last_unsolved.c_str());
}

/// A whole problem: tracking cost, limits, optionally end and step constraints.
static void solved(Rng& g) {
  auto op = make(g);
  Ocp& o = *op;
  auto& p = *o.p;
  const Dyn& dyn = o.d;
  const Shape& s = o.s;
  int n = dyn.n, m = dyn.m, N = s.N;
  std::string d = o.text();
  bool colloc = s.tr == TranscriptionMethod::DIRECT_COLLOCATION, vardt = s.ts != TimestepMethod::FIXED;

  // Limits
  DVec ulo = DVec::Constant(m, -INF), uhi = DVec::Constant(m, INF);
  bool has_lo = g.chance(0.6), has_hi = g.chance(0.6);
  if (has_lo) {
    if (g.chance(0.4)) {
      double v = g.in(-12, -1) / 4.0;
      ulo.setConstant(v), p.set_lower_input_bound(v);
    } else {
      for (int j = 0; j < m; ++j) ulo[j] = g.in(-12, 2) / 4.0;
      if (m == 1 && g.chance(0.5)) p.set_lower_input_bound(ulo[0]); else p.set_lower_input_bound(ulo);
    }
  }
  if (has_hi) {
    if (g.chance(0.4)) {
      double v = g.in(4, 12) / 4.0;
      uhi.setConstant(v), p.set_upper_input_bound(v);
    } else {
      for (int j = 0; j < m; ++j) uhi[j] = (has_lo ? ulo[j] + g.in(2, 12) / 4.0 : g.in(-2, 12) / 4.0);
      p.set_upper_input_bound(uhi);
    }
    for (int j = 0; j < m; ++j)
      if (ulo[j] >= uhi[j]) return;
  }
  double tlo = -INF, thi = INF;
  if (vardt || g.chance(0.1)) {
    if (vardt || g.chance(0.5)) tlo = s.dt * (vardt ? g.real(0.3, 1.2) : 0.5), p.set_min_timestep(Sec(tlo));
    if (g.chance(0.6)) thi = vardt ? tlo * g.real(1.1, 2) : s.dt * 2, p.set_max_timestep(Sec(thi));
  }

  // A trajectory satisfying everything so far
  Traj ref;
  ref.X = LMat::Zero(n, N + 1), ref.U = LMat::Zero(m, N + 1), ref.dt = LVec::Constant(N + 1, s.dt);
  for (int j = 0; j < m; ++j)
    for (int k = 0; k <= N; ++k) {
      double lo = std::isfinite(ulo[j]) ? ulo[j] : std::isfinite(uhi[j]) ? uhi[j] - 2 : -1, hi = std::isfinite(uhi[j]) ? uhi[j] : lo + 2;
      ref.U(j, k) = g.real(lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo));
    }
  double common = g.real(0.3, 0.7);
  if (vardt)
    for (int k = 0; k <= N; ++k) {
      double hi = std::isfinite(thi) ? thi : tlo * 1.5, w = s.ts == TimestepMethod::VARIABLE ? g.real(0.2, 0.8) : common;
      ref.dt[k] = tlo + w * (hi - tlo);
    }
  for (int i = 0; i < n; ++i) ref.X(i, 0) = g.in(-8, 8) / 8.0;
  for (int k = 0; k < N && colloc; ++k) ref.X.col(k + 1) = ref.X.col(0);  // guess
  if (!simulate(dyn, s, ref)) return R.count("references not simulated");
  if (!(ref.X.cwiseAbs().maxCoeff() < 50)) return R.count("references too large");

  bool init = g.chance(0.8);
  if (init) {
    DVec x0 = ref.X.col(0).cast<double>();
    if (n == 1 && g.chance(0.4)) {
      p.constrain_initial_state(x0[0]);
    } else if (g.chance(0.15)) {  // a scalar stands for every element
      ref.X.col(0).setConstant(0.5);
      if (!simulate(dyn, s, ref)) return;
      p.constrain_initial_state(0.5);
    } else if (g.chance(0.3)) {
      PM v{n, 1};
      for (int i = 0; i < n; ++i) v[i, 0] = x0[i];
      p.constrain_initial_state(v);
    } else {
      p.constrain_initial_state(x0);
    }
  }
  bool fin = N * m >= 2 * n + 2 && g.chance(0.3);
  DVec xf = ref.X.col(N).cast<double>();
  if (fin) p.constrain_final_state(xf);

  // Constraints per step: a limit on an input that depends on time, and a
  // limit on a state
  bool steplim = g.chance(0.35);
  double sa = 0, sb = 0, so = g.in(1, 6) / 2.0;
  int sj = g.in(0, m - 1);
  int calls = 0;
  if (steplim) {
    sb = g.real(0.1, 0.5);
    // above the reference everywhere
    LD t = 0;
    sa = -1e9;
    for (int k = 0; k <= N; ++k) sa = std::max<double>(sa, ref.U(sj, k) - sb * std::sin(so * t) + 0.05), t += ref.dt[k];
    p.for_each_step([&](const PV& t, const PM& x, const PM& u, const PV& dt) {
      ++calls;
      p.subject_to(u[sj, 0] <= sa + sb * sin(so * t));
    });
    VF_CHECK(calls == N + 1, "steps visited", "%d calls: %s", calls, d.c_str());
  }
  bool statelim = g.chance(0.25);
  double xlim = 0;
  int xi = g.in(0, n - 1);
  if (statelim) {
    xlim = double(ref.X.row(xi).maxCoeff()) + 0.05;
    p.for_each_step([&](const PM& x, const PM& u) { p.subject_to(x[xi, 0] <= xlim); });
  }

  // Tracking cost that pulls towards and beyond the limits
  DMat xr(n, N + 1), ur(m, N + 1);
  DVec tr(N + 1);
  double wx = std::pow(4, g.in(-1, 1)), wu = std::pow(4, g.in(-2, 1)), wt = std::pow(4, g.in(0, 4));
  PV J = 0.0;
  for (int k = 0; k <= N; ++k) {
    for (int i = 0; i < n; ++i) xr(i, k) = double(ref.X(i, k)) + g.normal(), J += wx * pow(p.X()[i, k] - xr(i, k), 2);
    for (int j = 0; j < m; ++j) ur(j, k) = double(ref.U(j, k)) + g.normal(), J += wu * pow(p.U()[j, k] - ur(j, k), 2);
    tr[k] = s.dt * g.real(0.5, 2);
    if (vardt) J += wt * pow(p.dt()[0, k] - tr[k], 2);
  }
  p.minimize(J);

  // A start near the reference
  bool warm = g.chance(0.7);
  for (int k = 0; k <= N && warm; ++k) {
    for (int j = 0; j < m; ++j) p.U()[j, k].set_value(double(ref.U(j, k)) + 0.1 * g.normal());
    if (s.tr != TranscriptionMethod::SINGLE_SHOOTING || k == 0)
      for (int i = 0; i < n; ++i) p.X()[i, k].set_value(double(ref.X(i, k)) + 0.1 * g.normal());
  }

  d += fmt("%s%s%s%s%s%s%s%s", has_lo ? ", lower" : "", has_hi ? ", upper" : "", std::isfinite(tlo) ? ", min dt" : "", std::isfinite(thi) ? ", max dt" : "", init ? ", initial" : "", fin ? ", final" : "", steplim ? ", step limit" : "", statelim ? ", state limit" : "");
  ExitStatus st = p.solve(quiet());
  if (g.chance(0.1)) st = p.solve(quiet());
  R.count(fmt("status %d", int(st)));
  R.count(fmt("solved: %s %s", tr_name(s.tr), ts_name(s.ts)));
  check_shapes(o);
  bool convex = dyn.linear() && !vardt;
  if (convex && warm) {
    VF_CHECK(st == ExitStatus::SUCCESS, "convex not solved", "status %d: %s", int(st), d.c_str());
    R.count("convex problems");
  }
  ++attempted;
  if (st != ExitStatus::SUCCESS) {
    ++unsolved;
    last_unsolved = fmt("status %d: %s", int(st), d.c_str());
    return;
  }
  R.nontrivial(hash_str(d, g.s));
  R.sample(d);
  R.count("successes judged");

  Traj q = read(o);
  LD size = 1 + q.X.cwiseAbs().maxCoeff();
  LD tol = 1e-7L * size;
  LD t = 0;
  for (int k = 0; k <= N; ++k) {
    if (s.ts != TimestepMethod::VARIABLE) VF_CHECK(q.dt[k] == q.dt[0], "unequal dt", "time step %d is %.17Lg, not %.17Lg: %s", k, q.dt[k], q.dt[0], d.c_str());
    if (s.ts == TimestepMethod::FIXED) VF_CHECK(q.dt[k] == s.dt, "fixed dt", "time step %d is %.17Lg: %s", k, q.dt[k], d.c_str());
    VF_CHECK(q.dt[k] >= tlo - 1e-6 && q.dt[k] <= thi + 1e-6, "dt limits", "time step %d is %.10Lg outside [%g, %g]: %s", k, q.dt[k], tlo, thi, d.c_str());
    for (int j = 0; j < m; ++j) VF_CHECK(q.U(j, k) >= ulo[j] - 1e-6 && q.U(j, k) <= uhi[j] + 1e-6, "input limits", "input %d of step %d is %.10Lg outside [%g, %g]: %s", j, k, q.U(j, k), ulo[j], uhi[j], d.c_str());
    if (steplim) VF_CHECK(q.U(sj, k) <= sa + sb * std::sin(so * t) + 2e-6L, "step limit", "input %d of step %d (time %Lg) is %.10Lg, above %.10Lg: %s", sj, k, t, q.U(sj, k), sa + sb * std::sin(so * t), d.c_str());
    if (statelim) VF_CHECK(q.X(xi, k) <= xlim + tol, "state limit", "state %d of step %d is %.10Lg, above %.10g: %s", xi, k, q.X(xi, k), xlim, d.c_str());
    if (k < N) {
      LVec x = q.X.col(k), y = q.X.col(k + 1), u = q.U.col(k), u1 = q.U.col(k + 1);
      LVec def = colloc ? collocation_defect(dyn, t, x, y, u, u1, q.dt[k]) : LVec(y - explicit_step(dyn, t, x, u, q.dt[k]));
      LD worst = def.cwiseAbs().maxCoeff(), lim = colloc ? tol / q.dt[k] : s.tr == TranscriptionMethod::SINGLE_SHOOTING ? 1e-11L * size * size : tol;
      R.maximum(fmt("defect / tolerance, %s", tr_name(s.tr)), double(worst / lim));
      VF_CHECK(worst <= lim, "dynamics", "step %d misses the dynamics by %.3Lg: %s", k, worst, d.c_str());
      R.count("steps judged");
    }
    t += q.dt[k];
  }
  if (init)
    for (int i = 0; i < n; ++i) VF_CHECK(std::fabs(q.X(i, 0) - ref.X(i, 0)) <= tol, "initial state", "state %d starts at %.10Lg instead of %.10Lg: %s", i, q.X(i, 0), ref.X(i, 0), d.c_str());
  if (fin)
    for (int i = 0; i < n; ++i) VF_CHECK(std::fabs(q.X(i, N) - xf[i]) <= tol, "final state", "state %d ends at %.10Lg instead of %.10g: %s", i, q.X(i, N), xf[i], d.c_str());

  // Nothing else constrains the trajectory: first-order optimality in the free
  // quantities (inputs, time steps, free initial state)
  if (statelim || (steplim && vardt)) return;
  int nu = m * (N + 1), nt = s.ts == TimestepMethod::FIXED ? 0 : s.ts == TimestepMethod::VARIABLE ? N + 1 : 1, nx = init ? 0 : n, P = nu + nt + nx;
  auto param = [&](Traj& w, int i) -> std::vector<LD*> {
    if (i < nu) return {&w.U(i % m, i / m)};
    if (i < nu + nt) {
      if (s.ts == TimestepMethod::VARIABLE) return {&w.dt[i - nu]};
      std::vector<LD*> r;
      for (int k = 0; k <= N; ++k) r.push_back(&w.dt[k]);
      return r;
    }
    return {&w.X(i - nu - nt, 0)};
  };
  auto cost = [&](const Traj& w) {
    LD v = 0;
    for (int k = 0; k <= N; ++k) {
      for (int i = 0; i < n; ++i) v += wx * (w.X(i, k) - xr(i, k)) * (w.X(i, k) - xr(i, k));
      for (int j = 0; j < m; ++j) v += wu * (w.U(j, k) - ur(j, k)) * (w.U(j, k) - ur(j, k));
      if (vardt) v += wt * (w.dt[k] - tr[k]) * (w.dt[k] - tr[k]);
    }
    return v;
  };
  LVec grad(P);
  LMat F(n, P);
  LD sens = 0;  // how far the states move with one of them
  for (int i = 0; i < P; ++i) {
    Traj a = q, b = q;
    const LD h = 1e-6L;
    for (LD* v : param(a, i)) *v += h;
    for (LD* v : param(b, i)) *v -= h;
    if (!simulate(dyn, s, a) || !simulate(dyn, s, b)) return R.count("not linearised");
    grad[i] = (cost(a) - cost(b)) / (2 * h);
    sens = std::max(sens, (a.X - b.X).cwiseAbs().maxCoeff() / (2 * h));
    F.col(i) = (a.X.col(N) - b.X.col(N)) / (2 * h);
  }
  // (unstable systems magnify the tolerances of the dynamics)
  if (sens > 300) return R.count("too sensitive");
  LVec lo(P), hi(P), v(P);
  for (int i = 0; i < P; ++i) {
    v[i] = *param(q, i)[0];
    lo[i] = i < nu ? ulo[i % m] : i < nu + nt ? tlo : -INF;
    hi[i] = i < nu ? uhi[i % m] : i < nu + nt ? thi : INF;
    if (steplim && i < nu && i % m == sj) hi[i] = std::min<LD>(hi[i], sa + sb * std::sin(so * s.dt * (i / m)));
    if (hi[i] < lo[i] + 1e-3L) return R.count("step limit without room");
  }
  LD gs = 1 + grad.cwiseAbs().maxCoeff();
  if (fin) {
    // multipliers of the final state from the inputs clear of their limits
    std::vector<int> in;
    for (int i = 0; i < P; ++i)
      if (v[i] > lo[i] + 1e-3L && v[i] < hi[i] - 1e-3L) in.push_back(i);
    if (int(in.size()) < n) return R.count("final state not judged");
    LMat Fi(n, in.size());
    LVec gi(in.size());
    for (size_t k = 0; k < in.size(); ++k) Fi.col(k) = F.col(in[k]), gi[k] = grad[in[k]];
    Eigen::ColPivHouseholderQR<LMat> qr(Fi.transpose());
    qr.setThreshold(1e-3L);
    if (qr.rank() < n) return R.count("final state not judged");
    LVec lam = qr.solve(-gi);
    gs += lam.cwiseAbs().maxCoeff();
    grad += F.transpose() * lam;
    R.count("final states judged");
  }
  for (int i = 0; i < P; ++i) {
    LD step = grad[i] / gs, to = std::clamp(v[i] - step, lo[i], hi[i]);
    R.maximum("optimality residual", double(std::fabs(to - v[i])));
    if (getenv("VERIF_DIST") && std::fabs(to - v[i]) > 3e-5L) fprintf(stderr, "OPT %.3Lg sens %.3Lg gs %.3Lg size %.3Lg %s\n", std::fabs(to - v[i]), sens, gs, size, d.c_str());
    VF_CHECK(std::fabs(to - v[i]) <= 3e-3L, "not optimal", "%s %d can still improve: value %.10Lg in [%Lg, %Lg], reduced gradient %.3Lg of %.3Lg: %s", i < nu ? "input" : i < nu + nt ? "time step" : "initial state", i < nu ? i : i < nu + nt ? i - nu : i - nu - nt, v[i], lo[i], hi[i], grad[i], gs, d.c_str());
    if (i < nu) R.count(v[i] < lo[i] + 1e-4L || v[i] > hi[i] - 1e-4L ? "inputs at a limit" : "inputs clear of limits");
  }
  R.count("optima judged");
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  R.cases("structure", 6000, structure);
  R.cases("solved", 6000, solved);
  R.cases("rate", 8, rate);
  return R.finish(), 0;
}
