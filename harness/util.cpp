// C01-C06, R03: monitors of the solver's components and ownership helpers.
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <memory>
#include <set>
#include <sleipnir/optimization/solver/util/all_finite.hpp>
#include <sleipnir/optimization/solver/util/append_as_triplets.hpp>
#include <sleipnir/optimization/solver/util/filter.hpp>
#include <sleipnir/optimization/solver/util/fraction_to_the_boundary_rule.hpp>
#include <sleipnir/optimization/solver/util/inertia.hpp>
#include <sleipnir/optimization/solver/util/is_locally_infeasible.hpp>
#include <sleipnir/optimization/solver/util/kkt_error.hpp>
#include <sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp>
#include <sleipnir/optimization/solver/util/problem_scaling.hpp>
#include <sleipnir/optimization/solver/util/regularized_ldlt.hpp>
#include <sleipnir/optimization/solver/util/sparse_inf_norms.hpp>
#include <sleipnir/util/function_ref.hpp>
#include <sleipnir/util/intrusive_shared_ptr.hpp>
#include <sleipnir/util/scope_exit.hpp>

#include "common.hpp"

#ifdef VF_ONLY
#define HAS(n) (VF_ONLY == (n))
#else
#define HAS(n) 1
#endif

using namespace vf;
using LD = long double;
using DVec = Eigen::VectorXd;
using DMat = Eigen::MatrixXd;
using LVec = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using LMat = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
using SMat = Eigen::SparseMatrix<double>;

static const double INF = std::numeric_limits<double>::infinity();

/// A sparse matrix holding the entries of m that mask selects (explicit zeros
/// included), sometimes with spare room between columns (uncompressed).
template <int Opt = Eigen::ColMajor>
static Eigen::SparseMatrix<double, Opt> sparse_of(Rng& g, const DMat& m, const Eigen::MatrixXi* mask = nullptr) {
  Eigen::SparseMatrix<double, Opt> s(m.rows(), m.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i)
      if (mask ? (*mask)(i, j) != 0 : m(i, j) != 0) t.push_back({i, j, m(i, j)});
  s.setFromTriplets(t.begin(), t.end());
  if (g.chance(0.15) && s.outerSize() > 0) s.reserve(Eigen::VectorXi::Constant(s.outerSize(), 2));
  return s;
}

static DMat rand_mat(Rng& g, int r, int c, double density, double scale = 1) {
  DMat m = DMat::Zero(r, c);
  for (int j = 0; j < c; ++j)
    for (int i = 0; i < r; ++i)
      if (g.chance(density)) m(i, j) = scale * (g.chance(0.3) ? g.in(-3, 3) : g.normal());
  return m;
}

static DVec rand_vec(Rng& g, int n, double scale = 1) {
  DVec v(n);
  for (int i = 0; i < n; ++i) v[i] = scale * (g.chance(0.1) ? 0 : g.normal());
  return v;
}

static uint64_t hash_mat(const DMat& m, uint64_t h = 7) {
  h = mix(h ^ (m.rows() * 131 + m.cols()));
  for (int i = 0; i < m.size(); ++i) {
    uint64_t b;
    std::memcpy(&b, m.data() + i, 8);
    h = mix(h ^ b);
  }
  return h;
}

// ---------------------------------------------------------------- C01
#if HAS(1)
struct Inert {
  int pos = 0, neg = 0;  // clearly so
  double gap = 0;        // smallest magnitude of an eigenvalue
};

static Inert inertia_of(const LMat& M, LD tol) {
  Eigen::SelfAdjointEigenSolver<LMat> es(M, Eigen::EigenvaluesOnly);
  Inert r;
  r.gap = 1e300;
  for (int i = 0; i < M.rows(); ++i) {
    LD e = es.eigenvalues()[i];
    r.pos += e > tol;
    r.neg += e < -tol;
    r.gap = std::min(r.gap, double(std::fabs(e)));
  }
  return r;
}

enum MKind { K_QUASIDEF, K_KKT, K_INDEF, K_RANKDEF, K_SINGULAR, K_ZERO, K_TINY, K_HUGE, K_NONFINITE, K_COUNT };
static const char* kind_names[] = {"quasidefinite", "regular KKT", "indefinite", "dependent constraints", "singular", "zero", "tiny", "huge", "nonfinite"};

static DMat gen_kkt(Rng& g, int n, int m, MKind k, const DMat& hs, const DMat& as) {
  // symmetric positive definite H with the pattern of hs (diagonal included)
  DMat H = DMat::Zero(n, n), A = DMat::Zero(m, n), C = DMat::Zero(m, m);
  for (int j = 0; j < n; ++j)
    for (int i = 0; i < j; ++i)
      if (hs(i, j) != 0) H(i, j) = H(j, i) = g.normal();
  for (int i = 0; i < n; ++i) H(i, i) = H.row(i).cwiseAbs().sum() + g.real(0.5, 3);
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < n; ++j)
      if (as(i, j) != 0) A(i, j) = g.normal();
  switch (k) {
    case K_QUASIDEF:
      for (int i = 0; i < m; ++i) C(i, i) = -g.real(0.5, 2);
      break;
    case K_INDEF:
      for (int i = 0; i < n; ++i) H(i, i) -= g.real(0, 6);
      if (g.chance(0.3)) H = -H;
      break;
    case K_RANKDEF:
      for (int i = 1; i < m; ++i)
        if (g.chance(0.7)) A.row(i) = A.row(g.in(0, i - 1)) * (g.chance(0.5) ? 1.0 : g.normal());
      if (m && g.chance(0.3)) A.row(0).setZero();
      break;
    case K_SINGULAR: {
      int z = g.in(0, n - 1);
      H.row(z).setZero(), H.col(z).setZero();
      if (m && g.chance(0.5)) A.col(z).setZero();
      break;
    }
    case K_ZERO: H.setZero(), A.setZero(); break;
    case K_TINY: H *= std::pow(10, g.real(-12, -5)); break;
    case K_HUGE: H *= std::pow(10, g.real(2, 7)), A *= std::pow(10, g.real(0, 3)); break;
    case K_NONFINITE: { int z = g.in(0, n - 1); H(z, z) = NAN; break; }
    default: break;
  }
  DMat M(n + m, n + m);
  M << H, A.transpose(), A, C;
  return M;
}

static long c01_rough[2], c01_inaccurate[2];

/// The inaccurate solves must stay rare.
static void c01_rates(Rng&) {
  for (int k = 0; k < 2; ++k)
    VF_CHECK(c01_inaccurate[k] <= 20 + c01_rough[k] * (k ? 0.03 : 0.1), "inaccurate solves", "%ld of %ld regularized sparse solves %s are inaccurate", c01_inaccurate[k], c01_rough[k], k ? "" : "without constraint regularization");
}

static void c01_case(Rng& g) {
  int n = g.in(1, 9), m = g.chance(0.3) ? 0 : g.in(1, std::max(1, n - 1));
  double dens = g.real(0.1, 1);
  DMat hs = rand_mat(g, n, n, dens), as = rand_mat(g, m, n, std::max(dens, 0.4));
  for (int i = 0; i < m; ++i)
    if (as.row(i).isZero()) as(i, g.in(0, n - 1)) = 1;
  if (g.chance(0.5))  // rows of the same pattern, so that they can be dependent
    for (int i = 1; i < m; ++i) as.row(i) = as.row(0);
  double gmin = g.chance(0.3) ? 0.0 : g.chance(0.5) ? 1e-10 : std::pow(10, g.real(-10, -4));
  bool deflt = g.chance(0.4);
  if (deflt) gmin = 1e-10;
  using LDLT = slp::RegularizedLDLT<double>;
  LDLT dense = deflt ? LDLT(false, n, m) : LDLT(false, n, m, gmin);
  LDLT sparse = deflt ? LDLT(true, n, m) : LDLT(true, n, m, gmin);
  Eigen::MatrixXi mask(n + m, n + m);  // one pattern for all
  for (int j = 0; j < n + m; ++j)
    for (int i = 0; i < n + m; ++i)
      mask(i, j) = i == j || (i < n && j < n && (hs(std::min(i, j), std::max(i, j)) != 0)) || (i >= n && j < n && as(i - n, j) != 0) || (j >= n && i < n && as(j - n, i) != 0);
  bool lower = g.chance(0.6);
  if (lower)
    for (int j = 0; j < n + m; ++j)
      for (int i = 0; i < j; ++i) mask(i, j) = 0;
  if (g.chance(0.5))  // the zero block unstored
    for (int i = n; i < n + m; ++i) mask(i, i) = 0;
  int steps = g.in(1, 6);
  std::string hist;
  bool failed[2] = {false, false};
  for (int s = 0; s < steps; ++s) {
    MKind k = MKind(g.chance(0.35) ? g.in(0, 1) : g.in(0, K_COUNT - 1));
    if (k == K_QUASIDEF && m && !mask(n, n)) k = K_KKT;
    DMat M = gen_kkt(g, n, m, k, hs, as);
    hist += fmt("%s%s", s ? ", " : "", kind_names[k]);
    SMat in = sparse_of(g, M, &mask);
    R.count(fmt("factored: %s", kind_names[k]));
    {  // what was stored
      DMat L = DMat(in);
      M = L.triangularView<Eigen::StrictlyLower>().toDenseMatrix() + L.triangularView<Eigen::StrictlyLower>().transpose().toDenseMatrix();
      M.diagonal() = L.diagonal();
    }
    LMat Ml = M.cast<LD>();
    LD norm = M.cwiseAbs().maxCoeff();
    for (int d = 0; d < 2; ++d) {
      LDLT& f = d ? dense : sparse;
      const char* who = d ? "dense" : "sparse";
      f.compute(in);
      bool ok = f.info() == Eigen::Success;
      R.count(ok ? "factorizations succeeded" : "factorizations failed");
      double dl = f.hessian_regularization(), gm = f.constraint_jacobian_regularization();
      failed[d] |= !ok;
      if (k == K_NONFINITE) {
        VF_CHECK(!ok, "nonfinite accepted", "%s factorization of a matrix with a nonfinite entry reports success [%s]", who, hist.c_str());
        continue;
      }
      VF_CHECK(dl >= 0 && gm >= 0, "negative regularization", "%s: delta %g, gamma %g [%s]", who, dl, gm, hist.c_str());
      // (the regularization starts from the previous one, so after a failure
      // it may start beyond its limit)
      if (k != K_HUGE && !failed[d]) VF_CHECK(ok, "failed", "%s factorization failed on a matrix of norm %Lg (n %d, m %d) [%s]", who, norm, n, m, hist.c_str());
      if (!ok) continue;
      if (dl == 0 && gm == 0) R.count("unregularized");
      LMat F = Ml;
      for (int i = 0; i < n; ++i) F(i, i) += dl;
      for (int i = n; i < n + m; ++i) F(i, i) -= gm;
      LD scale = F.cwiseAbs().maxCoeff();
      // Unmodified when it already is right, with pivots clear of zero whatever
      // the elimination order
      bool clear = k == K_QUASIDEF || (m == 0 && inertia_of(Ml, 0.01L).pos == n) || (d && k == K_KKT && inertia_of(Ml, 0.01L).pos == n && inertia_of(Ml, 0.01L).neg == m);
      if (clear) {
        VF_CHECK(dl == 0 && gm == 0, "needless regularization", "%s factorization of a %s matrix with the right inertia added delta %g, gamma %g (smallest eigenvalue %g) [%s]", who, kind_names[k], dl, gm, inertia_of(Ml, 0).gap, hist.c_str());
        R.count("right inertia kept");
      }
      // The solution of the regularized system
      DVec b = rand_vec(g, n + m);
      DVec x;
      if (g.chance(0.3)) {
        Eigen::SparseVector<double> sb = b.sparseView();
        x = f.solve(sb);
        R.count("sparse right-hand sides");
      } else if (g.chance(0.3)) {
        x = f.solve(-b);
        x = -x;
      } else {
        x = f.solve(b);
      }
      VF_CHECK(x.size() == n + m, "solution size", "%s: %d instead of %d", who, int(x.size()), n + m);
      LVec r = F * x.cast<LD>() - b.cast<LD>();
      LD rel = r.cwiseAbs().maxCoeff() / (scale * x.cwiseAbs().sum() + b.cwiseAbs().maxCoeff() + 1e-300L);
      bool tame = clear || (dl == 0 && gm == 0);
      if (getenv("VERIF_DIST") && rel > 1e-9L) fprintf(stderr, "RES %s %s %d %d %.3Lg dl %g gm %g\n", who, kind_names[k], n, m, rel, dl, gm);
      R.maximum(fmt("residual, %s", tame ? "no regularization" : d ? "regularized, dense" : "regularized, sparse"), double(rel));
      // Without pivoting, small pivots magnify rounding errors: the sparse
      // variant has no accuracy to speak of in a small part of the cases that
      // needed regularization with equality constraints
      bool rough = !tame && !d && m > 0 && gm < 1e-6;
      if (rough) {
        R.count(gm > 0 ? "sparse regularized solves" : "sparse solves without constraint regularization");
        ++c01_rough[gm > 0];
        if (rel > 1e-5L) {
          R.count(gm > 0 ? "inaccurate sparse regularized solves" : "inaccurate sparse solves without constraint regularization");
          ++c01_inaccurate[gm > 0];
          continue;
        }
      }
      // eigenvalues within rounding error of zero may go either way
      Inert it = inertia_of(F, (rough ? 1e-13L + rel : 1e-13L) * (n + m) * scale);
      VF_CHECK(it.pos <= n && it.neg <= m, "inertia", "%s factorization (n %d, m %d) reports success, but the matrix with delta %g, gamma %g has %d positive and %d negative eigenvalues [%s]", who, n, m, dl, gm, it.pos, it.neg, hist.c_str());
      R.count("inertias checked");
      LD lim = tame || m == 0 ? 1e-10L : d ? 1e-7L : k == K_HUGE || rough ? 1e-5L : 1e-6L;
      VF_CHECK(rel <= lim, "residual", "%s solve leaves a relative residual %.3Lg (n %d, m %d, delta %g, gamma %g) [%s]", who, rel, n, m, dl, gm, hist.c_str());
      R.count("solutions checked");
    }
    R.nontrivial(hash_mat(M));
  }
  R.sample(fmt("n %d m %d gamma_min %g %s: %s", n, m, gmin, lower ? "lower" : "full", hist.c_str()));
}

static void c01_inertia(Rng& g) {
  int n = g.in(0, 8);
  DVec D(n);
  int p = 0, ng = 0, z = 0;
  for (int i = 0; i < n; ++i) {
    double mag = std::pow(10, g.real(-14, 5));
    switch (g.in(0, 2)) {
      case 0: D[i] = mag, ++p; break;
      case 1: D[i] = -mag, ++ng; break;
      default: D[i] = g.chance(0.5) ? 0 : (g.chance(0.5) ? 1 : -1) * 1e-17, ++z;
    }
  }
  slp::Inertia a{D};
  VF_CHECK(a.positive == p && a.negative == ng && a.zero == z, "inertia count", "%d %d %d instead of %d %d %d", a.positive, a.negative, a.zero, p, ng, z);
  VF_CHECK(a == (slp::Inertia{p, ng, z}) && !(a == slp::Inertia{p + 1, ng, z}) && !(a == slp::Inertia{p, ng + 1, z}) && !(a == slp::Inertia{p, ng, z + 1}), "inertia comparison", "wrong");
  const DMat M = D.asDiagonal();
  slp::Inertia b{M.diagonal()};
  VF_CHECK(a == b, "inertia of a diagonal", "%d %d %d instead of %d %d %d", b.positive, b.negative, b.zero, p, ng, z);
  R.nontrivial(hash_mat(D));
}
#endif

// ---------------------------------------------------------------- C02
#if HAS(2)
using slp::KKTErrorType;

struct KktIn {
  DVec g, c_e, c_i, s, y, z;
  DMat A_e, A_i;
  double mu;
};

static LD norm_of(const LVec& v, bool one) {
  LD r = 0;
  for (int i = 0; i < v.size(); ++i) r = one ? r + std::fabs(v[i]) : std::max(r, std::fabs(v[i]));
  return r;
}

/// kind 0: gradient only, 1: with equalities, 2: with both. scale gets an upper
/// bound of the magnitudes summed, for rounding.
static LD ref_kkt(const KktIn& k, int kind, bool one, LD& scale) {
  LVec g = k.g.cast<LD>(), y = k.y.cast<LD>(), z = k.z.cast<LD>(), s = k.s.cast<LD>();
  LVec st = g;
  LVec mag = g.cwiseAbs();
  if (kind >= 1) st -= k.A_e.cast<LD>().transpose() * y, mag += k.A_e.cast<LD>().cwiseAbs().transpose() * y.cwiseAbs();
  if (kind >= 2) st -= k.A_i.cast<LD>().transpose() * z, mag += k.A_i.cast<LD>().cwiseAbs().transpose() * z.cwiseAbs();
  LVec comp(0), ce(0), slack(0);
  LD cmag = 0;
  if (kind >= 1) ce = k.c_e.cast<LD>();
  if (kind >= 2) {
    comp = s.cwiseProduct(z).array() - (LD)k.mu;
    slack = k.c_i.cast<LD>() - s;
    cmag = norm_of(s.cwiseProduct(z), true) + std::fabs(k.mu) * s.size() + norm_of(k.c_i.cast<LD>(), true) + norm_of(s, true);
  }
  scale = norm_of(mag, true) + norm_of(ce, true) + cmag;
  if (one) return norm_of(st, true) + norm_of(comp, true) + norm_of(ce, true) + norm_of(slack, true);
  LD sd = 1, sc = 1;
  LD l1 = norm_of(y, true) + (kind >= 2 ? norm_of(z, true) : 0);
  int cnt = (kind >= 1 ? y.size() : 0) + (kind >= 2 ? z.size() : 0);
  if (kind >= 1 && cnt) sd = std::max<LD>(100, l1 / cnt) / 100;
  if (kind >= 2 && z.size()) sc = std::max<LD>(100, norm_of(z, true) / z.size()) / 100;
  return std::max(std::max(norm_of(st, false) / sd, norm_of(comp, false) / sc), std::max(norm_of(ce, false), norm_of(slack, false)));
}

template <KKTErrorType T>
static double lib_kkt(const KktIn& k, int kind, Rng& g) {
  SMat Ae = sparse_of(g, k.A_e), Ai = sparse_of(g, k.A_i);
  if (kind == 0) return slp::kkt_error<double, T>(k.g);
  if (kind == 1) return slp::kkt_error<double, T>(k.g, Ae, k.c_e, k.y);
  return slp::kkt_error<double, T>(k.g, Ae, k.c_e, Ai, k.c_i, k.s, k.y, k.z, k.mu);
}

template <KKTErrorType T>
static double lib_unscaled(const slp::ProblemScaling<double>& sc, const KktIn& k, int kind, Rng& g) {
  SMat Ae = sparse_of(g, k.A_e), Ai = sparse_of(g, k.A_i);
  if (kind == 0) return slp::unscaled_kkt_error<double, T>(sc, k.g);
  if (kind == 1) return slp::unscaled_kkt_error<double, T>(sc, k.g, Ae, k.c_e, k.y);
  return slp::unscaled_kkt_error<double, T>(sc, k.g, Ae, k.c_e, Ai, k.c_i, k.s, k.y, k.z, k.mu);
}

static void c02_case(Rng& g) {
  int kind = g.in(0, 2);
  int n = g.in(1, 6), m = kind >= 1 ? (g.chance(0.15) ? 0 : g.in(1, 5)) : 0, p = kind >= 2 ? (g.chance(0.1) ? 0 : g.in(1, 5)) : 0;
  KktIn k;
  auto mag = [&] { return std::pow(10, g.chance(0.5) ? 0 : g.real(-8, 5)); };
  k.A_e = rand_mat(g, m, n, g.real(0.2, 1), mag());
  k.A_i = rand_mat(g, p, n, g.real(0.2, 1), mag());
  k.y = rand_vec(g, m, mag());
  k.z = rand_vec(g, p, mag()).cwiseAbs();
  k.s = rand_vec(g, p, mag()).cwiseAbs().array() + 1e-12;
  k.mu = g.chance(0.2) ? 0 : std::pow(10, g.real(-10, 1));
  k.g = rand_vec(g, n, mag());
  k.c_e = rand_vec(g, m, mag());
  k.c_i = rand_vec(g, p, mag());
  // make some of the conditions hold, so that each part gets to decide
  int how = g.in(0, 7);
  if (how & 1) {  // stationarity holds up to rounding or a single entry
    k.g = k.A_e.transpose() * k.y + k.A_i.transpose() * k.z;
    if (g.chance(0.6)) k.g[g.in(0, n - 1)] += (g.chance(0.5) ? 1 : -1) * mag();
  }
  if (how & 2) {
    k.c_e.setZero(), k.c_i = k.s;
    if (p && g.chance(0.4)) k.c_i[g.in(0, p - 1)] += (g.chance(0.5) ? 1 : -1) * mag();
    if (m && g.chance(0.4)) k.c_e[g.in(0, m - 1)] += (g.chance(0.5) ? 1 : -1) * mag();
  }
  if (how & 4) {
    for (int i = 0; i < p; ++i) k.z[i] = k.mu / k.s[i];
    if (p && g.chance(0.5)) k.z[g.in(0, p - 1)] = mag();
  }
  R.nontrivial(hash_mat(k.g, hash_mat(k.A_e, hash_mat(k.A_i, hash_mat(k.z)))));
  for (int one = 0; one < 2; ++one) {
    LD scale, want = ref_kkt(k, kind, one, scale);
    double got = one ? lib_kkt<KKTErrorType::ONE_NORM>(k, kind, g) : lib_kkt<KKTErrorType::INF_NORM_SCALED>(k, kind, g);
    VF_CHECK(std::fabs(got - want) <= 1e-12L * want + 1e-14L * scale, fmt("%s norm, kind %d", one ? "1" : "scaled inf", kind), "%.17g instead of %.17Lg (n %d, m %d, p %d, mu %g)", got, want, n, m, p, k.mu);
    R.count("errors compared");
    if (want < 1e-10L * scale) R.count("errors compared near zero");
    // in the user's units, from scaled data
    KktIn t = k;
    double df = g.chance(0.3) ? 1.0 : std::pow(10, g.real(-6, 0));
    DVec de(m), di(p);
    for (int i = 0; i < m; ++i) de[i] = g.chance(0.3) ? 1.0 : std::pow(10, g.real(-5, 0));
    for (int i = 0; i < p; ++i) di[i] = g.chance(0.3) ? 1.0 : std::pow(10, g.real(-5, 0));
    t.g *= df, t.mu *= df;
    t.A_e = de.asDiagonal() * t.A_e, t.A_i = di.asDiagonal() * t.A_i;
    t.c_e = t.c_e.cwiseProduct(de), t.c_i = t.c_i.cwiseProduct(di), t.s = t.s.cwiseProduct(di);
    t.y = df * t.y.cwiseQuotient(de), t.z = df * t.z.cwiseQuotient(di);
    bool explicit_id = (df == 1 && m == 0 && p == 0) || g.chance(0.05);
    slp::ProblemScaling<double> sc{df, kind >= 1 ? de : DVec(0), kind >= 2 ? di : DVec(0)};
    if (explicit_id) sc = slp::ProblemScaling<double>{}, t = k;
    double un = one ? lib_unscaled<KKTErrorType::ONE_NORM>(sc, t, kind, g) : lib_unscaled<KKTErrorType::INF_NORM_SCALED>(sc, t, kind, g);
    VF_CHECK(std::fabs(un - want) <= 1e-11L * want + 1e-13L * scale, fmt("unscaled %s norm, kind %d", one ? "1" : "scaled inf", kind), "%.17g instead of %.17Lg (n %d, m %d, p %d, mu %g, d_f %g)", un, want, n, m, p, k.mu, df);
    R.count("unscaled errors compared");
  }
  R.sample(fmt("kind %d, n %d, m %d, p %d, mu %g, conditions held %d", kind, n, m, p, k.mu, how));
}
#endif

// ---------------------------------------------------------------- C03
#if HAS(3)
/// A reading of the definition with three answers: 1, 0, or -1 when rounding
/// could decide.
static int leq(LD a, LD b, LD tol) {
  if (std::isinf((double)a) || std::isinf((double)b)) return a <= b;
  if (std::fabs(a - b) <= tol && tol > 0) return -1;
  return a <= b;
}
static int tri_or(int a, int b) { return a == 1 || b == 1 ? 1 : (a == -1 || b == -1) ? -1 : 0; }
static int tri_and(int a, int b) { return a == 0 || b == 0 ? 0 : (a == -1 || b == -1) ? -1 : 1; }

struct Entry {
  LD cost, viol;
  bool exact;
};

struct FilterModel {
  std::vector<Entry> all;  // every protection ever given
  LD vmin, vmax;
  const LD eps = std::numeric_limits<double>::epsilon();

  struct Verdict {
    int accept;  // 1, 0, -1
    int augment;
    int by_filter;
  };

  Verdict judge(double cc, double cv, double tc, double tv, double D, double a) const {
    if (!std::isfinite(tc) || tv > (double)vmax * (1 + 1e-12)) return {0, 0, 0};
    if (leq(tv, vmax, 1e-12L * vmax) == -1) return {-1, -1, -1};
    const LD rel = 1e-9L;
    LD lhs = D < 0 ? (LD)a * std::pow(-(LD)D, 2.3L) : 0, rhs = std::pow((LD)cv, 1.1L);
    int sw = D < 0 ? (cv == 0 ? lhs > 0 : 1 - std::abs(leq(lhs, rhs, rel * rhs)) == 1 && lhs > rhs ? 1 : leq(lhs, rhs, rel * rhs) == -1 ? -1 : 0) : 0;
    if (D < 0 && cv == 0 && lhs < 1e-290L) sw = -1;
    // costs are compared up to ten roundings of the current one
    LD slack = 10 * eps * std::fabs((LD)cc), tolc = 4 * eps * (std::fabs((LD)cc) + std::fabs((LD)tc));
    int armijo = leq(tc - slack, cc + 1e-8L * a * D, tolc);
    LD phi = std::pow((LD)a, 1.5L);
    LD c_need = cc - phi * 1e-8L * cv, v_need = (1 - phi * 1e-5L) * cv;
    int dec = tri_or(leq(tc - slack, c_need, tolc), cv == 0 ? int(tv <= 0) : leq(tv, v_need, 1e-14L * cv));
    int low = leq(cv, vmin, 1e-12L * vmin);
    int use_armijo = tri_and(low, sw);
    int passes = use_armijo == 1 ? armijo : use_armijo == 0 ? dec : armijo == dec ? dec : -1;
    int in = 0;
    for (auto& e : all) {
      LD tc2 = e.exact ? 0 : 4 * eps * (std::fabs(e.cost) + std::fabs((LD)tc)), tv2 = e.exact ? 0 : 1e-14L * (e.viol + tv);
      in = tri_or(in, tri_and(leq(e.cost, tc, tc2), leq(e.viol, tv, tv2)));
    }
    int acc = tri_and(passes, in == -1 ? -1 : 1 - in);
    int aug = tri_or(sw == -1 ? -1 : 1 - sw, armijo == -1 ? -1 : 1 - armijo);
    return {acc, acc == 0 ? 0 : aug, passes == 0 ? 0 : tri_and(passes, in)};
  }
  void augment(double cc, double cv, double a) {
    LD phi = std::pow((LD)a, 1.5L);
    all.push_back({cc - phi * 1e-8L * cv, (1 - phi * 1e-5L) * cv, cv == 0});
  }
};

static void c03_case(Rng& g) {
  double v0 = g.chance(0.2) ? 0 : std::pow(10, g.real(-6, 4));
  slp::Filter<double> f{v0};
  if (g.chance(0.1)) f = slp::Filter<double>{}, v0 = 0;
  FilterModel m;
  m.vmin = 1e-4L * std::max(1.0, v0), m.vmax = 1e4L * std::max(1.0, v0);
  VF_CHECK(std::fabs(f.min_constraint_violation - m.vmin) <= 1e-12L * m.vmin && std::fabs(f.max_constraint_violation - m.vmax) <= 1e-12L * m.vmax, "limits", "min %g max %g for initial violation %g", f.min_constraint_violation, f.max_constraint_violation, v0);
  double cc = g.normal() * std::pow(10, g.real(-3, 4)), cv = v0;
  int steps = g.in(3, 60), accepted = 0, filtered = 0;
  uint64_t h = 1;
  std::vector<std::pair<double, double>> seen{{cc, cv}};
  for (int i = 0; i < steps; ++i) {
    if (g.chance(0.02)) {
      f.reset();
      m.all.clear();
      VF_CHECK(!f.last_rejection_due_to_filter(), "reset flag", "last rejection still attributed to the filter after reset");
      R.count("resets");
    }
    if (g.chance(0.15)) {  // another current iterate
      auto p = g.pick(seen);
      cc = p.first, cv = p.second;
      if (g.chance(0.2)) cv = 0;
    }
    FilterModel::Verdict v{-1, -1, -1};
    double tc, tv, D, a;
    for (int t = 0; t < 20; ++t) {
      a = g.chance(0.4) ? 1.0 : std::pow(0.5, g.in(1, 20));
      D = g.chance(0.25) ? g.real(0, 2) : -std::pow(10, g.real(-9, 3));
      double cs = std::max(1e-3, std::fabs(cc));
      switch (g.in(0, 9)) {
        case 0: case 1: tc = cc - cs * std::pow(10, g.real(-9, 0)); break;
        case 2: case 3: tc = cc + cs * std::pow(10, g.real(-9, 0)); break;
        case 4: tc = cc + a * D * g.real(0, 2); break;
        case 5: tc = cc - 1e-8 * std::pow(a, 1.5) * cv * g.real(0, 3); break;
        case 6: { tc = g.pick(seen).first; break; }
        case 7: tc = cc + 10 * 2.2e-16 * std::fabs(cc) * g.real(-1, 3); break;
        case 8: tc = g.chance(0.2) ? (g.chance(0.5) ? INF : -INF) : g.chance(0.1) ? NAN : g.pick(seen).first - cs * g.real(0, 1e-6); break;
        default: tc = g.normal() * cs * 10;
      }
      switch (g.in(0, 6)) {
        case 0: tv = 0; break;
        case 1: tv = cv * g.real(0, 1); break;
        case 2: tv = cv * (1 - std::pow(a, 1.5) * 1e-5 * g.real(0, 3)); break;
        case 3: tv = cv * g.real(1, 1.5); break;
        case 4: tv = g.pick(seen).second; break;
        case 5: tv = double(m.vmax) * g.real(0.5, 1.5); break;
        default: tv = std::pow(10, g.real(-10, 6)); if (g.chance(0.05)) tv = INF;
      }
      v = m.judge(cc, cv, tc, tv, D, a);
      if (v.accept != -1 && v.augment != -1 && v.by_filter != -1) break;
      v.accept = -1;
    }
    if (v.accept == -1) return;  // rounding would decide
    slp::FilterEntry<double> cur{cc, cv}, tri{tc, tv};
    bool got = f.try_add(cur, tri, D, a);
    VF_CHECK(got == (v.accept == 1), v.accept ? "wrongly rejected" : "wrongly accepted",
             "step %d: current (%.17g, %.17g), trial (%.17g, %.17g), D %.17g, alpha %g: %s, with %zu points protected (violation limits %Lg, %Lg)", i, cc, cv, tc, tv, D, a, got ? "accepted" : "rejected", m.all.size(), m.vmin, m.vmax);
    R.count(got ? "trials accepted" : "trials rejected");
    if (!got) {
      if (v.by_filter == 1) {
        VF_CHECK(f.last_rejection_due_to_filter(), "rejection not attributed", "step %d: rejected by the filter, but not reported so", i);
        R.count("trials rejected by the filter");
        ++filtered;
      } else if (std::isfinite(tc) && tv <= m.vmax) {
        VF_CHECK(!f.last_rejection_due_to_filter(), "rejection misattributed", "step %d: rejected for lack of progress, but attributed to the filter", i);
      }
    }
    if (got) {
      if (v.augment == 1) m.augment(cc, cv, a), R.count("points protected");
      ++accepted;
      seen.push_back({tc, tv});
      if (g.chance(0.8)) cc = tc, cv = tv;
    }
    h = mix(h ^ (got + 2 * v.by_filter) ^ mix(uint64_t(tc * 1e6)));
  }
  if (accepted > 1) R.nontrivial(h);
  R.sample(fmt("initial violation %g, %d steps, %d accepted, %d rejected by the filter, %zu points protected", v0, steps, accepted, filtered, m.all.size()));
}

static void c03_entries(Rng& g) {
  int m = g.in(0, 5), p = g.in(0, 5);
  double f = g.normal() * 10, mu = std::pow(10, g.real(-8, 1));
  DVec ce = rand_vec(g, m, 3), ci = rand_vec(g, p, 3), s = rand_vec(g, p, 2).cwiseAbs().array() + 1e-6;
  LD v1 = 0, v2 = 0, c = f, cm = std::fabs(f);
  for (int i = 0; i < m; ++i) v1 += std::fabs((LD)ce[i]);
  v2 = v1;
  for (int i = 0; i < p; ++i) {
    v2 += std::fabs((LD)ci[i] - s[i]);
    c -= (LD)mu * std::log((LD)s[i]);
    cm += std::fabs((LD)mu * std::log((LD)s[i]));
  }
  slp::FilterEntry<double> e{f, ce}, i{f, s, ce, ci, mu};
  VF_CHECK(e.cost == f && std::fabs(e.constraint_violation - v1) <= 1e-13L * (1 + v1), "equality entry", "(%.17g, %.17g) instead of (%.17g, %.17Lg)", e.cost, e.constraint_violation, f, v1);
  VF_CHECK(std::fabs(i.cost - c) <= 1e-13L * (1 + cm) && std::fabs(i.constraint_violation - v2) <= 1e-13L * (1 + v2), "barrier entry", "(%.17g, %.17g) instead of (%.17Lg, %.17Lg)", i.cost, i.constraint_violation, c, v2);
  slp::FilterEntry<double> only{f};
  VF_CHECK(only.cost == f && only.constraint_violation == 0, "cost entry", "(%g, %g)", only.cost, only.constraint_violation);
  // dominance on a grid, with equal coordinates
  double x1 = g.in(-2, 2), y1 = g.in(0, 3), x2 = g.in(-2, 2), y2 = g.in(0, 3);
  slp::FilterEntry<double> a{x1, y1}, b{x2, y2};
  VF_CHECK(a.dominated_by(b) == (x2 <= x1 && y2 <= y1), "dominance", "(%g, %g) by (%g, %g)", x1, y1, x2, y2);
  R.count("entries compared");
  R.nontrivial(hash_mat(ce, hash_mat(s)));
}
#endif

// ---------------------------------------------------------------- C04
#if HAS(4)
static void c04_case(Rng& g) {
  int n = g.chance(0.05) ? 0 : g.chance(0.03) ? g.in(9, 100) : g.in(1, 8);
  double tau = g.chance(0.3) ? 0.99 : g.chance(0.3) ? 1 - std::pow(10, g.real(-9, -1)) : g.chance(0.1) ? 1.0 : g.real(0.01, 1);
  DVec x(n), p(n);
  int style = g.in(0, 4);
  for (int i = 0; i < n; ++i) {
    x[i] = style == 0 ? g.real(0.1, 3) : std::pow(10, g.real(-12, 12));
    double r;  // p / x
    switch (g.in(0, 6)) {
      case 0: r = 0; break;
      case 5: r = -std::pow(10, g.real(8, 24)); break;
      case 1: r = std::pow(10, g.real(-6, 6)); break;
      case 2: r = -tau * g.real(0, 0.999999); break;
      case 3: r = -tau * (1 + std::pow(10, g.real(-9, 0))); break;
      case 4: r = -std::pow(10, g.real(-3, 8)); break;
      default: r = g.normal();
    }
    if (style == 1) r = -std::fabs(r);
    if (style == 2) r = std::fabs(r);
    if (style == 3) r = -tau * (1 - 1e-12 * g.real(1, 5));  // just short of it
    if (style == 4) r = g.chance(0.5) ? std::fabs(r) : -1000 * g.unit();
    p[i] = r * x[i];
  }
  double al = slp::fraction_to_the_boundary_rule<double>(x, p, tau);
  LD want = 1;
  int deciding = -1;
  for (int i = 0; i < n; ++i)
    if (p[i] < 0) {
      LD a = (LD)tau * x[i] / -(LD)p[i];
      if (a < want) want = a, deciding = i;
    }
  std::string t;
  for (int i = 0; i < n; ++i) t += fmt("(%.17g, %.17g) ", x[i], p[i]);
  VF_CHECK(al > 0 && al <= 1, "range", "step length %.17g for tau %g and (x, p) %s", al, tau, t.c_str());
  for (int i = 0; i < n; ++i)
    VF_CHECK(x[i] + (LD)al * p[i] >= (1 - (LD)tau) * x[i] - 4e-15L * (x[i] + std::fabs((LD)al * p[i])), "too long", "step length %.17g leaves entry %d below the fraction for tau %g and (x, p) %s", al, i, tau, t.c_str());
  VF_CHECK(al >= want * (1 - 1e-14L), "too short", "step length %.17g although %.17Lg is allowed for tau %g and (x, p) %s", al, want, tau, t.c_str());
  R.count(deciding < 0 ? "full steps" : deciding == n - 1 ? "cut by the last entry" : "cut by an earlier entry");
  R.nontrivial(hash_mat(x, hash_mat(p)));
  R.sample(fmt("tau %g: %s-> %g", tau, t.c_str(), al));
  if (g.chance(0.1)) {
    Eigen::VectorXf xf = x.cast<float>(), pf = p.cast<float>();
    float af = slp::fraction_to_the_boundary_rule<float>(xf, pf, float(tau));
    if (xf.allFinite() && pf.allFinite()) {
      LD w = 1;
      for (int i = 0; i < n; ++i)
        if (pf[i] < 0) w = std::min<LD>(w, (LD) float(tau) * xf[i] / -(LD)pf[i]);
      if (w > 1e-30L) VF_CHECK(std::fabs(af - w) <= 1e-6L * w, "single precision", "%g instead of %Lg", af, w);
    }
  }
}
#endif

// ---------------------------------------------------------------- C05
#if HAS(5)
static double factor_of(double gmax) { return gmax <= 100 ? 1.0 : 100 / gmax; }

static void c05_scaling(Rng& g) {
  int n = g.in(1, 6), m = g.in(0, 5), p = g.in(0, 5);
  auto rows = [&](int r) {
    DMat a = rand_mat(g, r, n, g.real(0.1, 1));
    for (int i = 0; i < r; ++i) a.row(i) *= std::pow(10, g.real(-6, 8));
    if (r && g.chance(0.3)) a.row(g.in(0, r - 1)) = DMat::Constant(1, n, g.chance(0.5) ? 100 : -100);
    return a;
  };
  DVec gr = rows(1).row(0).transpose();
  if (g.chance(0.1)) gr.setZero();
  DMat Ae = rows(m), Ai = rows(p);
  Eigen::MatrixXi me(m, n), mi(p, n);  // explicit zeros
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < m; ++i) me(i, j) = Ae(i, j) != 0 || g.chance(0.2);
    for (int i = 0; i < p; ++i) mi(i, j) = Ai(i, j) != 0 || g.chance(0.2);
  }
  SMat sAe = sparse_of(g, Ae, &me), sAi = sparse_of(g, Ai, &mi);
  int kind = g.in(0, 2);
  auto sc = kind == 0 ? slp::ProblemScaling<double>{gr} : kind == 1 ? slp::ProblemScaling<double>{gr, sAe} : slp::ProblemScaling<double>{gr, sAe, sAi};
  auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-14 * b; };
  double wf = factor_of(gr.cwiseAbs().maxCoeff());
  VF_CHECK(same(sc.f, wf), "cost factor", "%.17g instead of %.17g for a gradient of size %g", sc.f, wf, gr.cwiseAbs().maxCoeff());
  VF_CHECK(sc.c_e.size() == (kind >= 1 ? m : 0) && sc.c_i.size() == (kind >= 2 ? p : 0), "factor counts", "%d and %d for %d and %d constraints", int(sc.c_e.size()), int(sc.c_i.size()), m, p);
  for (int i = 0; i < sc.c_e.size(); ++i) {
    double w = factor_of(Ae.row(i).cwiseAbs().maxCoeff());
    VF_CHECK(same(sc.c_e[i], w), "equality factor", "factor %d is %.17g instead of %.17g", i, sc.c_e[i], w);
  }
  for (int i = 0; i < sc.c_i.size(); ++i) {
    double w = factor_of(Ai.row(i).cwiseAbs().maxCoeff());
    VF_CHECK(same(sc.c_i[i], w), "inequality factor", "factor %d is %.17g instead of %.17g", i, sc.c_i[i], w);
  }
  bool id = wf == 1 && sc.c_e.size() == 0 && sc.c_i.size() == 0;
  bool all_ones = wf == 1 && (sc.c_e.array() == 1).all() && (sc.c_i.array() == 1).all();
  // claimed identity must be one; an empty unit scaling is one
  VF_CHECK(!sc.is_identity() || all_ones, "identity claimed", "is_identity() with factors other than 1");
  VF_CHECK(sc.is_identity() || !id, "identity missed", "is_identity() is false without any scaling");
  slp::ProblemScaling<double> none;
  VF_CHECK(none.is_identity() && none.f == 1 && none.c_e.size() == 0 && none.c_i.size() == 0, "default scaling", "not the identity");
  DVec a = rand_vec(g, m), b = rand_vec(g, p);
  slp::ProblemScaling<double> ex{wf, a, b};
  VF_CHECK(ex.f == wf && ex.c_e == a && ex.c_i == b, "explicit scaling", "factors not kept");
  R.count("factors compared", 1 + sc.c_e.size() + sc.c_i.size());
  R.nontrivial(hash_mat(gr, hash_mat(Ae, hash_mat(Ai))));
  R.sample(fmt("kind %d, n %d, m %d, p %d, d_f %g", kind, n, m, p, sc.f));
}

static void c05_norms(Rng& g) {
  int r = g.in(0, 6), c = g.in(0, 6);
  DMat A = rand_mat(g, r, c, g.real(0, 1));
  for (int i = 0; i < A.size(); ++i) A.data()[i] *= std::pow(10, g.real(-300, 300));
  Eigen::MatrixXi mk(r, c);
  for (int j = 0; j < c; ++j)
    for (int i = 0; i < r; ++i) mk(i, j) = A(i, j) != 0 || g.chance(0.2);
  bool nan = g.chance(0.3) && A.size() > 0;
  int bad = 0;
  if (nan) {
    for (int t = g.in(1, 2); t; --t) {
      int i = g.in(0, r - 1), j = g.in(0, c - 1);
      A(i, j) = g.chance(0.5) ? NAN : g.chance(0.5) ? INF : -INF;
      mk(i, j) = 1;
      ++bad;
    }
  }
  auto cm = sparse_of<Eigen::ColMajor>(g, A, &mk);
  auto rm = sparse_of<Eigen::RowMajor>(g, A, &mk);
  VF_CHECK(slp::all_finite(cm) == (bad == 0), "all_finite", "%d for a column-major matrix with %d nonfinite entries", int(slp::all_finite(cm)), bad);
  VF_CHECK(slp::all_finite(rm) == (bad == 0), "all_finite, row-major", "%d for a matrix with %d nonfinite entries", int(slp::all_finite(rm)), bad);
  R.count(bad ? "nonfinite matrices" : "finite matrices");
  if (c > 0 && r > 0) {
    Eigen::SparseVector<double> v(r);
    int j = g.in(0, c - 1);
    bool fin = true;
    for (int i = 0; i < r; ++i)
      if (mk(i, j)) v.insert(i) = A(i, j), fin &= std::isfinite(A(i, j));
    VF_CHECK(slp::all_finite(v) == fin, "all_finite, vector", "%d, finite is %d", int(slp::all_finite(v)), int(fin));
  }
  if (!A.hasNaN()) {
    for (int k = 0; k < 2; ++k) {
      DVec nn = k ? slp::sparse_inf_norms(rm) : slp::sparse_inf_norms(cm);
      VF_CHECK(nn.size() == r, "norm count", "%d for %d rows", int(nn.size()), r);
      for (int i = 0; i < r; ++i) {
        double w = 0;
        for (int j = 0; j < c; ++j) w = std::max(w, std::fabs(A(i, j)));
        VF_CHECK(nn[i] == w, "row norm", "row %d of %d: %.17g instead of %.17g", i, r, nn[i], w);
      }
    }
    R.count("rows compared", r);
  }
  R.nontrivial(hash_mat(A));
}

static void c05_infeasible(Rng& g) {
  // ||A'c|| and ||c|| well clear of the thresholds 1e-6 and 1e-2
  int m = g.chance(0.05) ? 0 : g.in(1, 5), n = g.in(1, 6);
  DMat A = rand_mat(g, m, n, g.real(0.3, 1));
  DVec c = rand_vec(g, m, std::pow(10, g.real(-5, 2)));
  if (m && g.chance(0.6)) {  // stationary violation: A'c+ = 0
    DVec u = c;
    if (g.chance(0.5)) u = u.cwiseMin(0.0);
    double uu = u.squaredNorm();
    if (uu > 0) A -= u * (u.transpose() * A) / uu;
    if (g.chance(0.3)) A += rand_mat(g, m, n, 0.5, std::pow(10, g.real(-9, -3)));
  }
  SMat s = sparse_of(g, A);
  for (int k = 0; k < 2; ++k) {
    DVec u = k ? DVec(c.cwiseMin(0.0)) : c;
    LD st = (A.cast<LD>().transpose() * u.cast<LD>()).norm(), nn = u.cast<LD>().norm();
    if ((st > 0.9e-6L && st < 1.1e-6L) || (nn > 0.99e-2L && nn < 1.01e-2L)) continue;
    bool want = m > 0 && st < 1e-6L && nn > 1e-2L;
    bool got = k ? slp::is_inequality_locally_infeasible(s, c) : slp::is_equality_locally_infeasible(s, c);
    VF_CHECK(got == want, k ? "inequality infeasibility" : "equality infeasibility", "%d although the violation is %Lg and its gradient %Lg (%d rows)", int(got), nn, st, m);
    R.count(want ? "locally infeasible" : "not locally infeasible");
  }
  R.nontrivial(hash_mat(A, hash_mat(c)));
}
#endif

// ---------------------------------------------------------------- C06
#if HAS(6)
static void c06_estimate(Rng& g) {
  bool ipm = g.chance(0.6);
  int n = g.in(1, 7), m = g.in(ipm ? 0 : 1, n), p = ipm ? g.in(0, 5) : 0;
  if (m + p == 0) p = 1;
  if (!ipm && p) ipm = true;
  DMat Ae = rand_mat(g, m, n, g.real(0.3, 1)), Ai = rand_mat(g, p, n, g.real(0.2, 1));
  // independent equality rows
  if (m) {
    Eigen::JacobiSVD<DMat> svd(Ae);
    if (svd.singularValues().minCoeff() < 0.1) {
      for (int i = 0; i < m; ++i) Ae(i, i) += 4;
    }
    Eigen::JacobiSVD<DMat> s2(Ae);
    if (s2.singularValues().minCoeff() < 0.1) return;
  }
  DVec gr = rand_vec(g, n, std::pow(10, g.real(-2, 3)));
  double mu = std::pow(10, g.real(-8, 0));
  DVec s(p);
  for (int i = 0; i < p; ++i) s[i] = g.chance(0.7) ? g.real(0.3, 5) : std::pow(10, g.real(-1, 4));
  if (g.chance(0.3)) {  // consistent data: known answer
    DVec y = rand_vec(g, m, 3), z(p);
    for (int i = 0; i < p; ++i) z[i] = mu / s[i];
    gr = Ae.transpose() * y + Ai.transpose() * z;
  }
  Eigen::SparseVector<double> sg = gr.sparseView();
  SMat sAe = sparse_of(g, Ae), sAi = sparse_of(g, Ai);
  LMat Ah = LMat::Zero(m + p, n + p);
  Ah.topLeftCorner(m, n) = Ae.cast<LD>();
  Ah.bottomLeftCorner(p, n) = Ai.cast<LD>();
  for (int i = 0; i < p; ++i) Ah(m + i, n + i) = -(LD)s[i];
  LVec rhs(n + p);
  rhs.head(n) = gr.cast<LD>();
  rhs.tail(p).setConstant(-(LD)mu);
  LMat N = Ah * Ah.transpose();
  Eigen::SelfAdjointEigenSolver<LMat> es(N, Eigen::EigenvaluesOnly);
  LD cond = es.eigenvalues().maxCoeff() / std::max<LD>(es.eigenvalues().minCoeff(), 1e-300L);
  if (cond > 1e9L) return;
  LVec want = N.fullPivLu().solve(Ah * rhs);
  LD size = want.cwiseAbs().maxCoeff() + 1e-300L, tol = 1e-14L * cond * size + 1e-12L * size + 1e-14L * (Ah.cwiseAbs() * rhs.cwiseAbs()).maxCoeff() / std::max<LD>(es.eigenvalues().minCoeff(), 1e-300L);
  DVec y, z;
  if (ipm) {
    auto e = slp::lagrange_multiplier_estimate<double>(sg, sAe, sAi, s, mu);
    y = e.y, z = e.z;
  } else {
    y = slp::lagrange_multiplier_estimate<double>(sg, sAe);
    z = DVec(0);
  }
  VF_CHECK(y.size() == m && z.size() == p, "sizes", "%d and %d for %d and %d constraints", int(y.size()), int(z.size()), m, p);
  for (int i = 0; i < m; ++i) {
    R.maximum("difference / tolerance", double(std::fabs(y[i] - want[i]) / tol));
    VF_CHECK(std::fabs(y[i] - want[i]) <= tol, "equality multiplier", "y[%d] is %.17g instead of %.17Lg (n %d, m %d, p %d)", i, y[i], want[i], n, m, p);
  }
  for (int i = 0; i < p; ++i) {
    LD lo = 1e-10L * mu / s[i], hi = 1e10L * mu / s[i], w = std::clamp(want[m + i], lo, hi);
    VF_CHECK(std::fabs(z[i] - w) <= tol + 1e-13L * w && z[i] > 0, "inequality multiplier", "z[%d] is %.17g instead of %.17Lg (unclamped %.17Lg, mu %g, s %g)", i, z[i], w, want[m + i], mu, s[i]);
    R.count(want[m + i] < lo ? "multipliers clamped below" : want[m + i] > hi ? "multipliers clamped above" : "multipliers unclamped");
  }
  R.count("multipliers compared", m + p);
  R.nontrivial(hash_mat(Ae, hash_mat(Ai, hash_mat(gr))));
  R.sample(fmt("%s: n %d, m %d, p %d, mu %g, conditioning %.2Lg", ipm ? "interior-point" : "SQP", n, m, p, mu, cond));
}

static void c06_triplets(Rng& g) {
  int k = g.in(1, 4), c = g.in(0, 6);
  int ro = g.in(0, 5), co = g.in(0, 5);
  std::vector<SMat> ms;
  std::vector<std::tuple<int, int, double>> want;  // per column, matrices from top to bottom
  std::vector<std::vector<std::tuple<int, int, double>>> cols(c);
  int off = 0;
  uint64_t h = k;
  for (int i = 0; i < k; ++i) {
    int r = g.in(0, 4);
    DMat A = rand_mat(g, r, c, g.real(0, 1));
    Eigen::MatrixXi mk(r, c);
    for (int b = 0; b < c; ++b)
      for (int a = 0; a < r; ++a) {
        mk(a, b) = A(a, b) != 0 || g.chance(0.15);
        if (mk(a, b)) cols[b].push_back({ro + off + a, co + b, A(a, b)});
      }
    ms.push_back(sparse_of(g, A, &mk));
    off += r;
    h = hash_mat(A, h);
  }
  for (auto& b : cols) want.insert(want.end(), b.begin(), b.end());
  gch::small_vector<Eigen::Triplet<double>> t;
  int pre = g.in(0, 3);  // what is there already stays
  for (int i = 0; i < pre; ++i) t.emplace_back(100 + i, 200 + i, 3.5 + i);
  switch (k) {
    case 1: slp::append_as_triplets(t, ro, co, {ms[0]}); break;
    case 2: slp::append_as_triplets(t, ro, co, {ms[0], ms[1]}); break;
    case 3: slp::append_as_triplets(t, ro, co, {ms[0], ms[1], ms[2]}); break;
    default: slp::append_as_triplets(t, ro, co, {ms[0], ms[1], ms[2], ms[3]});
  }
  auto check = [&](const char* what, size_t start) {
    VF_CHECK(t.size() == start + want.size(), fmt("%s count", what), "%zu triplets instead of %zu (%d matrices, %d columns)", t.size() - start, want.size(), k, c);
    for (int i = 0; i < pre; ++i) VF_CHECK(t[i].row() == 100 + i && t[i].col() == 200 + i && t[i].value() == 3.5 + i, fmt("%s, existing", what), "existing triplet %d changed", i);
    for (size_t i = 0; i < want.size(); ++i) {
      auto [r, cc, v] = want[i];
      auto& x = t[start + i];
      VF_CHECK(x.row() == r && x.col() == cc && x.value() == v, what, "triplet %zu is (%d, %d, %g) instead of (%d, %d, %g)", i, int(x.row()), int(x.col()), x.value(), r, cc, v);
    }
    R.count("triplets compared", want.size());
  };
  check("triplets", pre);
  if (R.violations) return;
  size_t start = t.size();
  DVec d = rand_vec(g, g.in(0, 6));
  slp::append_diagonal_as_triplets(t, ro, co, d);
  want.clear();
  for (int i = 0; i < d.size(); ++i) want.push_back({ro + i, co + i, d[i]});
  check("diagonal triplets", start);
  R.nontrivial(h);
}
#endif

// ---------------------------------------------------------------- R03
#if HAS(7)
struct Probe {
  static inline std::vector<int> refs, dead;  // by id
  static void reset() { refs.clear(), dead.clear(); }
  int id;
  uint32_t ref_count = 0;
  int payload;
  explicit Probe(int p = 0) : id(refs.size()), payload(p) { refs.push_back(0), dead.push_back(0); }
  Probe(const Probe&) = delete;
  virtual ~Probe() { ++dead[id]; }
};
struct Derived : Probe {
  int extra = 77;
  using Probe::Probe;
};
static bool over = false;  // a count went below zero
static void inc_ref_count(Probe* p) { ++p->ref_count, ++Probe::refs[p->id]; }
static void dec_ref_count(Probe* p) {
  if (p->ref_count == 0) {
    over = true;
    return;
  }
  --Probe::refs[p->id];
  if (--p->ref_count == 0) delete p;
}
template <typename T>
using Sp = slp::IntrusiveSharedPtr<T>;

template <typename T>
struct CountingAlloc {
  using value_type = T;
  int* n;
  T* allocate(size_t) { return ++*n, static_cast<T*>(::operator new(sizeof(T))); }
  void deallocate(T* p, size_t) { ::operator delete(p); }
};

static void r03_pointers(Rng& g) {
  Probe::reset();
  over = false;
  int nb = g.in(1, 5), nd = g.in(1, 4);
  std::vector<Sp<Probe>> b(nb);
  std::vector<Sp<Derived>> d(nd);
  // model: id held by each slot, -1 null, -2 unspecified (moved from by
  // assignment: null or the other's former object)
  std::vector<int> mb(nb, -1), md(nd, -1);
  int steps = g.in(5, 60);
  uint64_t h = 3;
  std::string hist;
  auto id = [](Probe* p) { return p ? p->id : -1; };
  int nalloc = 0;
  for (int s = 0; s < steps; ++s) {
    int i = g.in(0, nb - 1), j = g.in(0, nb - 1), k = g.in(0, nd - 1), l = g.in(0, nd - 1), op = g.in(0, 17);
    h = mix(h ^ (op * 1000 + i * 100 + j * 10 + k));
    int moved_b = -1, moved_d = -1;  // slots moved from: whatever they hold now is read back
    switch (op) {
      case 0: b[i] = slp::make_intrusive_shared<Probe>(s); mb[i] = Probe::refs.size() - 1; break;
      case 1: d[k] = slp::make_intrusive_shared<Derived>(s); md[k] = Probe::refs.size() - 1; break;
      case 2: b[i] = b[j]; mb[i] = mb[j]; break;
      case 3: { int v = mb[j]; b[i] = std::move(b[j]); if (i != j) mb[i] = v, moved_b = j; break; }
      case 4: b[i] = d[k]; mb[i] = md[k]; break;
      case 5: { int v = md[k]; b[i] = Sp<Probe>{std::move(d[k])}; mb[i] = v; md[k] = -1; break; }
      case 6: b[i] = nullptr; mb[i] = -1; break;
      case 7: { std::swap(b[i], b[j]); std::swap(mb[i], mb[j]); break; }
      case 8: { Sp<Probe> c{b[i]}; Sp<Probe> e{std::move(c)}; b[j] = e; mb[j] = mb[i]; break; }
      case 9: { Sp<Probe> c{b[i].get()}; b[j] = std::move(c); mb[j] = mb[i]; break; }  // adopt a raw pointer
      case 10: { auto& self = b[i]; b[i] = self; break; }
      case 11: { auto& self = b[i]; b[i] = std::move(self); break; }
      case 12: d[k] = d[l]; md[k] = md[l]; break;
      case 13: { int v = md[l]; d[k] = std::move(d[l]); if (k != l) md[k] = v, moved_d = l; break; }
      case 14: { // a copy that goes out of scope by an exception
        try {
          std::vector<Sp<Probe>> tmp(3, b[i]);
          tmp.push_back(b[j]);
          throw 1;
        } catch (int) {}
        break;
      }
      case 15: { Sp<Probe> c{d[k]}; b[j] = c; mb[j] = md[k]; break; }
      case 16: { int dd = 0; b[i] = slp::allocate_intrusive_shared<Probe>(CountingAlloc<Probe>{&nalloc}, s); mb[i] = Probe::refs.size() - 1; (void)dd; break; }
      default: { // assign from a derived pointer that moves
        int v = md[k];
        Sp<Derived> c{d[k]};
        Sp<Probe> e;
        e = c;
        b[i] = e; mb[i] = v;
      }
    }
    // a moved-from pointer may hold nothing or what the other one held
    auto settle = [&](auto& sp, int& m) {
      int now = id(sp.get());
      m = now;
    };
    if (moved_b >= 0) {
      if (b[moved_b].get() && Probe::dead[b[moved_b]->id]) { R.fail("dangling", "moved-from pointer holds a destroyed object"); return; }
      settle(b[moved_b], mb[moved_b]);
    }
    if (moved_d >= 0) settle(d[moved_d], md[moved_d]);
    VF_CHECK(!over, "count below zero", "step %d: reference count decremented below zero", s);
    std::vector<int> owners(Probe::refs.size(), 0);
    for (int q = 0; q < nb; ++q) {
      VF_CHECK(mb[q] < 0 || !Probe::dead[mb[q]], "destroyed while owned", "step %d (operation %d): object %d destroyed while a pointer owns it", s, op, mb[q]);
      VF_CHECK(id(b[q].get()) == mb[q], "wrong target", "step %d (operation %d): pointer %d holds object %d instead of %d", s, op, q, id(b[q].get()), mb[q]);
      if (mb[q] >= 0) {
        ++owners[mb[q]];
        VF_CHECK(bool(b[q]) && b[q] != nullptr && nullptr != b[q] && !(b[q] == nullptr) && &*b[q] == b[q].get() && b[q]->id == mb[q], "observers", "step %d: inconsistent observers", s);
      } else {
        VF_CHECK(!b[q] && b[q] == nullptr && nullptr == b[q] && !(b[q] != nullptr), "observers of null", "step %d: inconsistent observers of a null pointer", s);
      }
      for (int w = 0; w < nb; ++w) VF_CHECK((b[q] == b[w]) == (mb[q] == mb[w]) && (b[q] != b[w]) == (mb[q] != mb[w]), "comparison", "step %d: pointers %d and %d compare wrongly", s, q, w);
    }
    for (int q = 0; q < nd; ++q) {
      VF_CHECK(md[q] < 0 || !Probe::dead[md[q]], "destroyed while owned", "step %d (operation %d): derived object %d destroyed while a pointer owns it", s, op, md[q]);
      VF_CHECK(id(d[q].get()) == md[q], "wrong target", "step %d (operation %d): derived pointer %d holds object %d instead of %d", s, op, q, id(d[q].get()), md[q]);
      if (md[q] >= 0) {
        ++owners[md[q]];
        VF_CHECK(d[q]->extra == 77, "derived contents", "step %d: contents lost", s);
      }
    }
    for (size_t q = 0; q < owners.size(); ++q) {
      VF_CHECK(Probe::dead[q] <= 1, "destroyed twice", "step %d (operation %d): object %zu destroyed %d times", s, op, q, Probe::dead[q]);
      VF_CHECK((Probe::dead[q] == 1) == (owners[q] == 0), owners[q] ? "destroyed while owned" : "not destroyed", "step %d (operation %d): object %zu has %d owners, destroyed %d times", s, op, q, owners[q], Probe::dead[q]);
      VF_CHECK(Probe::dead[q] || Probe::refs[q] == owners[q], "reference count", "step %d (operation %d): object %zu has %d owners but a count of %d", s, op, q, owners[q], Probe::refs[q]);
    }
    R.count("ownership states checked");
  }
  b.clear();
  d.clear();
  for (size_t q = 0; q < Probe::dead.size(); ++q) VF_CHECK(Probe::dead[q] == 1, "end", "object %zu destroyed %d times when all owners are gone", q, Probe::dead[q]);
  R.count("objects created", Probe::dead.size());
  R.nontrivial(h);
  R.sample(fmt("%d pointers, %d derived pointers, %d operations, %zu objects", nb, nd, steps, Probe::dead.size()));
}

static void r03_guards(Rng& g) {
  // nested scopes with guards that may be released, moved, or unwound by an
  // exception; every guard's action is logged
  std::vector<int> log, want;
  int depth = g.in(1, 6);
  int throw_at = g.chance(0.4) ? g.in(0, depth - 1) : -1;
  std::vector<int> plan;
  for (int i = 0; i < depth; ++i) plan.push_back(g.in(0, 7));
  // expected: unwinding runs the innermost first; stops at depth of the throw
  std::function<void(int)> go = [&](int i) {
    if (i == depth) return;
    slp::scope_exit a{[&log, i] { log.push_back(i); }};
    switch (plan[i]) {
      case 1: a.release(); break;
      case 2: {  // moved into an inner scope: runs at that scope's end
        slp::scope_exit b{std::move(a)};
        log.push_back(1000 + i);
        break;
      }
      case 3: {  // moved, and the new one released
        slp::scope_exit b{std::move(a)};
        b.release();
        break;
      }
      case 4: a.release(); a.release(); break;
      case 6: {  // released, then moved: neither runs
        a.release();
        slp::scope_exit b{std::move(a)};
        log.push_back(3000 + i);
        break;
      }
      case 7: {  // what was moved from is moved again: only the first runs
        slp::scope_exit b{std::move(a)};
        slp::scope_exit c{std::move(a)};
        if (g.chance(0.5)) a.release();
        log.push_back(4000 + i);
        break;
      }
      case 5: {  // moved out through a chain
        slp::scope_exit b{std::move(a)};
        slp::scope_exit c{std::move(b)};
        slp::scope_exit d{std::move(c)};
        log.push_back(2000 + i);
        if (i == throw_at) throw i;
        go(i + 1);
        return;
      }
    }
    if (i == throw_at) throw i;
    go(i + 1);
  };
  std::function<bool(int)> model = [&](int i) {  // true when unwinding
    if (i == depth) return false;
    bool armed = plan[i] == 0;
    if (plan[i] == 2) want.push_back(1000 + i), want.push_back(i);
    if (plan[i] == 5) want.push_back(2000 + i), armed = true;
    if (plan[i] == 6) want.push_back(3000 + i);
    if (plan[i] == 7) want.push_back(4000 + i), want.push_back(i);
    bool u = i == throw_at ? true : model(i + 1);
    if (armed) want.push_back(i);
    return u;
  };
  model(0);
  bool threw = false;
  try {
    go(0);
  } catch (int) {
    threw = true;
  }
  VF_CHECK(threw == (throw_at >= 0), "exception lost", "thrown at %d, arrived %d", throw_at, int(threw));
  std::string p;
  for (int x : plan) p += fmt("%d ", x);
  VF_CHECK(log == want, "guard actions", "%zu events instead of %zu or in another order (plan %s, exception at %d)", log.size(), want.size(), p.c_str(), throw_at);
  R.count("guards run", want.size());
  if (threw) R.count("guards unwound by exceptions");
  R.nontrivial(hash_str(p) ^ throw_at);
}

struct Arg {
  static inline int copies = 0, moves = 0;
  int v;
  explicit Arg(int v) : v(v) {}
  Arg(const Arg& o) : v(o.v) { ++copies; }
  Arg(Arg&& o) noexcept : v(o.v) { o.v = -1, ++moves; }
};
static int free_fn(int a, int b) { return 1000 + a * 10 + b; }
static int free_fn2(int a, int b) { return 2000 + a - b; }
struct Functor {
  int k, calls = 0;
  int operator()(int a, int b) { return ++calls, k + a * b; }
};
struct Const {
  int k;
  int operator()(int a, int b) const { return k - a - b; }
};

static void r03_refs(Rng& g) {
  using Ref = slp::function_ref<int(int, int)>;
  int n = g.in(2, 5);
  std::vector<Functor> fs;
  for (int i = 0; i < 4; ++i) fs.push_back({100 * (i + 1)});
  const Const cst{g.in(0, 50)};
  int captured = g.in(0, 9);
  auto lam = [&](int a, int b) { return captured + a - 2 * b; };
  int mcalls = 0;
  auto mut = [&mcalls, c = 0](int a, int b) mutable { return ++mcalls, ++c * 10000 + a + b; };
  int mut_count = 0;
  std::vector<Ref> r;
  std::vector<int> m;  // what each refers to: 0-3 functors, 4 const, 5 lambda, 6 mutable lambda, 7, 8 functions
  auto make = [&](int what) -> Ref {
    switch (what) {
      case 4: return Ref{cst};
      case 5: return Ref{lam};
      case 6: return Ref{mut};
      case 7: return Ref{free_fn};
      case 8: return Ref{free_fn2};
      default: return Ref{fs[what]};
    }
  };
  for (int i = 0; i < n; ++i) {
    int w = g.in(0, 8);
    r.push_back(make(w)), m.push_back(w);
  }
  std::vector<int> calls(4, 0);
  uint64_t h = 1;
  int steps = g.in(5, 40);
  for (int s = 0; s < steps; ++s) {
    int i = g.in(0, n - 1), j = g.in(0, n - 1), op = g.in(0, 5);
    h = mix(h ^ (op * 100 + i * 10 + j));
    switch (op) {
      case 0: r[i] = r[j], m[i] = m[j]; break;
      case 1: r[i].swap(r[j]), std::swap(m[i], m[j]); break;
      case 2: swap(r[i], r[j]), std::swap(m[i], m[j]); break;
      case 3: {  // rebind
        int w = g.in(0, 6);
        if (w < 4) r[i] = fs[w];
        else if (w == 5) r[i] = lam;
        else if (w == 6) r[i] = mut;
        else w = m[i];
        m[i] = w;
        break;
      }
      case 4: { Ref c{r[j]}; r[i] = c, m[i] = m[j]; break; }
      default: {
        const Ref& f = r[i];
        int a = g.in(-9, 9), b = g.in(-9, 9), got = f(a, b), want = 0;
        captured = g.chance(0.3) ? captured : captured;
        switch (m[i]) {
          case 4: want = cst.k - a - b; break;
          case 5: want = captured + a - 2 * b; break;
          case 6: want = ++mut_count * 10000 + a + b; break;
          case 7: want = 1000 + a * 10 + b; break;
          case 8: want = 2000 + a - b; break;
          default: want = fs[m[i]].k + a * b, ++calls[m[i]];
        }
        VF_CHECK(got == want, "result", "call through reference %d (to callable %d) with (%d, %d) returned %d instead of %d", i, m[i], a, b, got, want);
        R.count("calls through references");
      }
    }
    for (int q = 0; q < 4; ++q) VF_CHECK(fs[q].calls == calls[q], "call count", "callable %d was called %d times instead of %d", q, fs[q].calls, calls[q]);
  }
  // arguments are forwarded, by value, reference and move
  int hits = 0;
  auto by = [&](Arg a, Arg& b, const Arg& c, Arg&& d) -> int { ++hits; b.v += 1; Arg t{std::move(d)}; return a.v * 1000 + b.v * 100 + c.v * 10 + t.v; };
  slp::function_ref<int(Arg, Arg&, const Arg&, Arg&&)> fr{by};
  Arg a{g.in(1, 9)}, b{g.in(1, 8)}, c{g.in(1, 9)}, d{g.in(1, 9)};
  int want = a.v * 1000 + (b.v + 1) * 100 + c.v * 10 + d.v, b0 = b.v;
  int got = fr(a, b, c, std::move(d));
  VF_CHECK(got == want && hits == 1 && b.v == b0 + 1 && d.v == -1 && a.v > 0, "forwarding", "returned %d instead of %d, called %d times", got, want, hits);
  // exceptions pass through; void and reference results
  auto thrower = [](int x) -> int { if (x > 0) throw std::runtime_error("x"); return x; };
  slp::function_ref<int(int)> tr{thrower};
  bool threw = false;
  try { tr(1); } catch (const std::runtime_error&) { threw = true; }
  VF_CHECK(threw && tr(-4) == -4, "exception", "lost in the call");
  int cell = 5;
  auto refret = [&]() -> int& { return cell; };
  slp::function_ref<int&()> rr{refret};
  rr() = 9;
  VF_CHECK(cell == 9 && &rr() == &cell, "reference result", "copied");
  auto vd = [&](int x) { cell = x; };
  slp::function_ref<void(int)> vr{vd};
  vr(12);
  VF_CHECK(cell == 12, "void result", "not called");
  R.nontrivial(h);
}
#endif

int main(int argc, char** argv) {
  R.init(argc, argv);
  const std::string& p = R.prop;
#if HAS(1)
  if (p == "C01") {
    R.cases("matrices", 12000, c01_case);
    R.cases("inertia", 2000, c01_inertia);
    R.cases("rates", 8, c01_rates);
  }
#endif
#if HAS(2)
  if (p == "C02") R.cases("errors", 60000, c02_case);
#endif
#if HAS(3)
  if (p == "C03") {
    R.cases("histories", 40000, c03_case);
    R.cases("entries", 20000, c03_entries);
  }
#endif
#if HAS(4)
  if (p == "C04") R.cases("steps", 400000, c04_case);
#endif
#if HAS(5)
  if (p == "C05") {
    R.cases("scaling", 40000, c05_scaling);
    R.cases("norms", 60000, c05_norms);
    R.cases("infeasibility", 60000, c05_infeasible);
  }
#endif
#if HAS(6)
  if (p == "C06") {
    R.cases("estimates", 30000, c06_estimate);
    R.cases("triplets", 40000, c06_triplets);
  }
#endif
#if HAS(7)
  if (p == "R03") {
    R.cases("pointers", 20000, r03_pointers);
    R.cases("guards", 20000, r03_guards);
    R.cases("references", 30000, r03_refs);
  }
#endif
  return R.finish(), 0;
}
