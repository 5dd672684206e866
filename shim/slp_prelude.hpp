// Force-included ahead of every translation unit that compiles Sleipnir's
// headers here: supplies what the installed Eigen 3.4.0 lacks compared with the
// Eigen master commit that Sleipnir pins.
#pragma once

#include <cstdio>
#include <cstdlib>
#include <type_traits>

inline void (*slp_verif_eigen_contract_hook)(const char*) = nullptr;
[[gnu::noinline]] inline void slp_verif_eigen_contract(const char* what) {
  if (slp_verif_eigen_contract_hook) {
    slp_verif_eigen_contract_hook(what);
  } else {
    std::fprintf(stderr, "EIGEN-CONTRACT: %s\n", what);
    std::abort();
  }
}

#define EIGEN_DENSEBASE_PLUGIN "eigen_densebase_plugin.h"
#define EIGEN_MATRIXBASE_PLUGIN "eigen_matrixbase_plugin.h"
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparsematrix_plugin.h"

#include <Eigen/Core>

namespace Eigen {
// Product of two diagonal expressions (absent from 3.4.0)
template <typename A, typename B>
auto operator*(const DiagonalBase<A>& a, const DiagonalBase<B>& b) {
  return DiagonalMatrix<typename A::Scalar, A::DiagonalVectorType::RowsAtCompileTime>{
      a.diagonal().cwiseProduct(b.diagonal()).eval()};
}
}  // namespace Eigen

// Eigen 3.4.0 writes `x != Scalar(0)` where master writes
// `!numext::is_exactly_zero(x)`, i.e. `!bool(x == 0)`.
namespace slp {
template <typename Scalar>
class Variable;
template <typename T>
inline constexpr bool verif_is_variable = false;
template <typename Scalar>
inline constexpr bool verif_is_variable<Variable<Scalar>> = true;
template <typename L, typename R>
  requires verif_is_variable<std::remove_cvref_t<L>> &&
           verif_is_variable<std::remove_cvref_t<R>>
bool operator!=(L&& a, R&& b) {
  return !static_cast<bool>(a == b);
}
}  // namespace slp
