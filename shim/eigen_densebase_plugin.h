// Multi-argument subscript, as in Eigen master.
EIGEN_STRONG_INLINE decltype(auto) operator[](Index row, Index col) const {
  return (*this)(row, col);
}
EIGEN_STRONG_INLINE decltype(auto) operator[](Index row, Index col) {
  return (*this)(row, col);
}
