// Members of Eigen master that 3.4.0 lacks.
auto cwiseGreater(const Scalar& s) const { return this->array() > s; }
auto cwiseSquare() const {
  return CwiseUnaryOp<internal::scalar_square_op<Scalar>, const Derived>(
      derived());
}
