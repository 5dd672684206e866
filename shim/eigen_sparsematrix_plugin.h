// Eigen master's setFromSortedTriplets() requires its input to be sorted in
// storage order; the requirement is monitored here (a violation is a contract
// break by the caller that Eigen master turns into a malformed matrix).
template <typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin,
                           const InputIterators& end) {
  bool first = true;
  Index outer = 0, inner = 0;
  for (auto it = begin; it != end; ++it) {
    const Index o = IsRowMajor ? it->row() : it->col();
    const Index i = IsRowMajor ? it->col() : it->row();
    if (it->row() < 0 || it->row() >= this->rows() || it->col() < 0 ||
        it->col() >= this->cols()) {
      ::slp_verif_eigen_contract("triplet outside the matrix");
    }
    if (!first && (o < outer || (o == outer && i < inner))) {
      ::slp_verif_eigen_contract("triplets not sorted");
    }
    first = false;
    outer = o;
    inner = i;
  }
  setFromTriplets(begin, end);
}
