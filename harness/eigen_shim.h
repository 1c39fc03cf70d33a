// Class-body plugin for Eigen::SparseMatrix (via -DEIGEN_SPARSEMATRIX_PLUGIN).
// The packaged Eigen 3.4.0 lacks setFromSortedTriplets(), which newer Eigen has: same contract, without
// needing sorted input, so that every source file of lib_moment can be compiled and checked here.
template<class InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
    this->setFromTriplets(begin, end);
}
