// Decompositions of constant matrices: Eigen's own.
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
namespace hs {
void constEigen(int n, const double* A, double* re, double* im) {
    Eigen::EigenSolver<Eigen::MatrixXd> es(Eigen::Map<const Eigen::MatrixXd>(A, n, n), false);
    for (int i = 0; i < n; ++i) re[i] = es.eigenvalues()(i).real(), im[i] = es.eigenvalues()(i).imag();
}
}  // namespace hs
