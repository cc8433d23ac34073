// Decompositions of constant matrices: Eigen's own.
#include <Eigen/Core>
#include <Eigen/SVD>
#include <stdexcept>
namespace hs {
template <int N>
static void svd(const double* A, double* U, double* S) {
    Eigen::JacobiSVD<Eigen::Matrix<double, N, N>> d(Eigen::Map<const Eigen::Matrix<double, N, N>>(A),
                                                    Eigen::ComputeFullU | Eigen::ComputeFullV);
    Eigen::Map<Eigen::Matrix<double, N, N>>(U, N, N) = d.matrixU();
    Eigen::Map<Eigen::Matrix<double, N, 1>>(S, N) = d.singularValues();
}
void constSvd(int n, const double* A, double* U, double* S) {
    if (n == 2) svd<2>(A, U, S);
    else if (n == 3) svd<3>(A, U, S);
    else throw std::runtime_error("svd size");
}
}  // namespace hs
