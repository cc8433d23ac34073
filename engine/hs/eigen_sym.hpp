// Eigen on hs::Sym: traits, and contract stubs of the iterative decompositions.
#pragma once
#include "hv.hpp"
#include "core.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>

namespace Eigen {
template <>
struct NumTraits<hs::Sym> : GenericNumTraits<hs::Sym> {
    typedef hs::Sym Real;
    typedef hs::Sym NonInteger;
    typedef hs::Sym Nested;
    typedef hs::Sym Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
    static inline Real epsilon() { return Real(2.220446049250313e-16); }
    static inline Real dummy_precision() { return Real(1e-12); }
    static inline Real highest() { return Real(1.7976931348623157e308); }
    static inline Real lowest() { return Real(-1.7976931348623157e308); }
    static inline Real infinity() { return Real(std::numeric_limits<double>::infinity()); }
    static inline Real quiet_NaN() { return Real(std::numeric_limits<double>::quiet_NaN()); }
    static inline int digits10() { return 15; }
    static inline int digits() { return 53; }
    static inline int max_digits10() { return 17; }
    static inline int min_exponent() { return -1021; }
    static inline int max_exponent() { return 1024; }
};
namespace internal {
template <>
inline hs::Sym cast<hs::Sym, hs::Sym>(const hs::Sym& x) { return x; }
}  // namespace internal
}  // namespace Eigen

// --- contract stubs of the iterative / pivoting decompositions ---------------------------------------------------
namespace hs {
bool allConst(const Sym* a, int n);
// symmetric positive semidefinite n x n (column major): A = U diag(S) U^T, U orthogonal, S descending
void svdContract(int n, const Sym* A, Sym* U, Sym* S);
bool quatContract(const Sym R[9], Sym q[4]);
// 2x2 linear system as ColPivHouseholderQR solves it (basic solution when rank deficient)
void solve2(const Sym* A, const Sym* b, Sym* x);
// eigenvalues of a real n x n matrix
void eigenContract(int n, const Sym* A, std::complex<Sym>* e);
}  // namespace hs

namespace Eigen {
template <int N, int O, int MR, int MC, int QR>
class JacobiSVD<Matrix<hs::Sym, N, N, O, MR, MC>, QR> {
  public:
    typedef Matrix<hs::Sym, N, N, O, MR, MC> MatrixType;
    typedef Matrix<hs::Sym, N, 1> VectorType;
    JacobiSVD() {}
    JacobiSVD(const MatrixType& m, unsigned = 0) { compute(m); }
    JacobiSVD& compute(const MatrixType& m, unsigned) { return compute(m); }
    JacobiSVD& compute(const MatrixType& m) {
        hs::Sym A[N * N], U[N * N], S[N];
        for (int j = 0; j < N; ++j)
            for (int i = 0; i < N; ++i) A[j * N + i] = m(i, j);
        hs::svdContract(N, A, U, S);
        for (int j = 0; j < N; ++j) {
            s_(j) = S[j];
            for (int i = 0; i < N; ++i) u_(i, j) = U[j * N + i];
        }
        return *this;
    }
    const MatrixType& matrixU() const { return u_; }
    const MatrixType& matrixV() const { return u_; }
    const VectorType& singularValues() const { return s_; }

  private:
    MatrixType u_;
    VectorType s_;
};

template <int O, int MR, int MC>
class ColPivHouseholderQR<Matrix<hs::Sym, 2, 2, O, MR, MC>> {
  public:
    typedef Matrix<hs::Sym, 2, 2, O, MR, MC> MatrixType;
    template <class D>
    explicit ColPivHouseholderQR(const EigenBase<D>& m) : m_(m.derived()) {}
    template <class D>
    Matrix<hs::Sym, 2, 1> solve(const MatrixBase<D>& b) const {
        hs::Sym A[4] = {m_(0, 0), m_(1, 0), m_(0, 1), m_(1, 1)}, B[2] = {b(0), b(1)}, X[2];
        hs::solve2(A, B, X);
        return Matrix<hs::Sym, 2, 1>(X[0], X[1]);
    }

  private:
    MatrixType m_;
};

template <int R, int C, int O, int MR, int MC>
class EigenSolver<Matrix<hs::Sym, R, C, O, MR, MC>> {
  public:
    typedef Matrix<hs::Sym, R, C, O, MR, MC> MatrixType;
    typedef Matrix<std::complex<hs::Sym>, Dynamic, 1> EigenvalueType;
    EigenSolver(const MatrixType& m, bool = true) : e_(m.rows()) {
        const int n = (int)m.rows();
        std::vector<hs::Sym> A(n * n);
        std::vector<std::complex<hs::Sym>> e(n);
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i) A[j * n + i] = m(i, j);
        hs::eigenContract(n, A.data(), e.data());
        for (int i = 0; i < n; ++i) e_(i) = e[i];
    }
    const EigenvalueType& eigenvalues() const { return e_; }

  private:
    EigenvalueType e_;
};

namespace internal {
template <int O, int MR, int MC>
struct quaternionbase_assign_impl<Matrix<hs::Sym, 3, 3, O, MR, MC>, 3, 3> {
    template <class Derived>
    static void run(QuaternionBase<Derived>& q, const Matrix<hs::Sym, 3, 3, O, MR, MC>& m) {
        hs::Sym R[9], v[4];
        for (int j = 0; j < 3; ++j)
            for (int i = 0; i < 3; ++i) R[j * 3 + i] = m(i, j);
        if (hs::quatContract(R, v)) {
            q.w() = v[0], q.x() = v[1], q.y() = v[2], q.z() = v[3];
            return;
        }
        // Eigen's own conversion, through an expression type
        quaternionbase_assign_impl<Block<const Matrix<hs::Sym, 3, 3, O, MR, MC>, 3, 3>, 3, 3>::run(q, m.template block<3, 3>(0, 0));
    }
};
}  // namespace internal

template <>
inline Quaternion<hs::Sym, 0> Quaternion<hs::Sym, 0>::UnitRandom() {
    hs::Sym q[4];
    hv::unitQuat("rnd:quat", q);
    return Quaternion<hs::Sym, 0>(q[0], q[1], q[2], q[3]);
}
}  // namespace Eigen
