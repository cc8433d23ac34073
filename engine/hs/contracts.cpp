// Contracts of Eigen's iterative decompositions (the decompositions themselves are outside the encoding).
#include "hv.hpp"
#include "core.hpp"
#include <complex>

namespace hs {
// Eigen itself, on constants; linked when the encoded code mentions the decomposition
__attribute__((weak)) void constSvd(int n, const double* A, double* U, double* S);
__attribute__((weak)) void constEigen(int n, const double* A, double* re, double* im);
bool allConst(const Sym* a, int n) {
    for (int i = 0; i < n; ++i)
        if (!isConstant(a[i])) return false;
    return true;
}
void svdContract(int n, const Sym* A, Sym* U, Sym* S) {
    bool diag = true;
    if (allConst(A, n * n)) {
        std::vector<double> m(n * n), u(n * n), sv(n);
        for (int i = 0; i < n * n; ++i) m[i] = simp(A[i]).toConst();
        if (!constSvd) throw Unsupported("constant svd");
        constSvd(n, m.data(), u.data(), sv.data());
        for (int i = 0; i < n * n; ++i) U[i] = Sym(u[i]);
        for (int i = 0; i < n; ++i) S[i] = Sym(sv[i]);
        return;
    }
    for (int j = 0; j < n && diag; ++j)
        for (int i = 0; i < n && diag; ++i)
            if (i != j && !sameValue(A[j * n + i], Sym(0.0))) diag = false;
    if (diag) {
        // one rotation-free sweep: U is the identity up to the sign of the diagonal and the descending sort
        std::vector<int> p(n);
        for (int i = 0; i < n; ++i) p[i] = i;
        for (int i = 0; i < n; ++i) {  // selection sort, as Eigen does
            int best = i;
            for (int j = i + 1; j < n; ++j)
                if (A[p[j] * n + p[j]] > A[p[best] * n + p[best]]) best = j;
            std::swap(p[i], p[best]);
        }
        for (int j = 0; j < n; ++j) {
            S[j] = A[p[j] * n + p[j]];
            for (int i = 0; i < n; ++i) U[j * n + i] = Sym(i == p[j] ? 1.0 : 0.0);
        }
        return;
    }
    bool symmetric = true;
    for (int j = 0; j < n; ++j)
        for (int i = 0; i < j; ++i) symmetric = symmetric && sameValue(A[j * n + i], A[i * n + j]);
    if (!symmetric && n == 2) {  // left singular vectors and squared singular values: A A^T
        const Sym B[4] = {A[0] * A[0] + A[2] * A[2], A[0] * A[1] + A[2] * A[3], A[0] * A[1] + A[2] * A[3], A[1] * A[1] + A[3] * A[3]};
        Sym q[2];
        svdContract(2, B, U, q);
        S[0] = sqrt(q[0]), S[1] = sqrt(q[1]);
        return;
    }
    if (!symmetric) throw Unsupported("svd of a non-symmetric matrix");
    // symmetric (positive semidefinite) with one coupled pair of coordinates
    for (int z = 0; z < n; ++z) {
        if (n == 3 && !(sameValue(A[z * 3 + (z + 1) % 3], Sym(0.0)) && sameValue(A[z * 3 + (z + 2) % 3], Sym(0.0)))) continue;
        const int i = n == 2 ? 0 : (z + 1) % 3, j = n == 2 ? 1 : (z + 2) % 3;
        Sym c, s, l[3], V[3][3];
        if (!eigenPair(A[i * n + i], A[j * n + i], A[j * n + j], c, s, l[0], l[1])) break;
        const Sym det(envChoice(2) ? -1.0 : 1.0);
        for (int k = 0; k < n; ++k) V[0][k] = V[1][k] = V[2][k] = Sym(0.0);
        V[0][i] = c, V[0][j] = s, V[1][i] = -det * s, V[1][j] = det * c;
        int p[3] = {0, 1, 2};
        if (n == 3) {
            V[2][z] = Sym(1.0), l[2] = A[z * 3 + z];
            if (l[2] > l[0]) p[0] = 2, p[1] = 0, p[2] = 1;
            else if (l[2] > l[1]) p[1] = 2, p[2] = 1;
        }
        for (int k = 0; k < n; ++k) {
            S[k] = l[p[k]];
            for (int r = 0; r < n; ++r) U[k * n + r] = V[p[k]][r];
        }
        contractLe(Sym(0.0), l[1]);
        return;
    }
    if (n == 2) {
        Sym c = envReal("svd.c"), s = envReal("svd.s");
        envUnitPair(c, s);
        double det = envChoice(2) ? -1.0 : 1.0;
        U[0] = c, U[1] = s;
        U[2] = Sym(-det) * s, U[3] = Sym(det) * c;
    } else {
        for (int i = 0; i < n * n; ++i) U[i] = envReal("svd.u");
        for (int j = 0; j < n; ++j)
            for (int k = j; k < n; ++k) {
                Sym d(0.0), r(0.0);
                for (int i = 0; i < n; ++i) d += U[j * n + i] * U[k * n + i], r += U[i * n + j] * U[i * n + k];
                contractEq(d, Sym(j == k ? 1.0 : 0.0));
                contractEq(r, Sym(j == k ? 1.0 : 0.0));
            }
    }
    for (int i = 0; i < n; ++i) S[i] = envReal("svd.s");
    for (int i = 0; i + 1 < n; ++i) contractLe(S[i + 1], S[i]);
    contractLe(Sym(0.0), S[n - 1]);
    for (int j = 0; j < n; ++j)
        for (int i = 0; i <= j; ++i) {
            Sym v(0.0);
            for (int k = 0; k < n; ++k) v += S[k] * U[k * n + i] * U[k * n + j];
            contractEq(v, A[j * n + i]);
        }
}
void solve2(const Sym* A, const Sym* b, Sym* x) {
    Sym det = A[0] * A[3] - A[2] * A[1];
    if (det != Sym(0.0)) {
        x[0] = (b[0] * A[3] - A[2] * b[1]) / det;
        x[1] = (A[0] * b[1] - b[0] * A[1]) / det;
        return;
    }
    x[0] = x[1] = Sym(0.0);
    Sym n0 = A[0] * A[0] + A[1] * A[1], n1 = A[2] * A[2] + A[3] * A[3];
    if (n0 == Sym(0.0) && n1 == Sym(0.0)) return;
    int p = n1 > n0 ? 1 : 0;
    const Sym* col = A + 2 * p;
    x[p] = (col[0] * b[0] + col[1] * b[1]) / (p ? n1 : n0);
}
std::vector<Sym>& eigenHints() {
    static std::vector<Sym> h;
    return h;
}
void eigenContract(int n, const Sym* A, std::complex<Sym>* e) {
    if (allConst(A, n * n)) {
        std::vector<double> m(n * n), re(n), im(n);
        for (int i = 0; i < n * n; ++i) m[i] = simp(A[i]).toConst();
        if (!constEigen) throw Unsupported("constant eigenvalues");
        constEigen(n, m.data(), re.data(), im.data());
        for (int i = 0; i < n; ++i) e[i] = std::complex<Sym>(Sym(re[i]), Sym(im[i]));
        return;
    }
    // characteristic polynomial by Faddeev-LeVerrier
    std::vector<Sym> M(n * n, Sym(0.0)), c(n + 1, Sym(0.0));
    c[n] = Sym(1.0);
    for (int k = 1; k <= n; ++k) {
        std::vector<Sym> T(n * n, Sym(0.0));
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < n; ++i) {
                Sym v(0.0);
                for (int l = 0; l < n; ++l) v += A[l * n + i] * M[j * n + l];
                if (i == j) v += c[n - k + 1];
                T[j * n + i] = v;
            }
        M = T;
        Sym tr(0.0);
        for (int i = 0; i < n; ++i)
            for (int l = 0; l < n; ++l) tr += A[l * n + i] * M[i * n + l];
        c[n - k] = simp(tr / Sym(-double(k)));
    }
    // known roots (hints are verified), then closed forms up to degree two
    for (auto& h : eigenHints()) {
        if (n < 1) break;
        std::vector<Sym> q(n, Sym(0.0));
        Sym r = c[n];
        for (int k = n - 1; k >= 0; --k) q[k] = r, r = simp(r * h + c[k]);
        if (!sameValue(r, Sym(0.0))) continue;
        *e++ = std::complex<Sym>(h, Sym(0.0));
        c = q, --n;
    }
    if (n == 0) return;
    if (n == 1) {
        e[0] = std::complex<Sym>(-c[0], Sym(0.0));
        return;
    }
    if (n == 2) {
        const Sym D = simp(c[1] * c[1] - Sym(4.0) * c[0]), half(0.5);
        if (D < Sym(0.0)) {
            const Sym r = sqrt(-D);
            e[0] = std::complex<Sym>(-half * c[1], half * r), e[1] = std::complex<Sym>(-half * c[1], -half * r);
        } else {
            const Sym r = sqrt(D);
            e[0] = std::complex<Sym>(half * (r - c[1]), Sym(0.0)), e[1] = std::complex<Sym>(-half * (r + c[1]), Sym(0.0));
        }
        return;
    }
    int pairs = envChoice(n / 2 + 1);
    std::vector<Sym> p{Sym(1.0)};  // product of (l - e_i), highest degree first
    auto mul = [&](const std::vector<Sym>& q) {
        std::vector<Sym> r(p.size() + q.size() - 1, Sym(0.0));
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t j = 0; j < q.size(); ++j) r[i + j] += p[i] * q[j];
        p = r;
    };
    int i = 0;
    for (int k = 0; k < pairs; ++k) {
        Sym re = envReal("eig.re"), im = envReal("eig.im");
        contractLe(Sym(1e-9), im);
        e[i++] = std::complex<Sym>(re, im);
        e[i++] = std::complex<Sym>(re, -im);
        mul({Sym(1.0), Sym(-2.0) * re, re * re + im * im});
    }
    Sym prev;
    bool first = true;
    while (i < n) {
        Sym re = envReal("eig.re");
        if (!first) contractLe(re, prev);  // any order of the real eigenvalues: one representative
        prev = re;
        first = false;
        e[i++] = std::complex<Sym>(re, Sym(0.0));
        mul({Sym(1.0), -re});
    }
    for (int k = 0; k < n; ++k) contractEq(p[n - k], c[k]);
}
}  // namespace hs
