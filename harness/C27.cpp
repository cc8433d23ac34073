// HV-ORACLE: the monic product over the roots has exactly the polynomial's coefficients (coefficient comparison)
// HV-BOUND: polynomials of degree 1 to 3 with any coefficients, degree 4 with any roots
// HV-ASSUME: the eigenvalues of a matrix are the roots of its characteristic polynomial with multiplicity (contract of Eigen's solver)
// HV-OUTSIDE: higher degrees
#include "hrm/util/EllipsoidSeparation.h"
#include "hv.hpp"
using namespace hrm;
typedef std::complex<double> C;
// the product of (x - root) has the coefficients c / c[0]
static void product(const std::vector<double>& c, const std::vector<C>& r) {
    std::vector<double> re = {double(1)}, im = {double(0)};
    for (auto& z : r) {
        std::vector<double> a(re.size() + 1, double(0)), b(re.size() + 1, double(0));
        for (size_t i = 0; i < re.size(); ++i) {
            a[i] = a[i] + re[i], b[i] = b[i] + im[i];
            a[i + 1] = a[i + 1] - re[i] * z.real() + im[i] * z.imag();
            b[i + 1] = b[i + 1] - re[i] * z.imag() - im[i] * z.real();
        }
        re = a, im = b;
    }
    for (size_t i = 0; i < c.size() && i < re.size(); ++i) {
        hv::check("roots are those of the polynomial", hv::near(re[i] * c[0], c[i], 1e-4));
        hv::check("roots are those of the polynomial", hv::near(im[i] * c[0], double(0), 1e-4));
    }
}
HV_CASE_N(roots, 3) {
    const int n = shard + 1;
    std::vector<double> c = {hv::real("c0", 0.25, 4)};
    if (hv::coin("negative")) c[0] = -c[0];
    for (int k = 1; k <= n; ++k) c.push_back(hv::real("c" + std::to_string(k), -4, 4));
    std::vector<C> r;
    hv::guarded("roots", [&] { r = getRootsPolynomial(c); });
    hv::check("one root per degree", int(r.size()) == n);
    product(c, r);
    hv::reach("done");
}
HV_CASE(quartic) {
    std::vector<double> c = {double(1)};
    for (int k = 1; k <= 4; ++k) c.push_back(hv::real("c" + std::to_string(k), -4, 4));
    std::vector<C> r;
    hv::guarded("roots", [&] { r = getRootsPolynomial(c); });
    hv::check("one root per degree", r.size() == 4);
    product(c, r);
    hv::reach("done");
}
