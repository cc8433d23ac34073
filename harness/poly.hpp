#pragma once
#include "hrm/datastructure/DataType.h"
#include "hv.hpp"
#include <string>
#include <vector>
// exact geometry of a convex polygon given by its boundary points (one per column, either orientation)
template <class M>
inline hv::F insidePoly(const M& p, const double& x, const double& y, double margin = 0) {  // closed; margin > 0 shrinks, < 0 grows
    hv::F l(true), r(true);
    const int n = (int)p.cols();
    for (int i = 0; i < n; ++i) {
        int k = (i + 1) % n;
        double c = (p(0, k) - p(0, i)) * (y - p(1, i)) - (p(1, k) - p(1, i)) * (x - p(0, i));
        l = l && hv::le(double(margin), c);
        r = r && hv::le(c, -double(margin));
    }
    return l || r;
}
// boundary polygons repeat their first point (up to the library's rounded PI): drop the repeated one
template <class M>
inline Eigen::MatrixXd openPoly(const M& p) {
    return p.leftCols(p.cols() - 1);
}
// convex polygon with symbolic vertices, counter clockwise, strictly convex
inline Eigen::MatrixXd symConvex(const std::string& n, int k, double lo, double hi, bool closed = false) {
    Eigen::MatrixXd m(2, closed ? k + 1 : k);
    for (int i = 0; i < k; ++i) {
        m(0, i) = hv::real(n + "x" + std::to_string(i), lo, hi);
        m(1, i) = hv::real(n + "y" + std::to_string(i), lo, hi);
    }
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) {
            int i2 = (i + 1) % k;
            if (j == i || j == i2) continue;
            hv::assume(hv::lt(double(1e-3), (m(0, i2) - m(0, i)) * (m(1, j) - m(1, i)) - (m(1, i2) - m(1, i)) * (m(0, j) - m(0, i))));
        }
    if (closed) m.col(k) = m.col(0);
    return m;
}
