#pragma once
#include "poly.hpp"
using namespace hrm;
typedef std::vector<double> V;
// planar C-obstacles given by the harness, and the clearance of a segment by separating axes
inline double cross(const double& ax, const double& ay, const double& bx, const double& by) { return ax * by - ay * bx; }
// the segment (a, b) clearly misses the convex polygon: some side of the polygon, or the segment's own line, separates them
inline hv::F misses(const Eigen::MatrixXd& p, const V& a, const V& b, const double& margin) {
    std::vector<hv::F> some;
    const int n = int(p.cols());
    // orientation of the polygon (fixed shape)
    const hv::K area(cross(p(0, 1) - p(0, 0), p(1, 1) - p(1, 0), p(0, 2) - p(0, 0), p(1, 2) - p(1, 0)));
    const double o = area > 0 ? 1.0 : -1.0;
    for (int i = 0; i < n; ++i) {
        const int k = (i + 1) % n;
        const double ex = p(0, k) - p(0, i), ey = p(1, k) - p(1, i);
        some.push_back(hv::le(o * cross(ex, ey, a[0] - p(0, i), a[1] - p(1, i)), -margin) && hv::le(o * cross(ex, ey, b[0] - p(0, i), b[1] - p(1, i)), -margin));
    }
    std::vector<hv::F> l, r;
    for (int i = 0; i < n; ++i) {
        const double c = cross(b[0] - a[0], b[1] - a[1], p(0, i) - a[0], p(1, i) - a[1]);
        l.push_back(hv::le(margin, c)), r.push_back(hv::le(c, -margin));
    }
    some.push_back(hv::all(l)), some.push_back(hv::all(r));
    return hv::any(some);
}
inline BoundaryPoints closed(std::initializer_list<std::pair<double, double>> v) {
    BoundaryPoints p(2, v.size() + 1);
    int i = 0;
    for (auto& x : v) p(0, i) = x.first, p(1, i) = x.second, ++i;
    p(0, i) = v.begin()->first, p(1, i) = v.begin()->second;
    return p;
}
// the kite with half widths w, hu (up) and hd (down)
inline BoundaryPoints kite(const double& x, const double& y, double w, double hu, double hd) {
    return closed({{x + w, y}, {x, y + hu}, {x - w, y}, {x, y - hd}});
}
