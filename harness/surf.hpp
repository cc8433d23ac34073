#pragma once
#include "hrm/datastructure/DataType.h"
#include "hv.hpp"
#include <array>
#include <cmath>
#include <vector>
// The surface spanned by an n x n grid of boundary points: the crossings of a vertical line, from the definition.
struct GridSurface {
    const Eigen::MatrixXd& p;
    int n;
    std::vector<std::array<int, 3>> tri;
    GridSurface(const Eigen::MatrixXd& m, int num) : p(m), n(num) {
        for (int a = 0; a + 1 < n; ++a)
            for (int b = 0; b + 1 < n; ++b) {
                tri.push_back({{a * n + b, (a + 1) * n + b, (a + 1) * n + b + 1}});
                tri.push_back({{a * n + b, a * n + b + 1, (a + 1) * n + b + 1}});
            }
    }
    double orient(int i, int j, const double& x, const double& y) const {
        return (p(0, j) - p(0, i)) * (y - p(1, i)) - (p(1, j) - p(1, i)) * (x - p(0, i));
    }
    // is (x, y) in the shadow of triangle t (margin > 0: clearly)
    hv::F under(int t, const double& x, const double& y, double margin) const {
        const auto& f = tri[t];
        double a = orient(f[0], f[1], x, y), b = orient(f[1], f[2], x, y), c = orient(f[2], f[0], x, y);
        hv::F pos = hv::le(margin, a) && hv::le(margin, b) && hv::le(margin, c);
        hv::F neg = hv::le(a, -margin) && hv::le(b, -margin) && hv::le(c, -margin);
        return pos || neg;
    }
    double area(int t) const { return orient(tri[t][0], tri[t][1], p(0, tri[t][2]), p(1, tri[t][2])); }
    // height of triangle t over (x, y); ok only when it is not upright
    double height(int t, const double& x, const double& y) const {
        const auto& f = tri[t];
        double A = area(t), b = orient(f[0], f[1], x, y), c = orient(f[2], f[0], x, y);
        return p(2, f[0]) + (b * (p(2, f[2]) - p(2, f[0])) + c * (p(2, f[1]) - p(2, f[0]))) / A;
    }
    bool upright(int t) const {
        hv::K k(area(t));
        return k > -1e-4 && k < 1e-4;
    }
};
