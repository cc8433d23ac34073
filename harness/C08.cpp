// HV-BUDGET: 70
// HV-ORACLE: exists a parameter t whose point is strictly inside all half planes (interior crossing) resp. one half plane has the whole segment outside
// HV-BOUND: 4 fixed polygons (3-8 points) against every segment in 5 directions (position in [-5,5]^2, length up to 8) and every segment from 3 points; triangles with a free vertex against 3 segments; thorough: free segments, free triangles
// HV-OUTSIDE: segments that end inside the polygon (the callers' end points are collision free)
#include "hrm/geometry/LineIntersection.h"
#include "poly.hpp"
using namespace hrm;
static double side(const double& ax, const double& ay, const double& bx, const double& by, const double& x, const double& y) {
    return (bx - ax) * (y - ay) - (by - ay) * (x - ax);
}
static void run(const Eigen::MatrixXd& p, const Eigen::MatrixXd& shape, const double& x1, const double& y1, const double& x2, const double& y2) {
    bool hit = false;
    hv::guarded("segment polygon", [&] { hit = isIntersectSegPolygon2D({{x1, y1}, {x2, y2}}, shape); });
    const int n = (int)p.cols();
    if (!hit) {
        // no interior point of the polygon on the segment if both ends are outside
        double s = hv::real("s", 0, 1), x = x1 + s * (x2 - x1), y = y1 + s * (y2 - y1);
        hv::check("a crossing segment is reported",
                  hv::implies(!insidePoly(p, x1, y1, -1e-6) && !insidePoly(p, x2, y2, -1e-6), !insidePoly(p, x, y, 1e-4)));
        hv::reach("free");
    } else {
        // separating line: all polygon points strictly on one side of the segment's line
        hv::F l(true), r(true);
        for (int i = 0; i < n; ++i) {
            double c = side(x1, y1, x2, y2, p(0, i), p(1, i));
            l = l && hv::lt(double(1e-6), c);
            r = r && hv::lt(c, double(-1e-6));
        }
        hv::check("a reported segment is not beside the polygon", !l && !r);
        // or the segment strictly on the outer side of one polygon edge
        hv::F out(false);
        for (int i = 0; i < n; ++i) {
            int k = (i + 1) % n;
            double a = side(p(0, i), p(1, i), p(0, k), p(1, k), x1, y1), b = side(p(0, i), p(1, i), p(0, k), p(1, k), x2, y2);
            out = out || (hv::lt(a, double(-1e-6)) && hv::lt(b, double(-1e-6)));
        }
        hv::check("a reported segment reaches the polygon", !out);
        hv::reach("crossing");
    }
}
static void polygon(int k, Eigen::MatrixXd& p, Eigen::MatrixXd& s) {
    static const double P[4][8][2] = {{{-2, -1}, {1, -2}, {3, 0}, {1, 2}, {-2, 1}},
                                      {{-1, -2}, {1, -2}, {2, 0}, {1, 2}, {-1, 2}, {-2, 0}},
                                      {{0, -2}, {1.5, -1.5}, {2, 0}, {1.5, 1.5}, {0, 2}, {-1.5, 1.5}, {-2, 0}, {-1.5, -1.5}},
                                      {{-2, -1}, {3, -2}, {1, 2}}};
    static const int n[4] = {5, 6, 8, 3};
    p.resize(2, n[k]), s.resize(2, n[k] + 1);
    for (int i = 0; i < n[k]; ++i) p(0, i) = double(P[k][i][0]), p(1, i) = double(P[k][i][1]);
    s.leftCols(n[k]) = p;
    s.col(n[k]) = p.col(0);
}
// every parallel segment of every length
static const double D[5][2] = {{1, 0}, {0, 1}, {1, 0.5}, {-0.75, 1}, {1, -1}};
HV_CASE_N(moved, 4) {
    Eigen::MatrixXd p, s;
    polygon(shard, p, s);
    const int j = hv::choice("direction", 5);
    double x = hv::real("x1", -5, 5), y = hv::real("y1", -5, 5), l = hv::real("length", -8, 8);
    run(p, shard % 2 ? s : p, x, y, x + double(D[j][0]) * l, y + double(D[j][1]) * l);
}
// every segment from a point
HV_CASE_N(fan, 4) {
    static const double O[3][2] = {{-4, 0.25}, {0.5, 3}, {2, -3}};
    Eigen::MatrixXd p, s;
    polygon(shard, p, s);
    const int j = hv::choice("from", 3);
    run(p, shard % 2 ? p : s, double(O[j][0]), double(O[j][1]), hv::real("x2", -5, 5), hv::real("y2", -5, 5));
}
// every position of one vertex
HV_CASE(vertex) {
    Eigen::MatrixXd p(2, 3);
    p(0, 0) = double(-2), p(1, 0) = double(-1), p(0, 1) = double(3), p(1, 1) = double(-2);
    p(0, 2) = hv::real("vx", -3, 3), p(1, 2) = hv::real("vy", 1, 3);
    const int j = hv::choice("segment", 3);
    static const double S[3][4] = {{-4, 0, 4, 0.5}, {-1, 3.5, 1, -3}, {-4, 4, 4, -0.25}};
    run(p, p, double(S[j][0]), double(S[j][1]), double(S[j][2]), double(S[j][3]));
}
HV_CASE_T(anySegment, 4) {
    Eigen::MatrixXd p, s;
    polygon(shard, p, s);
    double x1 = hv::real("x1", -5, 5), y1 = hv::real("y1", -5, 5), x2 = hv::real("x2", -5, 5), y2 = hv::real("y2", -5, 5);
    run(p, p, x1, y1, x2, y2);
}
HV_CASE_T(anyTriangle, 1) {
    Eigen::MatrixXd p = symConvex("", 3, -4, 4);
    double x1 = hv::real("x1", -5, 5), y1 = hv::real("y1", -5, 5), x2 = hv::real("x2", -5, 5), y2 = hv::real("y2", -5, 5);
    run(p, p, x1, y1, x2, y2);
}
