// HV-ORACLE: Cramer barycentric coordinates of the true intersection
// HV-BOUND: 6 fixed triangles against every line in 5 directions with origin in [-4,4]^3 and 4 of them against every line through a fixed point (slopes in [-2,2]); 3 ground shapes with arbitrary vertex heights in [-3,3] against every vertical line; thorough: free origin and direction, and all nine triangle coordinates free
// HV-OUTSIDE: all triangle and line coordinates free at once; crossings within 1e-6 (1e-4 for misses) of the border of the triangle
#include "hrm/geometry/LineIntersection.h"
#include "hv.hpp"
using namespace hrm;
static double trip(const Eigen::Vector3d& d, const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return d.dot(a.cross(b)); }
static void run(const Eigen::Vector3d t[3], const Eigen::Vector3d& o, const Eigen::Vector3d& d) {
    Line3D line(6);
    line.head(3) = o;
    line.tail(3) = d;
    const Eigen::Vector3d u = t[1] - t[0], v = t[2] - t[0];
    Point3D pt;
    bool hit = false;
    hv::guarded("line triangle intersection", [&] { hit = intersectLineTriangle3D(line, t[0], u, v, pt); });
    const Eigen::Vector3d n = u.cross(v);
    double s[3];
    hv::F pos(true), neg(true), posT(true), negT(true);
    for (int i = 0; i < 3; ++i) {
        s[i] = trip(d, t[i] - o, t[(i + 1) % 3] - o);
        pos = pos && hv::lt(double(1e-4), s[i]);
        neg = neg && hv::lt(s[i], double(-1e-4));
        posT = posT && hv::le(double(-1e-6), s[i]);
        negT = negT && hv::le(s[i], double(1e-6));
    }
    if (hit) {
        hv::check("a reported crossing is a crossing", posT || negT);
        const Eigen::Vector3d w = pt - o, c = w.cross(d);
        for (int i = 0; i < 3; ++i) hv::check("the crossing is on the line", hv::near(c(i), double(0), 1e-6));
        hv::check("the crossing is in the plane of the triangle", hv::near(n.dot(pt - t[0]), double(0), 1e-6));
        hv::reach("hit");
    } else {
        hv::check("no crossing is missed", !pos && !neg);
        hv::reach("miss");
    }
}
static const double T[6][9] = {{0, 0, 0, 2, 0, 0, 0, 2, 0},    {1, 0, 0, 0, 1, 0, 0, 0, 1}, {-1, -1, 0.5, 1, -1, 1.5, 0, 2, -1},
                               {0, 0, -1, 0, 0, 1, 0, 2, 0.5}, {2, -1, 0, -1, 2, 1, -1, -1, -2}, {0, 1, 1, 1.5, 1, -1, -2, 1, 0}};
static void tri(int k, Eigen::Vector3d t[3]) {
    for (int i = 0; i < 3; ++i) t[i] = Eigen::Vector3d(double(T[k][3 * i]), double(T[k][3 * i + 1]), double(T[k][3 * i + 2]));
}
static const double D[5][3] = {{0, 0, 1}, {1, 0, 0}, {0.5, -0.5, 1}, {-0.25, 1, 0.75}, {0.75, 0.5, -0.125}};
// every parallel line
HV_CASE_N(movedLine, 6) {
    Eigen::Vector3d t[3];
    tri(shard, t);
    const int j = hv::choice("direction", 5);
    run(t, Eigen::Vector3d(hv::real("ox", -4, 4), hv::real("oy", -4, 4), hv::real("oz", -4, 4)), Eigen::Vector3d(double(D[j][0]), double(D[j][1]), double(D[j][2])));
}
// every line through a point
HV_CASE_N(turnedLine, 4) {
    Eigen::Vector3d t[3];
    tri(shard, t);
    run(t, Eigen::Vector3d(double(0.5), double(0.25), double(-3)), Eigen::Vector3d(hv::real("dx", -2, 2), hv::real("dy", -2, 2), double(1)));
}
// every triangle over a given ground shape, and every position of the third vertex, against vertical lines
HV_CASE_N(verticalLine, 3) {
    Eigen::Vector3d t[3];
    tri(2 * shard, t);
    for (int i = 0; i < 3; ++i) t[i](2) = hv::real("z" + std::to_string(i), -3, 3);
    run(t, Eigen::Vector3d(hv::real("ox", -4, 4), hv::real("oy", -4, 4), double(0)), Eigen::Vector3d(double(0), double(0), double(1)));
}
HV_CASE_T(anyLine, 4) {
    Eigen::Vector3d t[3];
    tri(shard, t);
    run(t, Eigen::Vector3d(hv::real("ox", -4, 4), hv::real("oy", -4, 4), hv::real("oz", -4, 4)),
        Eigen::Vector3d(hv::real("dx", -1, 1), hv::real("dy", -1, 1), hv::real("dz", -1, 1)));
}
HV_CASE_T(anyTriangle, 1) {
    Eigen::Vector3d t[3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) t[i](j) = hv::real(std::string("t") + std::to_string(i) + "xyz"[j], -3, 3);
    double area = (t[1](0) - t[0](0)) * (t[2](1) - t[0](1)) - (t[1](1) - t[0](1)) * (t[2](0) - t[0](0));
    hv::assume(hv::lt(double(1e-2), area * area));
    run(t, Eigen::Vector3d(hv::real("ox", -4, 4), hv::real("oy", -4, 4), double(0)), Eigen::Vector3d(double(0), double(0), double(1)));
}
