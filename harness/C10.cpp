// HV-ORACLE: the contact conditions: the difference to A's boundary point lies on B's implicit surface, and B's gradient there is parallel and equally directed with A's (cross product zero, dot product positive)
// HV-BOUND: 2D: boundaries of 6 points (superellipse exponents 1, 0.5, 1.5), both signs: (i) arbitrary orientations and positions for 3 pairs of shapes, (ii) arbitrary semi-axes for 3 pairs of orientations; 3D: 4x4 points, exponents (1,1), (0.75,1.25): (i) arbitrary orientation of the first (second) body, position arbitrary, (ii) arbitrary semi-axes
// HV-OUTSIDE: all parameters free together, other exponents, points where the surface normal is undefined
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
#include "hv.hpp"
using namespace hrm;
static double sgnPow(const double& v, const double& p) {
    double r = pow(fabs(v), p);
    return v < 0 ? -r : r;
}
// offset of point i must be the support point of B in the direction of A's normal there: on B's boundary, with B's
// normal parallel to A's and pointing the same way
static void plane(int k, int sign, const double ax[2], const double& th1, const double bx[2], const double& th2, int num) {
    static const double E[3] = {1, 0.5, 1.5};
    const double e = double(E[k]);
    double x = hv::real("x", -10, 10), y = hv::real("y", -10, 10);
    SuperEllipse A({ax[0], ax[1]}, e, {x, y}, th1, num), B({bx[0], bx[1]}, 1, {double(3), double(-2)}, th2, num);
    BoundaryPoints o, m;
    hv::guarded("Minkowski boundary", [&] {
        o = A.getOriginShape();
        m = A.getMinkSum2D(B, sign);
    });
    if (m.cols() != num || m.rows() != 2) {
        hv::fail("one point per sample");
        return;
    }
    const double c1 = cos(th1), s1 = sin(th1), c2 = cos(th2), s2 = sin(th2);
    for (int i = 0; i < num; ++i) {
        double t = double(2 * i * 3.1415926 / (num - 1));
        double d[2] = {m(0, i) - o(0, i), m(1, i) - o(1, i)};
        if (sign < 0) d[0] = -d[0], d[1] = -d[1];
        // normal of A at the sample, in the world frame
        double nl[2] = {sgnPow(cos(t), 2 - e) / ax[0], sgnPow(sin(t), 2 - e) / ax[1]};
        double n[2] = {c1 * nl[0] - s1 * nl[1], s1 * nl[0] + c1 * nl[1]};
        // in B's frame
        double dl[2] = {c2 * d[0] + s2 * d[1], c2 * d[1] - s2 * d[0]};
        double nb[2] = {c2 * n[0] + s2 * n[1], c2 * n[1] - s2 * n[0]};
        double g[2] = {dl[0] / (bx[0] * bx[0]), dl[1] / (bx[1] * bx[1])};  // normal of B there
        hv::check("offset lies on the second body", hv::near(dl[0] * g[0] + dl[1] * g[1], double(1), 1e-6));
        const double dot = g[0] * nb[0] + g[1] * nb[1], cross = g[0] * nb[1] - g[1] * nb[0], tol = double(1e-7);
        hv::check("normals point the same way", hv::lt(double(0), dot));
        hv::check("normals are parallel", hv::le(cross, tol * dot) && hv::le(-tol * dot, cross));
    }
    hv::reach("done");
}
// powers of two keep the constants exact
static const double SH[3][4] = {{2, 1, 0.5, 0.25}, {0.5, 2, 1, 0.5}, {4, 2, 0.25, 1}};
HV_CASE_N(orientations2D, 3) {
    const int s = hv::choice("sign", 2) * 2 - 1;
    const double ax[2] = {double(SH[shard][0]), double(SH[shard][1])}, bx[2] = {double(SH[shard][2]), double(SH[shard][3])};
    double t1 = hv::angle("angleA"), t2 = hv::angle("angleB");
    plane(shard, s, ax, t1, bx, t2, 6);
}
HV_CASE_N(shapes2D, 3) {
    const int s = hv::choice("sign", 2) * 2 - 1;
    const double ax[2] = {hv::real("a1", 0.2, 5), hv::real("b1", 0.2, 5)}, bx[2] = {hv::real("a2", 0.2, 5), hv::real("b2", 0.2, 5)};
    plane(shard, s, ax, shard == 1 ? hv::angle("angleA") : double(0), bx, shard == 2 ? hv::angle("angleB") : double(0), 6);
}
static const double SQ[2][6] = {{2, 1, 4, 0.5, 0.25, 1}, {0.5, 2, 1, 1, 0.5, 0.25}};
static void rot(const double q[4], double R[3][3]) {
    const double &w = q[0], &i = q[1], &j = q[2], &l = q[3];
    R[0][0] = 1.0 - 2.0 * (j * j + l * l), R[0][1] = 2.0 * (i * j - l * w), R[0][2] = 2.0 * (i * l + j * w);
    R[1][0] = 2.0 * (i * j + l * w), R[1][1] = 1.0 - 2.0 * (i * i + l * l), R[1][2] = 2.0 * (j * l - i * w);
    R[2][0] = 2.0 * (i * l - j * w), R[2][1] = 2.0 * (j * l + i * w), R[2][2] = 1.0 - 2.0 * (i * i + j * j);
}
static void space(int k, int sign, const double ax[3], const double q1[4], const double bx[3], const double q2[4], int num) {
    static const double E[2][2] = {{1, 1}, {0.75, 1.25}};
    const double e1 = double(E[k][0]), e2 = double(E[k][1]);
    double p[3] = {hv::real("x", -10, 10), hv::real("y", -10, 10), hv::real("z", -10, 10)};
    SuperQuadrics A({ax[0], ax[1], ax[2]}, {e1, e2}, {p[0], p[1], p[2]}, Eigen::Quaterniond(q1[0], q1[1], q1[2], q1[3]), num),
        B({bx[0], bx[1], bx[2]}, {1, 1}, {double(3), double(-2), double(1)}, Eigen::Quaterniond(q2[0], q2[1], q2[2], q2[3]), num);
    BoundaryPoints o, m;
    hv::guarded("Minkowski boundary", [&] {
        o = A.getOriginShape();
        m = A.getMinkSum3D(B, sign);
    });
    if (m.cols() != num * num || m.rows() != 3) {
        hv::fail("one point per sample");
        return;
    }
    double R1[3][3], R2[3][3];
    rot(q1, R1), rot(q2, R2);
    for (int i = 0; i < num * num; ++i) {
        double d[3], nl[3], n[3], dl[3], nb[3], g[3];
        // A's surface parameters of the sample, from its own boundary point
        double om = double(-3.1415926 - 1e-6 + (i % num) * 2 * (3.1415926 + 1e-6) / (num - 1));
        double et = double(-1.5707963 - 1e-6 + (i / num) * 2 * (1.5707963 + 1e-6) / (num - 1));
        nl[0] = sgnPow(cos(et), 2 - e1) * sgnPow(cos(om), 2 - e2) / ax[0];
        nl[1] = sgnPow(cos(et), 2 - e1) * sgnPow(sin(om), 2 - e2) / ax[1];
        nl[2] = sgnPow(sin(et), 2 - e1) / ax[2];
        for (int r = 0; r < 3; ++r) {
            d[r] = m(r, i) - o(r, i);
            if (sign < 0) d[r] = -d[r];
            n[r] = R1[r][0] * nl[0] + R1[r][1] * nl[1] + R1[r][2] * nl[2];
        }
        double gn = double(0), gd = double(0);
        for (int r = 0; r < 3; ++r) {
            dl[r] = R2[0][r] * d[0] + R2[1][r] * d[1] + R2[2][r] * d[2];
            nb[r] = R2[0][r] * n[0] + R2[1][r] * n[1] + R2[2][r] * n[2];
            g[r] = dl[r] / (bx[r] * bx[r]);
            gn = gn + g[r] * nb[r];
            gd = gd + g[r] * dl[r];
        }
        hv::check("offset lies on the second body", hv::near(gd, double(1), 1e-6));
        hv::check("normals point the same way", hv::lt(double(0), gn));
        const double tol = double(1e-7) * gn;
        for (int r = 0; r < 3; ++r) {
            const double cross = g[r] * nb[(r + 1) % 3] - g[(r + 1) % 3] * nb[r];
            hv::check("normals are parallel", hv::le(cross, tol) && hv::le(-tol, cross));
        }
    }
    hv::reach("done");
}
// bodies turned about one of their axes each, by any angle
static void turn(const double& half, int axis, double q[4]) {
    q[0] = cos(half), q[1] = double(0), q[2] = double(0), q[3] = double(0);
    q[1 + axis] = sin(half);
}
HV_CASE_N(turned3D, 4) {
    const int s = hv::choice("sign", 2) * 2 - 1, i = shard % 2, k = shard / 2;
    const double ax[3] = {double(SQ[i][0]), double(SQ[i][1]), double(SQ[i][2])}, bx[3] = {double(SQ[i][3]), double(SQ[i][4]), double(SQ[i][5])};
    double qa[4], qb[4];
    turn(hv::angle("halfA"), k ? 2 : 0, qa), turn(hv::angle("halfB"), k ? 1 : 2, qb);
    space(i, s, ax, qa, bx, qb, 4);
}
HV_CASE_N(orientations3D, 4) {
    const int s = hv::choice("sign", 2) * 2 - 1, i = shard % 2, k = shard / 2;
    const double ax[3] = {double(SQ[i][0]), double(SQ[i][1]), double(SQ[i][2])}, bx[3] = {double(SQ[i][3]), double(SQ[i][4]), double(SQ[i][5])};
    double qa[4] = {double(0.5), double(0.5), double(-0.5), double(0.5)}, qb[4] = {double(0.5), double(0.5), double(0.5), double(0.5)};
    hv::unitQuat("q", k ? qb : qa);
    space(i, s, ax, qa, bx, qb, 4);
}
HV_CASE_N(shapes3D, 2) {
    const int s = hv::choice("sign", 2) * 2 - 1;
    const double ax[3] = {hv::real("a1", 0.2, 5), hv::real("b1", 0.2, 5), hv::real("c1", 0.2, 5)},
                 bx[3] = {hv::real("a2", 0.2, 5), hv::real("b2", 0.2, 5), hv::real("c2", 0.2, 5)};
    double qa[4] = {double(0.5), double(0.5), double(-0.5), double(0.5)}, qb[4] = {double(0.5), double(0.5), double(0.5), double(0.5)};
    space(shard, s, ax, qa, bx, qb, 4);
}
