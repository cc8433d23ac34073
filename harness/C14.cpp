// HV-ORACLE: x^T A^-1 x <= 1 implies x^T C^-1 x <= 1 as positive semidefiniteness of the difference of the shape matrices (all principal minors)
// HV-BOUND: 2D: body A with any two semi-axes along the axes or turned by any angle, body B a circle of any radius, or turned alike; 3D: aligned pairs with two free semi-axes, one body turned by any angle about each coordinate axis and the other a sphere of any radius, both turned alike
// HV-OUTSIDE: two bodies both non-circular and turned by different symbolic angles (nested roots are not decided); rotations about slanted axes
// HV-ASSUME: the SVD returns singular values in decreasing order and orthonormal singular vectors (contract), including reflections
// HV-BUDGET: 60
#include "hrm/geometry/TightFitEllipsoid.h"
#include "rot.hpp"
using namespace hrm;
struct M2 { double xx, xy, yy; };
static M2 shape2(const double& a, const double& b, const double& c, const double& s) {
    const double p = double(1) / (a * a), q = double(1) / (b * b);
    return {c * c * p + s * s * q, c * s * (p - q), s * s * p + c * c * q};
}
// the ellipse of `in` lies in the ellipse of `out`
static void inside(const std::string& label, const M2& in, const M2& out, bool diagonal) {
    const double t = double(1e-6), xx = in.xx - out.xx, yy = in.yy - out.yy, xy = in.xy - out.xy;
    hv::check(label, hv::le(-t, xx));
    hv::check(label, hv::le(-t, yy));
    if (diagonal) hv::check(label, hv::near(xy, double(0), 1e-6));
    else hv::check(label, hv::le(-t, xx * yy - xy * xy));
}
static SuperEllipse plane(const double a[2], const double b[2], const double& ta, const double& tb, bool diagonal) {
    hv::forkMinMax(true);
    SuperEllipse e({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 5);
    hv::guarded("enclosing ellipse", [&] { e = getMVCE2D({a[0], a[1]}, {b[0], b[1]}, ta, tb, 5); });
    hv::check("concentric ellipse", hv::eq(e.getPosition().at(0), double(0)) && hv::eq(e.getPosition().at(1), double(0)) && hv::eq(e.getEpsilon(), double(1)));
    const M2 m = shape2(e.getSemiAxis().at(0), e.getSemiAxis().at(1), cos(e.getAngle()), sin(e.getAngle()));
    inside("first ellipse enclosed", shape2(a[0], a[1], cos(ta), sin(ta)), m, diagonal);
    inside("second ellipse enclosed", shape2(b[0], b[1], cos(tb), sin(tb)), m, diagonal);
    if (diagonal)  // and no larger than that
        for (int k = 0; k < 2; ++k) {
            const double o = k ? m.yy : m.xx;
            hv::check("smallest ellipse", hv::le(double(1) / (a[k] * a[k]), o + double(1e-6)) || hv::le(double(1) / (b[k] * b[k]), o + double(1e-6)));
        }
    hv::reach("done");
    return e;
}
HV_CASE_N(aligned, 2) {  // two free semi-axes, either body
    double a[2] = {double(2), double(0.5)}, b[2] = {double(1), double(1.5)};
    if (shard & 1) a[0] = hv::real("a0", 0.25, 4), b[0] = hv::real("b0", 0.25, 4);
    else a[1] = hv::real("a1", 0.25, 4), b[1] = hv::real("b1", 0.25, 4);
    plane(a, b, double(0), double(0), true);
}
HV_CASE_T(aligned3, 2) {
    double a[2] = {double(2), hv::real("a1", 0.25, 4)}, b[2] = {hv::real("b0", 0.25, 4), hv::real("b1", 0.25, 4)};
    if (shard) std::swap(a[0], b[0]), std::swap(a[1], b[1]);
    plane(a, b, double(0), double(0), true);
}
HV_CASE_N(turned, 3) {
    static const double A[3][2] = {{double(4), double(1)}, {double(1), double(4)}, {double(1), double(0.5)}};
    const double b[2] = {double(2), double(2)};
    plane(A[shard], b, hv::angle("angleA"), double(0), false);
}
HV_CASE_N(turnedSize, 2) {  // circle of any size
    const double r = hv::real("radius", 0.25, 6), a[2] = {double(shard ? 1 : 4), double(shard ? 4 : 1)}, b[2] = {r, r};
    plane(a, b, hv::angle("angleA"), double(0), false);
}
HV_CASE_N(common, 3) {  // both turned by the same angle
    const double a[2] = {double(shard ? 1 : 4), double(shard == 2 ? 4 : 2)}, b[2] = {double(2), double(shard ? 0.5 : 4)}, t = hv::angle("angle");
    plane(a, b, t, t, false);
}
HV_CASE_T(turned2, 1) {
    const double a[2] = {double(4), double(1)}, b[2] = {double(1), double(2)};
    plane(a, b, hv::angle("angleA"), double(0), false);
}
struct S3 { double m[3][3]; };
static S3 shape3(const double a[3], const R3& r) {
    S3 s;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            s.m[i][j] = double(0);
            for (int k = 0; k < 3; ++k) s.m[i][j] = s.m[i][j] + r.m[i][k] * r.m[j][k] / (a[k] * a[k]);
        }
    return s;
}
// in lies in out, when the only coupled pair of axes is (p, q)
static void inside3(const std::string& label, const S3& in, const S3& out, int p, int q, bool diagonal) {
    const double t = double(1e-6);
    double d[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            d[i][j] = in.m[i][j] - out.m[i][j];
            if (i == j) hv::check(label, hv::le(-t, d[i][j]));
            else if (diagonal || (i != p && i != q) || (j != p && j != q)) hv::check(label, hv::near(d[i][j], double(0), 1e-6));
        }
    if (!diagonal) hv::check(label, hv::le(-t, d[p][p] * d[q][q] - d[p][q] * d[q][p]));
}
static void space(const double a[3], const double b[3], const double qa[4], const double qb[4], int axis, bool diagonal) {
    hv::forkMinMax(true);
    SuperQuadrics e({double(1), double(1), double(1)}, {double(1), double(1)}, {double(0), double(0), double(0)}, Eigen::Quaterniond(double(1), double(0), double(0), double(0)), 3);
    hv::guarded("enclosing ellipsoid", [&] { e = getMVCE3D({a[0], a[1], a[2]}, {b[0], b[1], b[2]}, Eigen::Quaterniond(qa[0], qa[1], qa[2], qa[3]), Eigen::Quaterniond(qb[0], qb[1], qb[2], qb[3]), 3); });
    for (int k = 0; k < 3; ++k) hv::check("concentric ellipsoid", hv::eq(e.getPosition().at(k), double(0)));
    for (int k = 0; k < 2; ++k) hv::check("concentric ellipsoid", hv::eq(e.getEpsilon().at(k), double(1)));
    const Eigen::Quaterniond& q = e.getQuaternion();
    const double v[4] = {q.w(), q.x(), q.y(), q.z()}, c[3] = {e.getSemiAxis().at(0), e.getSemiAxis().at(1), e.getSemiAxis().at(2)};
    hv::check("unit orientation", hv::near(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3], double(1), 1e-6));
    const S3 m = shape3(c, rotOf(v)), ma = shape3(a, rotOf(qa)), mb = shape3(b, rotOf(qb));
    const int p = (axis + 1) % 3, r = (axis + 2) % 3;
    inside3("first ellipsoid enclosed", ma, m, p, r, diagonal);
    inside3("second ellipsoid enclosed", mb, m, p, r, diagonal);
    if (diagonal)
        for (int k = 0; k < 3; ++k) hv::check("smallest ellipsoid", hv::le(ma.m[k][k], m.m[k][k] + double(1e-6)) || hv::le(mb.m[k][k], m.m[k][k] + double(1e-6)));
    hv::reach("done");
}
static const double ONE[4] = {double(1), double(0), double(0), double(0)};
HV_CASE_N(aligned3D, 6) {
    double a[3] = {double(4), double(2), double(1)}, b[3] = {double(1), double(2), double(4)};
    const int k = shard % 3;
    a[k] = hv::real("a", 0.25, 8);
    if (shard < 3) b[k] = hv::real("b", 0.25, 8);
    else b[(k + 1) % 3] = hv::real("b", 0.25, 8);
    space(a, b, ONE, ONE, 0, true);
}
HV_CASE_N(turned3D, 3) {
    const double r = hv::real("radius", 0.25, 6), a[3] = {double(4), double(1), double(0.5)}, b[3] = {r, r, r};
    double q[4];
    turn(hv::angle("half"), shard, q);
    space(a, b, q, ONE, shard, false);
}
HV_CASE_N(turned3DB, 3) {  // the sphere is the first body
    const double r = hv::real("radius", 0.25, 6), a[3] = {r, r, r}, b[3] = {double(4), double(1), double(1)};
    double q[4];
    turn(hv::angle("half"), shard, q);
    space(a, b, ONE, q, shard, false);
}
HV_CASE_N(common3D, 3) {  // both turned alike
    const double a[3] = {double(4), double(1), double(0.5)}, b[3] = {double(1), double(2), double(1)};
    double q[4];
    turn(hv::angle("half"), shard, q);
    space(a, b, q, q, shard, false);
}
