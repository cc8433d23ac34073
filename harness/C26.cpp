// HV-ORACLE: centre distance against the sum of the semi-axes along the line of centres
// HV-BOUND: two ellipses or ellipsoids along their line of centres (aligned axes, turned together by any angle about an axis), one or two free parameters among distance and semi-axes in [0.5, 4]; clearly apart or clearly overlapping (0.05)
// HV-OUTSIDE: relative rotations, centres off a common axis, nearly touching bodies
// HV-ASSUME: the eigenvalues of a matrix are the roots of its characteristic polynomial with multiplicity (contract of Eigen's solver)
#include "hrm/util/EllipsoidSeparation.h"
#include "rot.hpp"
using namespace hrm;
#ifdef HV_SYM
#include "core.hpp"
static void known(const std::vector<double>& r) { hs::eigenHints() = r; }
#else
static void known(const std::vector<double>&) {}
#endif
static void verdict(bool separated, const double& distance, const double& reach) {
    if (separated) hv::check("separated bodies do not overlap", hv::le(reach - double(0.05), distance));
    else hv::check("bodies reported in contact are not apart", hv::le(distance, reach + double(0.05)));
}
static void plane(const double a[2], const double b[2], const double& d, int along, const double& c, const double& s, const double& angle) {
    // centres at p and p + d (axis `along` turned)
    const double ux = along ? -s : c, uy = along ? c : s;
    SuperEllipse A({a[0], a[1]}, 1, {double(1), double(-2)}, angle, 5), B({b[0], b[1]}, 1, {double(1) + d * ux, double(-2) + d * uy}, angle, 5);
    bool r = false;
    known({a[1 - along] * a[1 - along] / (b[1 - along] * b[1 - along])});
    hv::guarded("separation", [&] { r = isEllipseSeparated(A, B); });
    verdict(r, d, a[along] + b[along]);
    hv::reach("done");
}
HV_CASE_N(ellipses, 8) {
    double a[2] = {double(1), double(2)}, b[2] = {double(2), double(0.5)};
    const int along = shard & 1;
    const double d = shard & 2 ? hv::real("distance", 0, 8) : double(3);
    if (shard & 4) a[along] = hv::real("a", 0.5, 4);
    else b[along] = hv::real("b", 0.5, 4);
    plane(a, b, d, along, double(1), double(0), double(0));
}
HV_CASE_N(turned, 2) {
    const double a[2] = {double(1), double(2)}, b[2] = {double(2), double(0.5)}, t = hv::angle("angle"), d = hv::real("distance", 0.5, 8);
    plane(a, b, d, shard, cos(t), sin(t), t);
}
static void space(const double a[3], const double b[3], const double& d, int along, const double q[4], const double qb[4]) {
    double p[3] = {double(1), double(-2), double(0.5)};
    SuperQuadrics A({a[0], a[1], a[2]}, {double(1), double(1)}, {p[0], p[1], p[2]}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), 3);
    const R3 R = rotOf(q);
    for (int k = 0; k < 3; ++k) p[k] = p[k] + d * R.m[k][along];
    SuperQuadrics B({b[0], b[1], b[2]}, {double(1), double(1)}, {p[0], p[1], p[2]}, Eigen::Quaterniond(qb[0], qb[1], qb[2], qb[3]), 3);
    bool r = false;
    const int u = (along + 1) % 3, v = (along + 2) % 3;
    known({a[u] * a[u] / (b[u] * b[u]), a[v] * a[v] / (b[v] * b[v])});
    hv::guarded("separation", [&] { r = isEllipsoidSeparated(A, B); });
    verdict(r, d, a[along] + b[along]);
    hv::reach("done");
}
HV_CASE_N(ellipsoids, 6) {
    double a[3] = {double(1), double(2), double(0.5)}, b[3] = {double(2), double(0.5), double(1)};
    const int along = shard % 3;
    const double d = shard < 3 ? hv::real("distance", 0, 8) : double(3);
    if (shard >= 3) a[along] = hv::real("a", 0.5, 4);
    const double q[4] = {double(1), double(0), double(0), double(0)};
    space(a, b, d, along, q, q);
}
HV_CASE_N(turned3D, 3) {
    const double a[3] = {double(1), double(2), double(0.5)}, b[3] = {double(2), double(0.5), double(1)};
    double q[4];
    turn(hv::angle("half"), (shard + 1) % 3, q);
    space(a, b, hv::real("distance", 0.5, 8), shard, q, q);
}
HV_CASE_N(spun, 3) {  // one body round about the line of centres, the other turned about it by any angle
    double a[3] = {double(2), double(2), double(2)}, b[3] = {double(2), double(0.5), double(1)}, q[4];
    a[shard] = double(1);
    const double e[4] = {double(1), double(0), double(0), double(0)};
    turn(hv::angle("half"), shard, q);
    space(a, b, hv::real("distance", 0.5, 8), shard, e, q);
}
// particular bodies and distances
HV_CASE_N(instances, 3) {
    const double a[3] = {double(1), double(2), double(0.5)}, b[3] = {double(2), double(0.5), double(1)}, e[4] = {double(1), double(0), double(0), double(0)};
    static const double f[4] = {0.5, 0.9, 1.1, 2};
    space(a, b, double(f[hv::choice("distance", 4)]) * (a[shard] + b[shard]), shard, e, e);
}
