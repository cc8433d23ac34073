// HV-ORACLE: exact half-plane / half-space membership of the point, and separating-axis clearance of the segment, against boundaries placed by the harness
// HV-BOUND: 2D: convex polygons (a skewed quadrilateral, a square aligned with the axes, a hexagon) at any place, every query point; every segment with one end free against a fixed polygon, several directions; up to 2 obstacles and 3 bodies; 3D: octahedron and tetrahedron at any place in a plane, every query point in it; segments of any length in 4 directions from any start on a line across; segments from a fixed start to any end on a line or in a plane (thorough only)
// HV-OUTSIDE: queries within 1e-4 of a boundary; segments passing a mesh edge on within 1e-4
// HV-OPTS: --nlsat-first
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "poly.hpp"
using namespace hrm;
typedef std::vector<double> V;
struct Flat : planners::HRM2D {
    using HRM2D::HRM2D;
    bool pt(Index b, const V& v, const std::vector<BoundaryInfo>& bd) {
        bridgeSliceBound_ = bd;
        return isPtInCFree(b, v);
    }
    bool seg(const V& a, const V& b, const BoundaryInfo& bd) {
        sliceBound_ = bd;
        return isSameSliceTransitionFree(a, b);
    }
};
struct Solid : planners::HRM3D {
    using HRM3D::HRM3D;
    bool pt(Index b, const V& v, const std::vector<std::vector<MeshMatrix>>& bd) {
        bridgeSliceBound_ = bd;
        return isPtInCFree(b, v);
    }
    bool seg(const V& a, const V& b, const std::vector<MeshMatrix>& bd) {
        sliceBoundMesh_.obstacle = bd;
        return isSameSliceTransitionFree(a, b);
    }
};
static Flat flat() {
    PlanningRequest r;
    r.parameters.numLineY = 2;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    const std::vector<SuperEllipse> e{SuperEllipse({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 4)};
    return Flat(MultiBodyTree2D(e[0]), e, e, r);
}
static Solid solid() {
    PlanningRequest r;
    r.parameters.numLineX = r.parameters.numLineY = 2;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    const std::vector<SuperQuadrics> e{SuperQuadrics({double(1), double(1), double(1)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(1, 0, 0, 0), 4)};
    return Solid(MultiBodyTree3D(e[0]), e, e, r);
}
static const std::vector<std::vector<std::array<double, 2>>> POLY{
    {{{2, 0.25}}, {{0.25, 1}}, {{-1.5, -0.25}}, {{0, -1.25}}},
    {{{1, 1}}, {{-1, 1}}, {{-1, -1}}, {{1, -1}}},
    {{{2, 0}}, {{1, 1.5}}, {{-1, 1.5}}, {{-2, 0}}, {{-1, -1.5}}, {{1, -1.5}}}};
static BoundaryPoints place(int k, const double& x, const double& y) {
    const int n = int(POLY[k].size());
    BoundaryPoints p(2, n + 1);
    for (int i = 0; i <= n; ++i) p(0, i) = x + POLY[k][i % n][0], p(1, i) = y + POLY[k][i % n][1];
    return p;
}
HV_CASE_N(pointPlane, 6) {
    const int k = shard % 3, body = shard / 3;
    Flat p = flat();
    const double x = hv::real("x", -5, 5), y = hv::real("y", -5, 5);
    std::vector<BoundaryInfo> bd(2);
    bd[body].obstacle = {place((k + 1) % 3, double(-2.5), double(2)), place(k, double(0.5), double(0.25))};
    bd[1 - body].obstacle = {place(1, double(0.5), double(1.5))};
    bool free = false;
    hv::guarded("containment", [&] { free = p.pt(body, {x, y}, bd); });
    hv::F in(false), by(false);
    for (auto& o : bd[body].obstacle) in = in || insidePoly(openPoly(o), x, y, 1e-4), by = by || insidePoly(openPoly(o), x, y, -1e-4);
    if (free) hv::check("a point inside an obstacle of the body is not free", !in);
    else hv::check("a point outside all obstacles of the body is free", by);
    hv::reach(free ? "free" : "inside");
}
static double cr(const double& ax, const double& ay, const double& bx, const double& by) { return ax * by - ay * bx; }
static hv::F misses(const BoundaryPoints& q, const double a[2], const double b[2], double margin) {
    std::vector<hv::F> some, l, r;
    const Eigen::MatrixXd p = openPoly(q);
    const int n = int(p.cols());
    const hv::K area(cr(p(0, 1) - p(0, 0), p(1, 1) - p(1, 0), p(0, 2) - p(0, 0), p(1, 2) - p(1, 0)));
    const double o = area > 0 ? 1.0 : -1.0;
    for (int i = 0; i < n; ++i) {
        const int k = (i + 1) % n;
        const double ex = p(0, k) - p(0, i), ey = p(1, k) - p(1, i);
        some.push_back(hv::le(o * cr(ex, ey, a[0] - p(0, i), a[1] - p(1, i)), -margin) && hv::le(o * cr(ex, ey, b[0] - p(0, i), b[1] - p(1, i)), -margin));
        const double c = cr(b[0] - a[0], b[1] - a[1], p(0, i) - a[0], p(1, i) - a[1]);
        l.push_back(hv::le(margin, c)), r.push_back(hv::le(c, -margin));
    }
    some.push_back(hv::all(l)), some.push_back(hv::all(r));
    return hv::any(some);
}
HV_CASE_N(segmentPlane, 6) {
    static const double A[3][2] = {{-4, -1}, {0.5, 4}, {3.5, 0.25}};
    const int k = shard % 3;
    Flat p = flat();
    double a[2] = {A[k][0], A[k][1]}, b[2] = {hv::real("x", -5, 5), hv::real("y", -5, 5)};
    if (shard == 3) a[0] = b[0];  // upright
    if (shard == 4) a[1] = b[1];  // level
    BoundaryInfo bd;
    bd.obstacle = {place((k + 1) % 3, double(-2.5), double(2)), place(k, double(0.5), double(0.25))};
    bd.arena = {place(2, double(0), double(0))};
    if (shard == 5) std::swap(bd.obstacle[0], bd.obstacle[1]);
    for (auto& o : bd.obstacle) hv::assume(!insidePoly(openPoly(o), b[0], b[1], -1e-4) && !insidePoly(openPoly(o), a[0], a[1], -1e-4));
    bool free = false;
    hv::guarded("transition", [&] { free = p.seg({a[0], a[1], double(0.25)}, {b[0], b[1], double(0.25)}, bd); });
    hv::F clear(true), touch(false);
    for (auto& o : bd.obstacle) clear = clear && misses(o, a, b, 1e-4), touch = touch || !misses(o, a, b, -1e-4);
    if (free) hv::check("a segment through an obstacle is rejected", !touch);
    else hv::check("a segment clear of all obstacles is accepted", !clear);
    hv::reach(free ? "free" : "rejected");
}
// ------------------------------------------------------------------------------------ space
struct Body {
    std::vector<std::array<double, 3>> v;
    std::vector<std::array<int, 3>> t;  // outward
};
static const std::vector<Body> BODY{
    {{{{2, 0, 0}}, {{0, 1.5, 0}}, {{-1.5, 0, 0}}, {{0, -2, 0}}, {{0, 0, 1}}, {{0, 0, -2}}},
     {{{0, 1, 4}}, {{1, 2, 4}}, {{2, 3, 4}}, {{3, 0, 4}}, {{1, 0, 5}}, {{2, 1, 5}}, {{3, 2, 5}}, {{0, 3, 5}}}},
    {{{{-2, -1, -1}}, {{2, -1.5, -0.5}}, {{0, 2, -1}}, {{0.25, 0, 2}}}, {{{1, 0, 2}}, {{0, 1, 3}}, {{1, 2, 3}}, {{2, 0, 3}}}}};
static MeshMatrix mesh(int k, double x, double y, double z) {
    MeshMatrix m;
    m.vertices.resize(3, BODY[k].v.size());
    m.faces.resize(BODY[k].t.size(), 3);
    const double c[3] = {x, y, z};
    for (size_t i = 0; i < BODY[k].v.size(); ++i)
        for (int j = 0; j < 3; ++j) m.vertices(j, i) = c[j] + BODY[k].v[i][j];
    for (size_t i = 0; i < BODY[k].t.size(); ++i)
        for (int j = 0; j < 3; ++j) m.faces(i, j) = double(BODY[k].t[i][j]);
    return m;
}
typedef Eigen::Vector3d W;
static W vert(const MeshMatrix& m, int i) { return W(m.vertices(0, i), m.vertices(1, i), m.vertices(2, i)); }
static hv::F within(const MeshMatrix& m, const W& p, double margin) {  // the meshes are convex
    hv::F in(true), out(true);
    for (int f = 0; f < m.faces.rows(); ++f) {
        const W a = vert(m, hv::asInt(m.faces(f, 0))), b = vert(m, hv::asInt(m.faces(f, 1))), c = vert(m, hv::asInt(m.faces(f, 2)));
        const double d = (b - a).cross(c - a).dot(p - a);
        in = in && hv::le(d, -margin), out = out && hv::le(margin, d);
    }
    return in || out;
}
HV_CASE_N(pointSpace, 4) {
    const int k = shard % 2, body = shard / 2;
    Solid p = solid();
    const W q(hv::real("x", -4, 4), body ? hv::real("y", -4, 4) : double(0.375), body ? double(0.125) : hv::real("z", -4, 4));
    std::vector<std::vector<MeshMatrix>> bd(2);
    bd[body] = {mesh(1 - k, -2.25, 0.5, 0.5), mesh(k, 0.5, 0.25, -0.25)};
    bd[1 - body] = {mesh(0, 0.5, 1.25, 0)};
    bool free = false;
    hv::guarded("containment", [&] { free = p.pt(body, {q(0), q(1), q(2)}, bd); });
    hv::F in(false), by(false);
    for (auto& o : bd[body]) in = in || within(o, q, 1e-4), by = by || within(o, q, -1e-4);
    if (free) hv::check("a point inside an obstacle of the body is not free", !in);
    else hv::check("a point outside all obstacles of the body is free", by);
    hv::reach(free ? "free" : "inside");
}
static void segmentSpace(int k, const W& a, const W& b) {
    Solid p = solid();
    std::vector<MeshMatrix> bd{mesh(1 - k, -2.25, 3.5, 0.5), mesh(k, 0.5, 0.25, -0.25)};
    for (auto& o : bd) hv::assume(!within(o, b, -1e-4) && !within(o, a, -1e-4));
    bool free = false;
    const V q{double(1), double(0), double(0), double(0)};
    hv::guarded("transition", [&] { free = p.seg({a(0), a(1), a(2), q[0], q[1], q[2], q[3]}, {b(0), b(1), b(2), q[0], q[1], q[2], q[3]}, bd); });
    // the segment passes the inside of a face
    hv::F hit(false), graze(false);
    for (auto& o : bd)
        for (int f = 0; f < o.faces.rows(); ++f) {
            W t[3];
            for (int i = 0; i < 3; ++i) t[i] = vert(o, hv::asInt(o.faces(f, i))) - a;
            const W n = (t[1] - t[0]).cross(t[2] - t[0]);
            const double s0 = -n.dot(t[0]), s1 = n.dot(b - a - t[0]);
            auto passes = [&](double m) {
                hv::F pos = hv::le(m, s1) && hv::le(s0, -m), neg = hv::le(s1, -m) && hv::le(m, s0);
                for (int i = 0; i < 3; ++i) {
                    const double e = (b - a).dot(t[i].cross(t[(i + 1) % 3]));
                    pos = pos && hv::le(m, e), neg = neg && hv::le(e, -m);
                }
                return pos || neg;
            };
            hit = hit || passes(1e-3), graze = graze || passes(-1e-3);
        }
    if (free) hv::check("a segment through a face of an obstacle is rejected", !hit);
    else hv::check("a segment clear of all obstacles is accepted", graze);
    hv::reach(free ? "free" : hv::decide(hit) ? "rejected" : "grazing");
}
// segments of any length in 4 directions from a start that is free in a plane across the direction
HV_CASE_N(directions, 8) {
    static const double D[4][3] = {{1, 0, 0}, {0, 0, -1}, {0.6, 0.8, 0}, {0.48, -0.64, 0.6}}, A[4][3] = {{-4, 0, 0.375}, {0, 0.125, 4}, {-3, 0, -3}, {0, 3, -3}};
    const int d = shard % 4;
    const double u = hv::real("u", -3, 3), l = hv::real("length", 0.125, 9);
    W a(double(A[d][0]), double(A[d][1]), double(A[d][2]));
    a(d % 2 ? 0 : d ? 2 : 1) += u;
    segmentSpace(shard / 4, a, a + l * W(double(D[d][0]), double(D[d][1]), double(D[d][2])));
}
HV_CASE_T(anyDirection, 2) {
    static const double A[3][3] = {{-4, 0.25, -1}, {0.5, 0.5, 4}, {3.5, -2, 0.25}};
    segmentSpace(shard % 2, W(double(A[shard][0]), double(A[shard][1]), double(A[shard][2])), W(hv::real("x", -4, 4), double(0.375), double(-1.5)));
}
HV_CASE_T(anyEnd, 6) {
    static const double A[3][3] = {{-4, 0.25, -1}, {0.5, 0.5, 4}, {3.5, -2, 0.25}};
    const int i = shard / 2;
    segmentSpace(shard % 2, W(double(A[i][0]), double(A[i][1]), double(A[i][2])), W(hv::real("x", -4, 4), double(0.375), hv::real("z", -4, 4)));
}
