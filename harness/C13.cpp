// HV-ORACLE: Minkowski boundary of the pair built by a direct call on fresh single bodies, minus the offset computed independently
// HV-BOUND: robots of a base and 2 links: 2D: every base orientation, link pose and obstacle position, 5-point boundaries, obstacle exponents 1 and 0.5; 3D: arbitrary link offset and obstacle position, link turned about each axis by any angle; base turned to 4 orientations (thorough: about each axis by any angle), 4x4-point boundaries
// HV-OUTSIDE: more links; base away from the origin (the roadmap planners place it there)
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include "rot.hpp"
using namespace hrm;
// the boundary of a body is the Minkowski boundary with that body alone at its orientation, moved by minus its offset
static void compare(const std::vector<BoundaryPoints>& got, int body, const BoundaryPoints& alone, const double* off, int dim) {
    const auto& m = got.at(body);
    if (m.rows() != alone.rows() || m.cols() != alone.cols()) {
        hv::fail("one boundary of full size per body");
        return;
    }
    for (int j = 0; j < m.cols(); ++j)
        for (int i = 0; i < dim; ++i) hv::check("boundary of the body at its place", hv::near(m(i, j) + off[i], alone(i, j), 1e-6));
}
HV_CASE_N(planar, 4) {
    const double th = hv::angle("angle"), la[2] = {hv::angle("link angle"), double(0)};
    const double lx[2] = {hv::real("link x", -10, 10), double(-2)}, ly[2] = {hv::real("link y", -10, 10), double(0.5)};
    const int k = shard % 2 ? 1 : -1;
    SuperEllipse obs({double(4), double(2)}, shard / 2 ? 0.5 : 1, {hv::real("x", -10, 10), hv::real("y", -10, 10)}, double(0), 5);
    MultiBodyTree2D r(SuperEllipse({double(2), double(1)}, 1, {double(0), double(0)}, double(0), 5));
    for (int i = 0; i < 2; ++i) r.addBody(SuperEllipse({double(0.5), double(i ? 1 : 2)}, 1, {lx[i], ly[i]}, la[i], 5));
    const double c = cos(th), s = sin(th);
    std::vector<BoundaryPoints> got;
    BoundaryPoints alone[3];
    hv::guarded("boundaries", [&] {
        Eigen::Matrix3d g;
        g << c, -s, double(0), s, c, double(0), double(0), double(0), double(1);
        r.robotTF(g);
        got = r.minkSum(obs, k);
        alone[0] = obs.getMinkSum2D(SuperEllipse({double(2), double(1)}, 1, {double(0), double(0)}, th, 5), k);
        for (int i = 0; i < 2; ++i)
            alone[i + 1] = obs.getMinkSum2D(SuperEllipse({double(0.5), double(i ? 1 : 2)}, 1, {double(0), double(0)}, th + la[i], 5), k);
    });
    if (got.size() != 3) {
        hv::fail("one boundary per body");
        return;
    }
    const double zero[2] = {double(0), double(0)};
    compare(got, 0, alone[0], zero, 2);
    for (int i = 0; i < 2; ++i) {
        const double off[2] = {c * lx[i] - s * ly[i], s * lx[i] + c * ly[i]};
        compare(got, i + 1, alone[i + 1], off, 2);
    }
    hv::reach("done");
}
static void spatial(const double q[4], const double l[4], int k, bool move) {
    double lt[2][3] = {{hv::real("lx", -10, 10), hv::real("ly", -10, 10), hv::real("lz", -10, 10)}, {double(-2), double(1), double(0.5)}};
    SuperQuadrics obs({double(4), double(2), double(1)}, {1, 1}, {hv::real("x", -10, 10), double(1), double(2)}, Eigen::Quaterniond(1, 0, 0, 0), 4);
    MultiBodyTree3D r(SuperQuadrics({double(2), double(1), double(0.5)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(1, 0, 0, 0), 4));
    r.addBody(SuperQuadrics({double(0.5), double(2), double(1)}, {1, 1}, {lt[0][0], lt[0][1], lt[0][2]}, Eigen::Quaterniond(l[0], l[1], l[2], l[3]), 4));
    r.addBody(SuperQuadrics({double(0.5), double(0.25), double(1)}, {1, 1}, {lt[1][0], lt[1][1], lt[1][2]}, Eigen::Quaterniond(1, 0, 0, 0), 4));
    // orientation of the first link: the product of the two quaternions
    const double p[4] = {q[0] * l[0] - q[1] * l[1] - q[2] * l[2] - q[3] * l[3], q[0] * l[1] + q[1] * l[0] + q[2] * l[3] - q[3] * l[2],
                         q[0] * l[2] - q[1] * l[3] + q[2] * l[0] + q[3] * l[1], q[0] * l[3] + q[1] * l[2] - q[2] * l[1] + q[3] * l[0]};
    std::vector<BoundaryPoints> got;
    BoundaryPoints alone[3];
    const R3 g = rotOf(q);
    hv::guarded("boundaries", [&] {
        if (move) {
            Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) m(i, j) = g.m[i][j];
            r.robotTF(m);
        }
        got = r.minkSum(obs, k);
        alone[0] = obs.getMinkSum3D(SuperQuadrics({double(2), double(1), double(0.5)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), 4), k);
        alone[1] = obs.getMinkSum3D(SuperQuadrics({double(0.5), double(2), double(1)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(p[0], p[1], p[2], p[3]), 4), k);
        alone[2] = obs.getMinkSum3D(SuperQuadrics({double(0.5), double(0.25), double(1)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), 4), k);
    });
    if (got.size() != 3) {
        hv::fail("one boundary per body");
        return;
    }
    const double zero[3] = {double(0), double(0), double(0)};
    compare(got, 0, alone[0], zero, 3);
    for (int i = 0; i < 2; ++i) {
        double off[3];
        apply(g, lt[i], off);
        compare(got, i + 1, alone[i + 1], off, 3);
    }
    hv::reach("done");
}
HV_CASE_N(turnedLink, 3) {
    double q[4] = {double(1), double(0), double(0), double(0)}, l[4];
    turn(hv::angle("half link"), shard, l);
    spatial(q, l, shard % 2 ? 1 : -1, false);
}
HV_CASE_T(turnedBase, 3) {
    double q[4], l[4] = {double(1), double(0), double(0), double(0)};
    turn(hv::angle("half"), shard, q);
    spatial(q, l, shard % 2 ? -1 : 1, true);
}
HV_CASE_N(movedBase, 4) {
    const double h = double(0.5);
    static const int G[4][4] = {{1, 1, 1, 1}, {1, -1, 1, 1}, {1, 1, 1, -1}, {1, -1, -1, 1}};
    double q[4], l[4];
    for (int i = 0; i < 4; ++i) q[i] = h * double(G[shard][i]), l[i] = h * double(G[(shard + 1) % 4][i]);
    spatial(q, l, shard % 2 ? 1 : -1, true);
}
HV_CASE_T(turnedBoth, 6) {
    double q[4], l[4];
    turn(hv::angle("half"), shard % 3, q), turn(hv::angle("half link"), shard / 3 ? shard % 3 : (shard + 1) % 3, l);
    spatial(q, l, shard % 2 ? 1 : -1, true);
}
