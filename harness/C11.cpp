// HV-ORACLE: composition of homogeneous transforms written out independently; quaternion to rotation by the textbook formula
// HV-BOUND: robots of a base and 2 links; 2D: every base pose, previous pose and link pose; 3D: every base orientation with links at fixed orientations, every link orientation with the base unturned, every rotation of base and link about each pair of axes; positions arbitrary
// HV-OUTSIDE: longer histories than one earlier pose, more links
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include "rot.hpp"
using namespace hrm;
static Eigen::Matrix3d pose2(const double& th, const double& x, const double& y) {
    Eigen::Matrix3d g;
    g << cos(th), -sin(th), x, sin(th), cos(th), y, double(0), double(0), double(1);
    return g;
}
static void sameAngle(const std::string& label, const double& a, const double& c, const double& s) {
    hv::check(label, hv::near(cos(a), c, 1e-6) && hv::near(sin(a), s, 1e-6));
}
static void sameShape(const SuperEllipse& e, const double& a, const double& b, const double& eps) {
    hv::check("shape unchanged", hv::eq(e.getSemiAxis().at(0), a) && hv::eq(e.getSemiAxis().at(1), b) && hv::eq(e.getEpsilon(), eps));
}
HV_CASE_N(planar, 3) {
    const double th = hv::angle("angle"), x = hv::real("x", -10, 10), y = hv::real("y", -10, 10);
    double la[2] = {double(0), double(0)}, lx[2] = {double(3), double(-2)}, ly[2] = {double(1), double(0)};
    for (int i = 0; i < 2; ++i)
        if (shard == i || shard == 2) {
            const std::string n = std::to_string(i);
            la[i] = hv::angle("link angle " + n), lx[i] = hv::real("link x " + n, -10, 10), ly[i] = hv::real("link y " + n, -10, 10);
        }
    MultiBodyTree2D r(SuperEllipse({double(2), double(1)}, 1, {double(0.5), double(0.25)}, double(0.75), 4));
    for (int i = 0; i < 2; ++i) r.addBody(SuperEllipse({double(i + 1), double(0.5)}, 1, {lx[i], ly[i]}, la[i], 4));
    hv::guarded("transform", [&] {
        if (hv::coin("moved before")) r.robotTF(pose2(hv::angle("old angle"), hv::real("old x", -10, 10), hv::real("old y", -10, 10)));
        r.robotTF(pose2(th, x, y));
    });
    hv::check("two links", hv::F(r.getNumLinks() == 2 && r.getLinks().size() == 2 && r.getTF().size() == 2));
    const double c = cos(th), s = sin(th);
    hv::check("base position", hv::near(r.getBase().getPosition().at(0), x, 1e-6) && hv::near(r.getBase().getPosition().at(1), y, 1e-6));
    sameAngle("base angle", r.getBase().getAngle(), c, s);
    sameShape(r.getBase(), double(2), double(1), double(1));
    for (int i = 0; i < 2; ++i) {
        const auto& l = r.getLinks().at(i);
        hv::check("link position", hv::near(l.getPosition().at(0), x + c * lx[i] - s * ly[i], 1e-6) &&
                                       hv::near(l.getPosition().at(1), y + s * lx[i] + c * ly[i], 1e-6));
        sameAngle("link angle", l.getAngle(), c * cos(la[i]) - s * sin(la[i]), s * cos(la[i]) + c * sin(la[i]));
        sameShape(l, double(i + 1), double(0.5), double(1));
    }
    hv::reach("done");
}
static Eigen::Matrix4d pose3(const double q[4], const double t[3]) {
    R3 m = rotOf(q);
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) g(i, j) = m.m[i][j];
        g(i, 3) = t[i];
    }
    return g;
}
static R3 bodyRot(const SuperQuadrics& b) {
    const auto q = b.getQuaternion();
    const double v[4] = {q.w(), q.x(), q.y(), q.z()};
    return rotOf(v);
}
static void spatial(const double q[4], const double lq[2][4], int moved) {
    const double t[3] = {hv::real("x", -10, 10), hv::real("y", -10, 10), hv::real("z", -10, 10)};
    double lt[2][3] = {{hv::real("lx", -10, 10), hv::real("ly", -10, 10), hv::real("lz", -10, 10)}, {double(-2), double(1), double(0.5)}};
    MultiBodyTree3D r(SuperQuadrics({double(2), double(1), double(0.5)}, {1, 1}, {double(0.5), double(0.25), double(1)}, Eigen::Quaterniond(0.6, 0, 0.8, 0), 4));
    for (int i = 0; i < 2; ++i)
        r.addBody(SuperQuadrics({double(i + 1), double(0.5), double(0.25)}, {1, 1}, {lt[i][0], lt[i][1], lt[i][2]},
                                Eigen::Quaterniond(lq[i][0], lq[i][1], lq[i][2], lq[i][3]), 4));
    hv::guarded("transform", [&] {
        if (moved) {
            const double oq[4] = {double(0.5), double(0.5), double(-0.5), double(0.5)}, ot[3] = {hv::real("old x", -10, 10), double(2), double(-3)};
            r.robotTF(pose3(oq, ot));
        }
        r.robotTF(pose3(q, t));
    });
    hv::check("two links", hv::F(r.getNumLinks() == 2 && r.getLinks().size() == 2 && r.getTF().size() == 2 && r.getBodyShapes().size() == 3));
    const R3 g = rotOf(q);
    auto bodies = r.getBodyShapes();
    for (int i = 0; i < 3; ++i) hv::check("base position", hv::near(r.getBase().getPosition().at(i), t[i], 1e-6));
    checkRot("base orientation", bodyRot(r.getBase()), g);
    for (int i = 0; i < 2; ++i) {
        const auto& l = r.getLinks().at(i);
        double p[3];
        apply(g, lt[i], p);
        for (int j = 0; j < 3; ++j) {
            hv::check("link position", hv::near(l.getPosition().at(j), t[j] + p[j], 1e-6));
            hv::check("listed bodies are base and links", hv::eq(bodies.at(i + 1).getPosition().at(j), l.getPosition().at(j)));
        }
        checkRot("link orientation", bodyRot(l), g * rotOf(lq[i]));
        hv::check("shape unchanged", hv::eq(l.getSemiAxis().at(0), double(i + 1)) && hv::eq(l.getSemiAxis().at(1), double(0.5)) && hv::eq(l.getSemiAxis().at(2), double(0.25)));
    }
    hv::reach("done");
}
static void identity(double q[4]) { q[0] = double(1), q[1] = double(0), q[2] = double(0), q[3] = double(0); }
HV_CASE_N(turnedBase, 2) {
    double q[4], lq[2][4] = {{double(0.5), double(-0.5), double(0.5), double(0.5)}, {double(1), double(0), double(0), double(0)}};
    hv::unitQuat("q", q);
    spatial(q, lq, shard);
}
HV_CASE_N(turnedBoth, 9) {
    double q[4], lq[2][4];
    turn(hv::angle("half"), shard % 3, q);
    turn(hv::angle("half link"), shard / 3, lq[0]);
    identity(lq[1]);
    spatial(q, lq, hv::choice("moved before", 2));
}
HV_CASE_N(turnedLink, 1) {
    double q[4], lq[2][4];
    identity(q), identity(lq[0]);
    hv::unitQuat("link q", lq[1]);
    spatial(q, lq, 0);
}
HV_CASE_T(turnedBaseAnyLink, 3) {
    double q[4], lq[2][4];
    turn(hv::angle("half"), shard, q);
    identity(lq[0]);
    hv::unitQuat("link q", lq[1]);
    spatial(q, lq, 1);
}
