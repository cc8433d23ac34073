// HV-ORACLE: base pose * FK(body i) * offset i with the FK replaced by an arbitrary function of body name and joint values (recorder stub)
// HV-BOUND: articulated robots of a base and 2 links with 2 joints: forward kinematics, joint values, base position and link offsets arbitrary; base, joint-chain and link rotations each about an arbitrary axis by any angle, two of the three at a time; from a parsed model and from a file name, after an arbitrary earlier configuration
// HV-OUTSIDE: the forward kinematics solver itself (any function of body name and joint values), more links
// HV-ASSUME: the kinematics library returns unit quaternions
#include "hrm/datastructure/MultiBodyTree3D.h"
#include "rot.hpp"
using namespace hrm;
static R3 bodyRot(const SuperQuadrics& b) {
    const auto q = b.getQuaternion();
    const double v[4] = {q.w(), q.x(), q.y(), q.z()};
    return rotOf(v);
}
static void identity(double q[4]) { q[0] = double(1), q[1] = double(0), q[2] = double(0), q[3] = double(0); }
static Eigen::Matrix4d pose3(const double q[4], const double t[3]) {
    R3 m = rotOf(q);
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    for (int i = 0; i < 3; ++i) {
        for (int j = 0; j < 3; ++j) g(i, j) = m.m[i][j];
        g(i, 3) = t[i];
    }
    return g;
}
static void run(const double gq[4], const double fq[2][4], const double lq[2][4], bool file, bool moved) {
    double gt[3], ft[2][3], lt[2][3], jt[2] = {hv::real("joint 1"), hv::real("joint 2")};
    for (int i = 0; i < 3; ++i) {
        const std::string n = std::to_string(i);
        gt[i] = hv::real("base " + n, -10, 10);
        for (int k = 0; k < 2; ++k)
            ft[k][i] = hv::real("frame " + std::to_string(k) + n, -10, 10), lt[k][i] = hv::real("link " + std::to_string(k) + n, -10, 10);
    }
    bool joints = true, old = false;
    int asked = 0;
    KDL::stub::numJoints() = 2;
    KDL::stub::fk() = [&](const std::vector<double>& q, const std::string& body, KDL::Frame& f) {
        const int k = body == "body1" ? 0 : body == "body2" ? 1 : -1;
        if (k < 0) return -1;
        if (!old) {
            ++asked;
            hv::check("joint values reach the kinematics", hv::F(q.size() == 2) && hv::eq(q[0], jt[0]) && hv::eq(q[1], jt[1]));
        }
        const double z = old ? double(0.5) : double(0);
        f.M.q[0] = fq[k][1], f.M.q[1] = fq[k][2], f.M.q[2] = fq[k][3], f.M.q[3] = fq[k][0];
        f.p = KDL::Vector(ft[k][0] + z, ft[k][1], ft[k][2]);
        return 0;
    };
    MultiBodyTree3D r(SuperQuadrics({double(2), double(1), double(0.5)}, {1, 1}, {double(0.5), double(0.25), double(1)}, Eigen::Quaterniond(0.6, 0, 0.8, 0), 4));
    for (int i = 0; i < 2; ++i)
        r.addBody(SuperQuadrics({double(i + 1), double(0.5), double(0.25)}, {1, 1}, {lt[i][0], lt[i][1], lt[i][2]},
                                Eigen::Quaterniond(lq[i][0], lq[i][1], lq[i][2], lq[i][3]), 4));
    hv::guarded("transform", [&] {
        KDL::Tree tree;
        tree.joints = 2;
        ParseURDF model(tree);
        Eigen::VectorXd q(2);
        if (moved) {
            old = true;
            const double oq[4] = {double(0.5), double(0.5), double(-0.5), double(0.5)}, ot[3] = {hv::real("old x", -10, 10), double(2), double(-3)};
            q << hv::real("old joint"), double(1);
            r.robotTF(model, pose3(oq, ot), q);
            old = false;
        }
        q << jt[0], jt[1];
        if (file)
            r.robotTF("robot.urdf", pose3(gq, gt), q);
        else
            r.robotTF(model, pose3(gq, gt), q);
    });
    hv::check("every link asks for its body", hv::F(asked >= 2 && joints));
    const R3 g = rotOf(gq);
    for (int i = 0; i < 3; ++i) hv::check("base position", hv::near(r.getBase().getPosition().at(i), gt[i], 1e-6));
    checkRot("base orientation", bodyRot(r.getBase()), g);
    for (int k = 0; k < 2; ++k) {
        const auto& l = r.getLinks().at(k);
        double a[3], b[3];
        const R3 f = rotOf(fq[k]);
        apply(f, lt[k], a);
        for (int i = 0; i < 3; ++i) a[i] = a[i] + ft[k][i];
        apply(g, a, b);
        for (int i = 0; i < 3; ++i) hv::check("link position", hv::near(l.getPosition().at(i), gt[i] + b[i], 1e-6));
        checkRot("link orientation", bodyRot(l), g * f * rotOf(lq[k]));
    }
    KDL::stub::fk() = nullptr;
    hv::reach("done");
}
HV_CASE_N(poses, 9) {
    double g[4], f[2][4], l[2][4];
    const int axis = shard % 3, other = (axis + 1 + shard / 3 % 2) % 3;
    identity(g), identity(f[0]), identity(f[1]), identity(l[0]), identity(l[1]);
    if (shard / 3 != 0) turn(hv::angle("half base"), axis, g);
    if (shard / 3 != 1) turn(hv::angle("half frame"), other, f[0]), f[1][0] = f[0][0], f[1][1] = -f[0][1], f[1][2] = -f[0][2], f[1][3] = -f[0][3];
    if (shard / 3 != 2) turn(hv::angle("half link"), axis, l[1]);
    run(g, f, l, shard % 2, shard / 2 % 2);
}
HV_CASE_T(allTurned, 3) {
    double g[4], f[2][4], l[2][4];
    identity(f[1]), identity(l[1]);
    turn(hv::angle("half base"), shard, g), turn(hv::angle("half frame"), (shard + 1) % 3, f[0]), turn(hv::angle("half link"), (shard + 2) % 3, l[0]);
    run(g, f, l, false, true);
}
