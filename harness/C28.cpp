// HV-ORACLE: the poses of all bodies from independent kinematics; arbitrary verdict per pair of body and obstacle (collision library and separation test are recorders): a state is valid iff every pair is separate, and every pair is asked at the pose of the state
// HV-BOUND: plane: base and link at any offset, every position and heading of the state, an elliptic and a superelliptic obstacle; space: base and link at any offset, every position, turned about each axis by any angle, up to 2 obstacles (one superquadric); articulated: base and 2 links with arbitrary forward kinematics of 2 joints, every joint value; after an earlier setup and query of another state, and of another planner with another robot
// HV-OUTSIDE: more bodies and obstacles; the narrow-phase tests themselves (C26, C31); motions between states (the planning library checks them at the resolution of C29)
// HV-CUT: isEllipseSeparated
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include "rot.hpp"
using namespace hrm;
namespace oi = planners::ompl_interface;
namespace ob = ompl::base;
typedef std::vector<double> V;
struct Pose {
    double t[3];
    R3 r;
};
static std::map<std::pair<int, int>, bool> verdict;  // hit?
static std::map<std::pair<int, int>, int> asked;
static std::vector<Pose> want;        // of the bodies
static std::vector<Pose> place;       // of the obstacles
static bool quiet;
static bool samePlace(const Pose& a, const Pose& b, int dim) {
    bool ok = true;
    for (int i = 0; i < dim; ++i) ok = ok && hv::decide(hv::near(a.t[i], b.t[i], 1e-6));
    return ok;
}
static void compare(const std::string& label, const Pose& a, const Pose& b, int dim) {
    for (int i = 0; i < dim; ++i) hv::check(label, hv::near(a.t[i], b.t[i], 1e-6));
    checkRot(label, a.r, b.r);
}
// bodies have first semi-axis 1, 2, 3 ...; obstacles 10, 11, ...: ask with what was handed over
static bool answer(int body, int obs, const Pose& b, const Pose& o, int dim) {
    if (quiet) return false;
    if (body < 0 || obs < 0 || body >= int(want.size()) || obs >= int(place.size())) {
        hv::fail("pairs of a body and an obstacle are tested");
        return false;
    }
    compare("bodies are tested at the pose of the state", b, want[body], dim);
    compare("obstacles are tested at their own pose", o, place[obs], dim);
    ++asked[{body, obs}];
    return verdict[{body, obs}];
}
static int idOf(const double& first) {
    for (int i = 1; i < 13; ++i)
        if (hv::decide(hv::near(first, double(i), 1e-6))) return i;
    return -1;
}
static R3 turned(const double& c, const double& s) {
    R3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r.m[i][j] = double(i == j ? 1 : 0);
    r.m[0][0] = r.m[1][1] = c, r.m[0][1] = -s, r.m[1][0] = s;
    return r;
}
static Pose poseOf(const SuperEllipse& e) { return {{e.getPosition().at(0), e.getPosition().at(1), double(0)}, turned(cos(e.getAngle()), sin(e.getAngle()))}; }
static Pose poseOf(const fcl::CollisionObject<double>& o) {
    Pose p;
    const auto R = o.getRotation();
    const auto t = o.getTranslation();
    for (int i = 0; i < 3; ++i) {
        p.t[i] = t(i);
        for (int j = 0; j < 3; ++j) p.r.m[i][j] = R(i, j);
    }
    return p;
}
static int idOf(const fcl::CollisionObject<double>& o) {
    if (auto* e = dynamic_cast<const fcl::Ellipsoid<double>*>(o.geometry())) return idOf(e->radii(0));
    if (auto* m = dynamic_cast<const fcl::BVHModel<fcl::OBBRSS<double>>*>(o.geometry())) {  // farthest along x, up to the sampling
        double far = double(0);
        for (auto& v : m->vertices) {
            if (v(0) > far) far = v(0);
            if (-v(0) > far) far = -v(0);
        }
        for (int i = 10; i < 13; ++i)
            if (hv::decide(hv::near(far, double(i), 0.45))) return i;
    }
    return -1;
}
static bool hit(int a, int b, const Pose& p, const Pose& q, int dim) {
    if (a >= 10) return answer(b - 1, a - 10, q, p, dim);
    return answer(a - 1, b < 10 ? -1 : b - 10, p, q, dim);
}
static bool fclHit(const fcl::CollisionObject<double>& a, const fcl::CollisionObject<double>& b, int dim) { return hit(idOf(a), idOf(b), poseOf(a), poseOf(b), dim); }
bool hrm::isEllipseSeparated(const SuperEllipse& a, const SuperEllipse& b) {
    return !hit(idOf(a.getSemiAxis().at(0)), idOf(b.getSemiAxis().at(0)), poseOf(a), poseOf(b), 2);
}
static void start(int bodies, int obstacles, int dim) {
    verdict.clear(), asked.clear();
    for (int b = 0; b < bodies; ++b)
        for (int o = 0; o < obstacles; ++o) verdict[{b, o}] = hv::coin("hit");
    fcl::stub::oracle<double>() = [dim](const fcl::CollisionObject<double>& a, const fcl::CollisionObject<double>& b) { return fclHit(a, b, dim); };
}
static void finish(bool valid) {
    bool clear = true;
    for (auto& v : verdict) {
        clear = clear && !v.second;
        if (valid && !asked[v.first]) hv::fail("every body is tested against every obstacle");
    }
    if (valid) hv::check("a state in collision is not valid", hv::F(clear));
    else hv::check("a collision-free state is valid", hv::F(!clear));
    hv::reach(valid ? "valid" : "not valid");
}
HV_CASE_N(plane, 4) {
    const V lo{double(-50), double(-50)}, hi{double(50), double(50)};
    MultiBodyTree2D r(SuperEllipse({double(1), double(0.5)}, 1, {double(0), double(0)}, double(0), 5));
    const double lx = shard % 2 ? hv::real("lx", -5, 5) : double(1.5), ly = shard % 2 ? double(-1) : hv::real("ly", -5, 5), la = double(0.5);
    r.addBody(SuperEllipse({double(2), double(0.25)}, 1, {lx, ly}, la, 5));
    std::vector<SuperEllipse> obs{SuperEllipse({double(10), double(4)}, shard < 2 ? 1 : 0.5, {double(3), double(-2)}, double(0.25), 5),
                                  SuperEllipse({double(11), double(3)}, shard < 2 ? 0.5 : 1, {double(-8), double(1)}, double(-1), 5)};
    oi::OMPL2D p(lo, hi, r, {}, obs);
    const double x = hv::real("x", -50, 50), y = hv::real("y", -50, 50), th = hv::angle("heading"), c = cos(th), s = sin(th);
    want = {{{x, y, double(0)}, turned(c, s)},
            {{x + c * lx - s * ly, y + s * lx + c * ly, double(0)}, turned(c * cos(la) - s * sin(la), s * cos(la) + c * sin(la))}};
    place.clear();
    for (auto& o : obs) place.push_back(poseOf(o));
    start(2, 2, 2);
    bool valid = false;
    hv::guarded("validity", [&] {
        if (shard / 2) {  // neither does another planner with another robot and other obstacles
            quiet = true;
            MultiBodyTree2D other(SuperEllipse({double(7), double(6)}, 1, {double(0), double(0)}, double(0), 5));
            other.addBody(SuperEllipse({double(8), double(6)}, 1, {double(4), double(2)}, double(0.25), 5));
            oi::OMPL2D earlier(lo, hi, other, {}, {SuperEllipse({double(12), double(4)}, 1, {double(6), double(5)}, double(0.5), 5)});
            earlier.setup(shard, 0);
            ob::ScopedState<ob::SE2StateSpace> q(earlier.ss_->getStateSpace());
            q->setXY(double(-3), double(1)), q->setYaw(double(0.5));
            earlier.ss_->getSpaceInformation()->isValid(q.get());
        }
        p.setup(shard, 0);
        if (shard % 2) p.setup(2, 1);
        ob::ScopedState<ob::SE2StateSpace> q(p.ss_->getStateSpace());
        if (shard / 2) {  // a query before leaves no trace
            quiet = true;
            q->setXY(double(3), double(7)), q->setYaw(double(1));
            p.ss_->getSpaceInformation()->isValid(q.get());
        }
        quiet = false;
        q->setX(x), q->setY(y), q->setYaw(th);
        valid = p.ss_->getSpaceInformation()->isValid(q.get());
    });
    finish(valid);
}
static SuperQuadrics solid(int id, bool round, const V& at, const Eigen::Quaterniond& q) {
    return SuperQuadrics({double(id), double(0.5), double(0.25)}, {double(round ? 1 : 0.5), double(1)}, at, q, 5);
}
static Pose poseOf(const SuperQuadrics& b) {
    const auto q = b.getQuaternion();
    const double v[4] = {q.w(), q.x(), q.y(), q.z()};
    return {{b.getPosition().at(0), b.getPosition().at(1), b.getPosition().at(2)}, rotOf(v)};
}
static Pose chain(const R3& g, const double* gt, const R3& l, const double* lt) {
    Pose p;
    apply(g, lt, p.t);
    for (int i = 0; i < 3; ++i) p.t[i] = p.t[i] + gt[i];
    p.r = g * l;
    return p;
}
static R3 rotQ(const Eigen::Quaterniond& q) {
    const double v[4] = {q.w(), q.x(), q.y(), q.z()};
    return rotOf(v);
}
HV_CASE_N(space, 6) {
    const V lo{double(-50), double(-50), double(-50)}, hi{double(50), double(50), double(50)};
    const Eigen::Quaterniond I(1, 0, 0, 0), A(0.6, 0, 0.8, 0), B(0.8, 0.6, 0, 0);
    const double lt[3] = {hv::real("l", -5, 5), double(1), double(-0.5)};
    MultiBodyTree3D r(solid(1, true, {double(0), double(0), double(0)}, I));
    r.addBody(solid(2, true, {lt[0], lt[1], lt[2]}, A));
    std::vector<SuperQuadrics> obs{solid(10, shard < 3, {double(1), double(2), double(3)}, A)};
    if (shard % 2) obs.push_back(solid(11, shard >= 3, {double(-4), double(5), double(1)}, B));
    oi::OMPL3D p(lo, hi, r, {}, obs, {});
    const double t[3] = {hv::real("x", -50, 50), hv::real("y", -50, 50), hv::real("z", -50, 50)};
    double q[4];
    turn(hv::angle("half"), shard % 3, q);
    want = {{{t[0], t[1], t[2]}, rotOf(q)}, chain(rotOf(q), t, rotQ(A), lt)};
    place.clear();
    for (auto& o : obs) place.push_back(poseOf(o));
    start(2, int(obs.size()), 3);
    bool valid = false;
    hv::guarded("validity", [&] {
        if (shard >= 3) {
            quiet = true;
            MultiBodyTree3D other(solid(7, true, {double(0), double(0), double(0)}, I));
            other.addBody(solid(8, true, {double(4), double(2), double(1)}, B));
            oi::OMPL3D earlier(lo, hi, other, {}, {solid(12, true, {double(6), double(5), double(4)}, B)}, {});
            earlier.setup(shard, 0);
            ob::ScopedState<ob::SE3StateSpace> x(earlier.ss_->getStateSpace());
            x->setXYZ(double(-3), double(1), double(2));
            x->rotation().x = double(0), x->rotation().y = double(0.6), x->rotation().z = double(0), x->rotation().w = double(0.8);
            earlier.ss_->getSpaceInformation()->isValid(x.get());
        }
        p.setup(shard, 0);
        if (shard % 2) p.setup(2, 1);
        ob::ScopedState<ob::SE3StateSpace> x(p.ss_->getStateSpace());
        if (shard >= 3) {
            quiet = true;
            x->setXYZ(double(3), double(7), double(1));
            x->rotation().x = double(0.6), x->rotation().y = double(0), x->rotation().z = double(0), x->rotation().w = double(0.8);
            p.ss_->getSpaceInformation()->isValid(x.get());
        }
        quiet = false;
        x->setXYZ(t[0], t[1], t[2]);
        x->rotation().w = q[0], x->rotation().x = q[1], x->rotation().y = q[2], x->rotation().z = q[3];
        valid = p.ss_->getSpaceInformation()->isValid(x.get());
    });
    finish(valid);
}
HV_CASE_N(joints, 4) {
    const V lo{double(-50), double(-50), double(-50)}, hi{double(50), double(50), double(50)};
    const Eigen::Quaterniond I(1, 0, 0, 0), A(0.6, 0, 0.8, 0), B(0.8, 0.6, 0, 0);
    const double j[2] = {hv::real("j0", -1.5, 1.5), hv::real("j1", -1.5, 1.5)};
    KDL::stub::numJoints() = 2;
    // the pose of body k depends on the joints in an arbitrary way: positions are free, the second body turns
    const double f0 = hv::real("f0", -9, 9), f1 = hv::real("f1", -9, 9);
    double fq[2][4] = {{double(1), double(0), double(0), double(0)}, {}};
    turn(shard % 2 ? double(0.25) : hv::angle("half joint"), shard % 3, fq[1]);
    KDL::stub::fk() = [&](const std::vector<double>& v, const std::string& body, KDL::Frame& f) {
        const int k = body == "body1" ? 0 : body == "body2" ? 1 : -1;
        if (k < 0) return -1;
        if (!quiet) hv::check("joint values reach the kinematics", hv::F(v.size() == 2) && hv::eq(v[0], j[0]) && hv::eq(v[1], j[1]));
        for (int i = 0; i < 3; ++i) f.M.q[i] = quiet ? double(0) : fq[k][i + 1];
        f.M.q[3] = quiet ? double(1) : fq[k][0];
        f.p = quiet ? KDL::Vector(double(1), double(1), double(1)) : k ? KDL::Vector(double(2), f1, double(0.5)) : KDL::Vector(f0, double(-1), double(3));
        return 0;
    };
    quiet = true;
    MultiBodyTree3D r(solid(1, true, {double(0), double(0), double(0)}, I));
    const double lt[2][3] = {{double(0.5), double(1), double(-0.5)}, {double(-2), double(0.25), double(1)}};
    r.addBody(solid(2, true, {lt[0][0], lt[0][1], lt[0][2]}, A));
    r.addBody(solid(3, true, {lt[1][0], lt[1][1], lt[1][2]}, I));
    std::vector<SuperQuadrics> obs{solid(10, shard < 2, {double(1), double(2), double(3)}, B)};
    const double t[3] = {hv::real("x", -50, 50), hv::real("y", -50, 50), double(-6)};
    double q[4];
    turn(shard % 2 ? hv::angle("half") : double(0.5), (shard + 1) % 3, q);
    const R3 g = rotOf(q);
    want = {{{t[0], t[1], t[2]}, g}};
    for (int k = 0; k < 2; ++k) {
        const double ft[3] = {k ? double(2) : f0, k ? f1 : double(-1), k ? double(0.5) : double(3)};
        const Pose body = chain(rotOf(fq[k]), ft, rotQ(k ? I : A), lt[k]);
        want.push_back(chain(g, t, body.r, body.t));
    }
    place.clear();
    for (auto& o : obs) place.push_back(poseOf(o));
    start(3, 1, 3);
    bool valid = false;
    hv::guarded("validity", [&] {
        oi::OMPL3DArticulated p(lo, hi, r, "robot.urdf", {}, obs, {});
        p.setup(shard, 0);
        ob::ScopedState<ob::CompoundStateSpace> x(p.ss_->getStateSpace());
        auto& se3 = *x->as<ob::SE3StateSpace::StateType>(0);
        auto& rn = *x->as<ob::RealVectorStateSpace::StateType>(1);
        if (shard >= 2) {
            se3.setXYZ(double(3), double(7), double(1)), rn[0] = double(1), rn[1] = double(-1);
            se3.rotation().x = double(0.6), se3.rotation().w = double(0.8);
            p.ss_->getSpaceInformation()->isValid(x.get());
        }
        quiet = false;
        se3.setXYZ(t[0], t[1], t[2]), rn[0] = j[0], rn[1] = j[1];
        se3.rotation().w = q[0], se3.rotation().x = q[1], se3.rotation().y = q[2], se3.rotation().z = q[3];
        valid = p.ss_->getSpaceInformation()->isValid(x.get());
    });
    finish(valid);
}
