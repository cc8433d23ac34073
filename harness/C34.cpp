// HV-ORACLE: interpolated configurations and the places of all bodies re-computed independently; the collision library is a recorder with an arbitrary verdict per step, body and obstacle
// HV-BOUND: rigid robots of base and one link and articulated ones with base and 2 links, 2 joints and arbitrary forward kinematics; 2 obstacles (one ellipsoid, one superquadric); 2 or 3 interpolation steps; two free coordinates of the ends at a time, up to 3 verdicts free and the rest clear; after another motion was checked; edges of a roadmap of two slices
// HV-OUTSIDE: more bodies, obstacles, steps; the narrow phase (C31); motion between the steps
#include "hrm/planners/HRM3DAblation.h"
#include "rot.hpp"
using namespace hrm;
typedef std::vector<double> V;
static const double ID[4] = {1, 0, 0, 0}, LQ[2][4] = {{0.8, 0, 0.6, 0}, {1, 0, 0, 0}}, OP[2][3] = {{5, 1, 2}, {-4, 3, 0.5}}, OQ[2][4] = {{0.6, 0.8, 0, 0}, {0.8, 0, 0, 0.6}};
static double LT[2][3];
static SuperQuadrics solid(int id, bool round, const double* p, const double* q) {
    return SuperQuadrics({double(id), double(0.5), double(0.25)}, {double(round || id == 11 ? 1 : 0.5), double(round || id == 10 ? 1 : 0.5)}, {double(p[0]), double(p[1]), double(p[2])}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), 5);
}
static void frame(const V& j, int k, double p[3], double q[4]) {
    p[0] = k ? 2.0 * j[0] : j[1], p[1] = k ? j[1] - j[0] : double(1), p[2] = k ? double(0.5) : 3.0 * j[0];
    q[0] = k ? double(1) : double(0.8), q[1] = k ? double(0) : double(0.6), q[2] = q[3] = double(0);
}
static MultiBodyTree3D robot(int links, bool joints) {
    if (joints) {
        KDL::stub::numJoints() = 2;
        KDL::stub::fk() = [](const std::vector<double>& v, const std::string& body, KDL::Frame& f) {
            const int k = body == "body1" ? 0 : body == "body2" ? 1 : -1;
            if (k < 0 || v.size() != 2) return -1;
            double p[3], q[4];
            frame(v, k, p, q);
            f.M.q[0] = q[1], f.M.q[1] = q[2], f.M.q[2] = q[3], f.M.q[3] = q[0];
            f.p = KDL::Vector(p[0], p[1], p[2]);
            return 0;
        };
    }
    const double O[3] = {0, 0, 0};
    MultiBodyTree3D r(solid(1, true, O, ID));
    for (int k = 0; k < links; ++k) {
        for (int i = 0; i < 3; ++i) LT[k][i] = double(k ? 1 - i : i - 0.5);
        r.addBody(solid(2 + k, true, LT[k], LQ[k]));
    }
    return r;
}
struct Pose {
    double t[3];
    R3 r;
};
static Pose placed(const V& c, int b, bool joints) {
    const double base[4] = {c[3], c[4], c[5], c[6]};
    Pose p;
    for (int i = 0; i < 3; ++i) p.t[i] = c[i];
    p.r = rotOf(base);
    if (!b) return p;
    double a[3], o[3];
    R3 l = rotOf(LQ[b - 1]);
    for (int i = 0; i < 3; ++i) a[i] = LT[b - 1][i];
    if (joints) {
        double fp[3], fq[4];
        frame({c[7], c[8]}, b - 1, fp, fq);
        apply(rotOf(fq), LT[b - 1], a);
        for (int i = 0; i < 3; ++i) a[i] = a[i] + fp[i];
        l = rotOf(fq) * l;
    }
    apply(p.r, a, o);
    for (int i = 0; i < 3; ++i) p.t[i] = p.t[i] + o[i];
    p.r = p.r * l;
    return p;
}
static Pose poseOf(const fcl::CollisionObject<double>& o) {
    Pose p;
    const auto R = o.getRotation();
    const auto t = o.getTranslation();
    for (int i = 0; i < 3; ++i) {
        p.t[i] = t(i);
        for (int j = 0; j < 3; ++j) p.r.m[i][j] = R(i, j);
    }
    return p;
}
static hv::F samePose(const Pose& a, const Pose& b) {
    hv::F f(true);
    for (int i = 0; i < 3; ++i) {
        f = f && hv::near(a.t[i], b.t[i], 1e-6);
        for (int j = 0; j < 3; ++j) f = f && hv::near(a.r.m[i][j], b.r.m[i][j], 1e-6);
    }
    return f;
}
static int meshed;  // the obstacle that is no ellipsoid
static int idOf(const fcl::CollisionObject<double>& o) {
    if (auto* e = dynamic_cast<const fcl::Ellipsoid<double>*>(o.geometry())) {
        for (int i = 1; i < 13; ++i)
            if (hv::decide(hv::near(e->radii(0), double(i), 1e-6) && hv::near(e->radii(1), double(0.5), 1e-6) && hv::near(e->radii(2), double(0.25), 1e-6)))
                return i == meshed ? -1 : i;
    }
    if (auto* m = dynamic_cast<const fcl::BVHModel<fcl::OBBRSS<double>>*>(o.geometry())) {  // farthest point along x
        double far = double(0);
        for (auto& v : m->vertices)
            if (v(0) > far) far = v(0);
        for (int i = 10; i < 13; ++i)
            if (hv::decide(hv::near(far, double(i), 0.2))) return i == meshed ? i : -1;
    }
    return -1;
}
struct Ask {
    int body, obs;
    Pose b;
    bool hit;
};
static std::vector<Ask> asked;
static int hits;   // verdicts that are free
static int index_;  // queries so far
static bool quiet;
static std::vector<int> freeAt;  // which queries are free
static void listen() {
    fcl::stub::oracle<double>() = [](const fcl::CollisionObject<double>& x, const fcl::CollisionObject<double>& y) {
        if (quiet) return false;
        const bool turned = idOf(x) >= 10;
        const auto &b = turned ? y : x, &o = turned ? x : y;
        Ask a{idOf(b) - 1, idOf(o) - 10, poseOf(b), false};
        if (a.obs < 0 || a.obs > 1 || a.body < 0 || a.body > 2) {
            hv::fail("pairs of a body and an obstacle are tested");
            return false;
        }
        double q[4] = {OQ[a.obs][0], OQ[a.obs][1], OQ[a.obs][2], OQ[a.obs][3]};
        Pose at;
        for (int i = 0; i < 3; ++i) at.t[i] = double(OP[a.obs][i]);
        at.r = rotOf(q);
        hv::check("obstacles are tested at their own place", samePose(poseOf(o), at));
        for (int f : freeAt)
            if (f == index_) a.hit = hv::coin("hit");
        ++index_;
        asked.push_back(a);
        return a.hit;
    };
}
static PlanningRequest request(const V& start, bool rigid, int steps) {
    PlanningRequest r;
    r.isRobotRigid = rigid;
    r.start = start, r.goal = start;
    r.parameters.numLineX = r.parameters.numLineY = 1;
    r.parameters.numPoint = steps;
    r.parameters.boundaryLimits = {-4.0, 4.0, -4.0, 4.0, -2.0, 2.0};
    return r;
}
static std::vector<SuperQuadrics> obstacles(int kind) {
    meshed = kind == 1 ? 10 : 11;
    return {solid(10, kind != 1, OP[0], OQ[0]), solid(11, kind == 1, OP[1], OQ[1])};
}
// all turn about y: the steps between are known
static V cfg(const double& x, const double& y, const double& z, double h) { return {x, y, z, cos(h), double(0), sin(h), double(0)}; }
static void compared(bool ok, const V& a, const V& b, double ha, double hb, int steps, int bodies, bool joints) {
    bool hit = false;
    std::vector<std::vector<hv::F>> seen((steps + 1) * bodies * 2);
    std::vector<Pose> at;
    for (int m = 0; m <= steps; ++m) {
        const double t = double(m) / double(steps), h = (1.0 - t) * ha + t * hb;
        V c = cfg(0, 0, 0, h);
        c.resize(a.size());
        for (size_t k = 0; k < a.size(); ++k)
            if (k < 3 || k > 6) c[k] = (1.0 - t) * a[k] + t * b[k];
        for (int j = 0; j < bodies; ++j) at.push_back(placed(c, j, joints));
    }
    for (auto& x : asked) {
        hit = hit || x.hit;
        if (x.body >= bodies) {
            hv::fail("bodies of the robot are tested");
            return;
        }
        std::vector<hv::F> some;
        for (int m = 0; m <= steps; ++m) {
            some.push_back(samePose(x.b, at[m * bodies + x.body]));
            seen[(m * bodies + x.body) * 2 + x.obs].push_back(some.back());
        }
        hv::check("bodies are tested where they are at a step of the motion", hv::any(some));
    }
    if (ok) {
        hv::check("a colliding motion is rejected", hv::F(!hit));
        for (auto& s : seen) hv::check("an accepted motion is tested at every step for every body and obstacle", hv::any(s));
    } else hv::check("a motion without collision is accepted", hv::F(hit));
    hv::reach(ok ? "accepted" : "rejected");
}
static const double HA = 0.25, HB[2] = {1, -0.75};
HV_CASE_N(rigid, 4) {
    const int steps = 2 + shard / 2;
    MultiBodyTree3D r = robot(1, false);
    V a = cfg(hv::real("x", -50, 50), 2, shard % 2 ? hv::real("z", -50, 50) : double(1), HA), b = cfg(1, shard % 2 ? double(-3) : hv::real("y", -50, 50), 0, HB[shard % 2]);
    bool ok = false;
    asked.clear(), index_ = 0, quiet = true;
    freeAt = shard == 0 ? std::vector<int>{0, 3, 11} : shard == 1 ? std::vector<int>{1, 6, 10} : shard == 2 ? std::vector<int>{2, 9, 15} : std::vector<int>{5, 7, 13};
    listen();
    hv::guarded("validation", [&] {
        planners::HRM3DAblation<planners::HRM3D> p(r, {}, obstacles(shard), request(a, true, steps));
        if (shard % 2) p.isMultiSliceTransitionFree(b, cfg(3, 3, 3, 2));
        quiet = false;
        ok = p.isMultiSliceTransitionFree(a, b);
    });
    compared(ok, a, b, HA, HB[shard % 2], steps, 2, false);
}
HV_CASE_N(joints, 4) {
    const int steps = 2 + shard / 2;
    MultiBodyTree3D r = robot(2, true);
    V a = cfg(hv::real("x", -50, 50), 2, 1, HA), b = cfg(1, -3, 0, HB[shard % 2]);
    a.push_back(hv::real("j", -1.5, 1.5)), a.push_back(double(0.5));
    b.push_back(double(-0.25)), b.push_back(shard % 2 ? double(1) : hv::real("k", -1.5, 1.5));
    bool ok = false;
    asked.clear(), index_ = 0, quiet = true;
    freeAt = shard == 0 ? std::vector<int>{0, 4, 17} : shard == 1 ? std::vector<int>{1, 8, 16} : shard == 2 ? std::vector<int>{2, 13, 23} : std::vector<int>{5, 7, 22};
    listen();
    hv::guarded("validation", [&] {
        planners::HRM3DAblation<planners::ProbHRM3D> p(r, "robot.urdf", {}, obstacles(shard), request(a, false, steps));
        if (shard % 2) p.isMultiSliceTransitionFree(b, b);
        quiet = false;
        ok = p.isMultiSliceTransitionFree(a, b);
    });
    compared(ok, a, b, HA, HB[shard % 2], steps, 3, true);
}
// edges between the slices of a roadmap exist exactly where motions were accepted
template <class P>
struct Road : planners::HRM3DAblation<P> {
    using planners::HRM3DAblation<P>::HRM3DAblation;
    int done = 0;
    void sweepLineProcess() override {
        ++done;
        FreeSegment2D f;
        f.ty = {double(0.5)}, f.xL = {{double(-1)}}, f.xU = {{double(1)}}, f.xM = {{double(0.25) * double(done)}};
        this->freeSegOneSlice_.tx = {double(0.25)};
        this->freeSegOneSlice_.freeSegmentYZ = {f};
    }
    bool isSameSliceTransitionFree(const V&, const V&) override { return true; }
    std::vector<planners::Vertex> getNearestNeighborsOnGraph(const V&, const Index, const double) override { return {}; }
};
template <class P>
static void road(P& p, int bodies, bool joints, int slices) {
    const auto& g = p.res_.graphStructure;
    if (int(g.vertex.size()) != slices) {
        hv::fail("a vertex per slice");
        return;
    }
    bool hit = false;
    for (auto& x : asked) hit = hit || x.hit;
    hv::check("slices are joined exactly when the motion is free", hv::F(g.edge.size() == (hit ? 0 : 1)));
    for (auto& e : g.edge) hv::check("an edge joins the slices", hv::F(e.first + e.second == 1 && e.first != e.second));
    // the motion of the two vertices was tested (in either direction): ends at least
    for (int v = 0; v < 2 && !hit; ++v)
        for (int b = 0; b < bodies; ++b)
            for (int o = 0; o < 2; ++o) {
                std::vector<hv::F> some;
                for (auto& x : asked)
                    if (x.body == b && x.obs == o) some.push_back(samePose(x.b, placed(g.vertex[v], b, joints)));
                hv::check("both ends of an edge were tested for every body and obstacle", hv::any(some));
            }
    hv::reach(hit ? "rejected" : "joined");
}
HV_CASE_N(roadmap, 2) {
    MultiBodyTree3D r = robot(shard ? 2 : 1, shard);
    V a = cfg(0, 0, 0, HA);
    if (shard) a.push_back(hv::real("j", -1.5, 1.5)), a.push_back(double(0.5));
    asked.clear(), index_ = 0, quiet = false;
    freeAt = shard ? std::vector<int>{3, 10, 17} : std::vector<int>{2, 7, 11};
    listen();
    if (shard) {
        PlanningRequest q = request(a, false, 2);
        q.goal[7] = double(-1), q.goal[3] = cos(double(1)), q.goal[5] = sin(double(1));
        Road<planners::ProbHRM3D> p(r, "robot.urdf", {}, obstacles(0), q);
        const double limit = 1;
        hv::guarded("planning", [&] {
            for (p.param_.numSlice = 0; p.param_.numSlice < 2;) {
                p.sampleOrientations();
                p.constructOneSlice(p.param_.numSlice++);
                p.numVertex_.slice = p.res_.graphStructure.vertex.size();
                p.vertexIdx_.push_back(p.numVertex_);
            }
            p.connectMultiSlice();
        });
        (void)limit;
        road(p, 3, true, 2);
    } else {
        PlanningRequest q = request(a, true, 2);
        q.parameters.numSlice = 2;
        Road<planners::HRM3D> p(r, {}, obstacles(0), q);
        hv::guarded("planning", [&] {
            p.q_ = {Eigen::Quaterniond(cos(double(0.25)), double(0), sin(double(0.25)), double(0)), Eigen::Quaterniond(cos(double(1)), double(0), sin(double(1)), double(0))};
            for (int i = 0; i < 2; ++i) {
                p.constructOneSlice(i);
                p.numVertex_.slice = p.res_.graphStructure.vertex.size();
                p.vertexIdx_.push_back(p.numVertex_);
            }
            p.connectMultiSlice();
        });
        road(p, 2, false, 2);
    }
}
