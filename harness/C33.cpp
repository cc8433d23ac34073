// HV-ORACLE: configurations, forward kinematics (arbitrary function of the harness), interpolation and bodies re-computed independently; boundaries against those of fresh single bodies; every edge traced to a validated motion whose fitted ellipsoids enclose every body at every step
// HV-BOUND: base and 2 links, 2 joints; 2 to 5 slices (start, goal, random ones for every random number); one obstacle at any place, link offsets and joints arbitrary, forward kinematics turning and moving with the joints; 1 to 2 vertices per slice, arbitrary verdicts; 3 interpolation steps; one refinement
// HV-OUTSIDE: more links, joints, slices; that an enclosing ellipsoid encloses its arguments (C14, replaced by a recorder); quality of the random numbers
// HV-ASSUME: getMVCE3D encloses both its arguments (C14)
// HV-CUT: getMVCE3D
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/ProbHRM3D.h"
#include "ompl/util/RandomNumbers.h"
#include "rot.hpp"
using namespace hrm;
using planners::Vertex;
typedef std::vector<double> V;
// ------------------------------------------------------------------------------------ recorder of enclosing ellipsoids
struct Body {
    V a, q;
};
static std::vector<std::vector<Body>> hulls;  // what the hull with first semi-axis 100 + i encloses
static std::vector<Body> contents(const V& a, const V& q) {
    for (size_t i = 0; i < hulls.size(); ++i)
        if (hv::decide(hv::eq(a[0], double(100.0 + double(i))))) return hulls[i];
    return {{a, q}};
}
SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a, const std::vector<double>& b, const Eigen::Quaterniond& qa, const Eigen::Quaterniond& qb, const Index num) {
    std::vector<Body> in = contents(a, {qa.w(), qa.x(), qa.y(), qa.z()});
    for (auto& x : contents(b, {qb.w(), qb.x(), qb.y(), qb.z()})) in.push_back(x);
    hulls.push_back(in);
    return SuperQuadrics({double(99.0 + double(hulls.size())), double(1), double(1)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(1, 0, 0, 0), num);
}
// ------------------------------------------------------------------------------------ the robot
static const double AX[3][3] = {{1.5, 0.5, 1}, {0.75, 0.25, 0.5}, {2, 0.5, 0.25}}, LQ[2][4] = {{0.8, 0, 0.6, 0}, {1, 0, 0, 0}};
static double LT[2][3];
static bool turning;  // the second body turns with the first joint
static void frame(const V& j, int k, double p[3], double q[4]) {
    p[0] = k ? 2.0 * j[0] : j[1], p[1] = k ? j[1] - j[0] : double(1), p[2] = k ? double(0.5) : 3.0 * j[0];
    q[0] = k ? double(1) : double(0.8), q[1] = k ? double(0) : double(0.6), q[2] = q[3] = double(0);
    if (k && turning) turn(j[0] * 0.5, 2, q);
}
static void kinematics() {
    KDL::stub::numJoints() = 2;
    KDL::stub::fk() = [](const std::vector<double>& v, const std::string& body, KDL::Frame& f) {
        const int k = body == "body1" ? 0 : body == "body2" ? 1 : -1;
        if (k < 0 || v.size() != 2) return -1;
        double p[3], q[4];
        frame(v, k, p, q);
        f.M.q[0] = q[1], f.M.q[1] = q[2], f.M.q[2] = q[3], f.M.q[3] = q[0];
        f.p = KDL::Vector(p[0], p[1], p[2]);
        return 0;
    };
}
static SuperQuadrics sq(const double* a, const double& x, const double& y, const double& z, const double q[4], int n = 4) {
    return SuperQuadrics({a[0], a[1], a[2]}, {1, 1}, {x, y, z}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), n);
}
static void mul(const double q[4], const double l[4], double p[4]) {
    p[0] = q[0] * l[0] - q[1] * l[1] - q[2] * l[2] - q[3] * l[3], p[1] = q[0] * l[1] + q[1] * l[0] + q[2] * l[3] - q[3] * l[2];
    p[2] = q[0] * l[2] - q[1] * l[3] + q[2] * l[0] + q[3] * l[1], p[3] = q[0] * l[3] + q[1] * l[2] - q[2] * l[1] + q[3] * l[0];
}
static const double ID[4] = {1, 0, 0, 0};
static MultiBodyTree3D robot() {
    kinematics();
    MultiBodyTree3D r(sq(AX[0], 0, 0, 0, ID));
    for (int k = 0; k < 2; ++k) r.addBody(sq(AX[k + 1], LT[k][0], LT[k][1], LT[k][2], LQ[k]));
    return r;
}
// place and orientation of body b in configuration c
static void placed(const V& c, int b, double p[3], double q[4]) {
    const double base[4] = {c[3], c[4], c[5], c[6]};
    for (int i = 0; i < 3; ++i) p[i] = c[i];
    for (int i = 0; i < 4; ++i) q[i] = base[i];
    if (!b) return;
    double fp[3], fq[4], a[3], o[3], g[4];
    frame({c[7], c[8]}, b - 1, fp, fq);
    apply(rotOf(fq), LT[b - 1], a);
    for (int i = 0; i < 3; ++i) a[i] = a[i] + fp[i];
    apply(rotOf(base), a, o);
    for (int i = 0; i < 3; ++i) p[i] = p[i] + o[i];
    mul(base, fq, g), mul(g, LQ[b - 1], q);
}
static hv::F sameM(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, const double off[3]) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return hv::F(false);
    hv::F f(true);
    for (int j = 0; j < a.cols(); ++j)
        for (int i = 0; i < a.rows(); ++i) f = f && hv::near(a(i, j) + off[i], b(i, j), 1e-6);
    return f;
}
static hv::F sameTurn(const V& a, const double q[4]) {
    hv::F p(true), n(true);
    for (int i = 0; i < 4; ++i) p = p && hv::near(a[i], q[i], 1e-6), n = n && hv::near(a[i], -q[i], 1e-6);
    return p || n;
}
struct Check {
    V a, b;
    std::vector<double> tags;
    bool free;
};
struct Prob : planners::ProbHRM3D {
    using ProbHRM3D::ProbHRM3D;
    std::vector<BoundaryInfo> swept;
    std::vector<BoundaryMesh> meshes;
    std::vector<V> given;      // configurations, when the sampling is replaced
    std::vector<size_t> ends;  // vertices after each slice
    std::vector<Check> log;
    int perSlice = 1, stop = 2;
    bool far = false, join = true;
    std::vector<int> sweeps;
    void connectMultiSlice() override {
        if (join) ProbHRM3D::connectMultiSlice();
    }
    void sampleOrientations() override {
        if (given.empty()) return ProbHRM3D::sampleOrientations();
        v_.push_back(given.at(param_.numSlice));
        q_.emplace_back(v_.back()[3], v_.back()[4], v_.back()[5], v_.back()[6]);
    }
    void sweepLineProcess() override {
        swept.push_back(sliceBound_), meshes.push_back(sliceBoundMesh_), sweeps.push_back(int(param_.numLineX * 100 + param_.numLineY));
        FreeSegment2D f;
        for (int i = 0; i < perSlice; ++i) {
            f.ty.push_back(double(0.5 + 0.25 * i));
            f.xL.push_back({double(-1)}), f.xU.push_back({double(1)});
            f.xM.push_back({double(0.25) * double(int(swept.size()))});
        }
        freeSegOneSlice_.tx = {far && swept.size() == 2 ? hv::real("tx", -9, 9) : double(0.25)};
        freeSegOneSlice_.freeSegmentYZ = {f};
    }
    bool isSameSliceTransitionFree(const V&, const V&) override { return true; }
    bool isMultiSliceTransitionFree(const V& a, const V& b) override {
        std::vector<double> t;
        for (auto& e : tfe_) t.push_back(e.getSemiAxis().at(0));
        log.push_back({a, b, t, log.size() < 3 ? hv::coin("free") : true});
        return log.back().free;
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V&, const Index, const double) override {
        if (ends.empty() || ends.back() != res_.graphStructure.vertex.size()) ends.push_back(res_.graphStructure.vertex.size());
        if (int(swept.size()) >= stop) return {Vertex(0)};
        return {};
    }
    std::vector<V> getInterpolatedSolutionPath(const unsigned int) override { return {}; }
};
static PlanningRequest request(const V& start, const V& goal) {
    PlanningRequest r;
    r.isRobotRigid = false;
    r.start = start, r.goal = goal;
    r.parameters.numLineX = r.parameters.numLineY = 1;
    r.parameters.numPoint = 3;
    r.parameters.boundaryLimits = {-4.0, 4.0, -4.0, 4.0, -2.0, 2.0};
    return r;
}
static void offsets(bool free) {
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 3; ++i) LT[k][i] = free && k == i ? hv::real("l" + std::to_string(k), -5, 5) : double(k ? 1 - i : i - 0.5);
}
static const double OA[3] = {3, 2, 1}, ARENA[3] = {20, 15, 10}, OQ[4] = {0.6, 0.8, 0, 0};
static Prob planner(const PlanningRequest& r, const double& ox) {
    return Prob(robot(), "robot.urdf", std::vector<SuperQuadrics>{sq(ARENA, 0, 0, 0, ID)}, std::vector<SuperQuadrics>{sq(OA, ox, 1, 2, OQ)}, r);
}
// the slice's boundaries are those of all bodies in configuration c with the base at the origin
static void boundaries(const BoundaryInfo& got, const BoundaryMesh& mesh, V c, const double& ox) {
    for (int i = 0; i < 3; ++i) c[i] = double(0);
    const SuperQuadrics obs = sq(OA, ox, 1, 2, OQ), arena = sq(ARENA, 0, 0, 0, ID);
    hv::check("a boundary per body", hv::F(got.obstacle.size() == 3 && got.arena.size() == 3 && mesh.obstacle.size() == 3 && mesh.arena.size() == 3));
    for (int b = 0; b < 3; ++b) {
        double p[3], q[4];
        placed(c, b, p, q);
        const SuperQuadrics alone = sq(AX[b], 0, 0, 0, q);
        std::vector<hv::F> o, a, m;
        for (auto& g : got.obstacle) o.push_back(sameM(g, obs.getMinkSum3D(alone, 1), p));
        for (auto& g : got.arena) a.push_back(sameM(g, arena.getMinkSum3D(alone, -1), p));
        for (auto& g : mesh.obstacle) m.push_back(sameM(g.vertices, obs.getMinkSum3D(alone, 1), p));
        hv::check("the slice has the obstacle boundary of every body in its configuration", hv::any(o));
        hv::check("the slice has the arena boundary of every body in its configuration", hv::any(a));
        hv::check("the slice is swept with the mesh of every body in its configuration", hv::any(m));
    }
}
// start, goal, random slices
HV_CASE_N(sampled, 3) {
    turning = false;
    offsets(false);
    double q[4];
    turn(hv::angle("half"), shard, q);
    const V start{double(1), double(2), double(3), q[0], q[1], q[2], q[3], hv::real("s0", -1.5, 1.5), double(0.5)};
    const V goal{double(-1), double(0), double(2), double(0.5), double(0.5), double(-0.5), double(0.5), double(-0.25), hv::real("g1", -1.5, 1.5)};
    ompl::stub::uniform() = [](const double& lo, const double& hi) { return lo + (hi - lo) * hv::randomUnit("joint"); };
    Prob p(robot(), "robot.urdf", std::vector<SuperQuadrics>{}, std::vector<SuperQuadrics>{}, request(start, goal));
    p.join = false;  // joining is the subject of other cases
    p.stop = 2 + shard;
    const double limit = 1000;
    hv::guarded("planning", [&] { p.plan(limit); });
    const auto& v = p.res_.graphStructure.vertex;
    hv::check("one vertex per slice", hv::F(v.size() == p.swept.size() && int(p.param_.numSlice) == int(v.size())));
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].size() != 9) {
            hv::fail("vertices have a pose and the joints");
            return;
        }
        const double vq[4] = {v[i][3], v[i][4], v[i][5], v[i][6]};
        hv::check("positions are those of the sweep line", hv::near(v[i][0], 0.25, 1e-9) && hv::near(v[i][1], 0.5, 1e-9) && hv::near(v[i][2], 0.25 * double(int(i) + 1), 1e-9));
        if (i < 2) {
            const V& c = i ? goal : start;
            hv::check("the first slices are the start and the goal orientation", sameTurn({c[3], c[4], c[5], c[6]}, vq));
            hv::check("the first slices have the joints of start and goal", hv::near(v[i][7], c[7], 1e-9) && hv::near(v[i][8], c[8], 1e-9));
        } else {
            hv::check("random orientations are unit quaternions", hv::near(vq[0] * vq[0] + vq[1] * vq[1] + vq[2] * vq[2] + vq[3] * vq[3], 1.0, 1e-6));
            for (int k = 7; k < 9; ++k) hv::check("random joints are within half a turn", hv::le(-1.5708, v[i][k]) && hv::le(v[i][k], 1.5708));
        }
    }
    hv::reach(p.res_.solved ? "solved" : "out of time");
}
static V cfg(double w, double x, double y, double z, const double& a, const double& b) { return {double(0), double(0), double(0), double(w), double(x), double(y), double(z), a, b}; }
HV_CASE_N(slices, 4) {
    turning = false;
    offsets(shard % 2);
    const double ox = shard % 2 ? double(5) : hv::real("ox", -9, 9), j = hv::real("j", -1.5, 1.5);
    const V far(9, double(0));
    Prob p = planner(request(cfg(1, 0, 0, 0, 0, 0), cfg(1, 0, 0, 0, 0, 0)), ox);
    p.given = {cfg(0.8, 0.6, 0, 0, j, 0.5), cfg(0.48, 0.6, -0.64, 0, 0.25, shard < 2 ? j : double(-1)), cfg(0.6, 0, 0, 0.8, -0.5, 0.75)};
    p.stop = 3;
    p.param_.numSlice = 0;
    const double limit = 1000;
    hv::guarded("planning", [&] { p.plan(limit); });
    const size_t n = p.swept.size();
    for (size_t i = 0; i < n; ++i) boundaries(p.swept[i], p.meshes[i], p.given[i], ox);
    // refinement: the same boundaries, configurations and twice the lines
    if (shard >= 2 && n == 3) {
        const auto old = p.res_.graphStructure;
        p.res_.solved = false;
        p.stop = 100;
        hv::guarded("refinement", [&] { p.refineExistRoadmap(limit); });
        const auto& g = p.res_.graphStructure;
        hv::check("the roadmap so far is kept", hv::F(g.vertex.size() > old.vertex.size()));
        for (size_t i = n; i < p.swept.size(); ++i) {
            hv::check("lines are doubled", hv::F(p.sweeps[i] == 202));
            boundaries(p.swept[i], p.meshes[i], p.given[i - n], ox);
        }
        for (size_t i = 0; i < g.vertex.size(); ++i)
        {
            const V &have = g.vertex[i], &want = p.given[i % n];
            const double q[4] = {want[3], want[4], want[5], want[6]};
            hv::check("every vertex has the configuration of its slice", have.size() == 9 ? sameTurn({have[3], have[4], have[5], have[6]}, q) && hv::near(have[7], want[7], 1e-9) && hv::near(have[8], want[8], 1e-9) : hv::F(false));
        }
    }
    hv::reach(n == 3 ? "three slices" : "out of time");
}
// edges between slices: validated, with the nearest slice, fitted to the very motion of every body
static void joined(int slices, int perSlice, bool far, double turnBy) {
    turning = turnBy != 0;
    offsets(false);
    hulls.clear();
    const double j = hv::real("j", -1.5, 1.5);
    Prob p = planner(request(cfg(1, 0, 0, 0, 0, 0), cfg(1, 0, 0, 0, 0, 0)), double(5));
    // all turn about one axis: the steps between them are known
    static const double H[5] = {0.25, -0.5, 1, 0.125, -0.75};
    for (int i = 0; i < slices; ++i) p.given.push_back(cfg(cos(H[i]), 0, sin(H[i]), 0, turning ? double(0.5 - turnBy * i) : i == 1 ? j : double(0.25 * i), i == 0 && !turning ? j : double(0.5 - 0.25 * i)));
    p.stop = slices, p.perSlice = perSlice, p.far = far;
    const double limit = 1000;
    hv::guarded("planning", [&] { p.plan(limit); });
    const auto& g = p.res_.graphStructure;
    auto sliceOf = [&](size_t v) { return int(v) / perSlice; };
    std::vector<int> tried(slices, 0), hit(slices, 0);
    auto nearestOf = [&](int s, int o) {  // o is nearest to s among the slices before it
        auto d2 = [&](int i) {
            double d = double(0);
            for (int k = 3; k < 9; ++k) d = d + (p.given[s][k] - p.given[i][k]) * (p.given[s][k] - p.given[i][k]);
            return d;
        };
        hv::F f(true);
        for (int i = 0; i < s; ++i) f = f && hv::le(d2(o), d2(i) + 1e-6);
        return f;
    };
    for (size_t e = 0; e < g.edge.size(); ++e) {
        const size_t i = g.edge[e].first, k = g.edge[e].second;
        if (i >= g.vertex.size() || k >= g.vertex.size()) {
            hv::fail("edges join two vertices");
            return;
        }
        const V &a = g.vertex[i], &b = g.vertex[k];
        double d2 = double(0);
        for (int m = 0; m < 9; ++m) d2 = d2 + (a[m] - b[m]) * (a[m] - b[m]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
        const int si = std::min(sliceOf(i), sliceOf(k)), sk = std::max(sliceOf(i), sliceOf(k));
        if (si == sk) continue;
        hv::check("a new slice is joined to the nearest one", nearestOf(sk, si));
        hit[sk] = 1;
        const Check* c = nullptr;
        for (auto& l : p.log) {
            if (!l.free) continue;
            hv::F x(true), y(true);
            for (int m = 0; m < 9; ++m) x = x && hv::near(l.a[m], a[m], 1e-9) && hv::near(l.b[m], b[m], 1e-9), y = y && hv::near(l.a[m], b[m], 1e-9) && hv::near(l.b[m], a[m], 1e-9);
            if (hv::decide(x || y)) c = &l;
        }
        if (!c) {
            hv::fail("every edge between slices was validated");
            return;
        }
        if (c->tags.size() != 3) {
            hv::fail("the bridge slice has an ellipsoid for every body");
            return;
        }
        for (int body = 0; body < 3; ++body) {
            const std::vector<Body> in = contents({c->tags[body]}, {});
            for (int m = 0; m <= 3; ++m) {
                const double t = double(m) / 3.0, h = (1.0 - t) * H[si] + t * H[sk];
                const V step{double(0), double(0), double(0), cos(h), double(0), sin(h), double(0), (1.0 - t) * p.given[si][7] + t * p.given[sk][7], (1.0 - t) * p.given[si][8] + t * p.given[sk][8]};
                double pos[3], q[4];
                placed(step, body, pos, q);
                std::vector<hv::F> some;
                for (auto& b : in)
                    if (b.a.size() == 3) some.push_back(hv::near(b.a[0], double(AX[body][0]), 1e-9) && hv::near(b.a[1], double(AX[body][1]), 1e-9) && hv::near(b.a[2], double(AX[body][2]), 1e-9) && sameTurn(b.q, q));
                hv::check("the fitted ellipsoid encloses the body at every step of the motion", hv::any(some));
            }
        }
    }
    for (auto& l : p.log)
        for (int s = 1; s < slices; ++s)
            for (int o = 0; o < s; ++o) {
                auto of = [&](const V& v, int i) { return hv::decide(hv::near(v[5], p.given[i][5], 1e-9)); };
                if ((of(l.a, s) && of(l.b, o)) || (of(l.a, o) && of(l.b, s))) tried[s] = std::max(tried[s], l.free ? 2 : 1);
            }
    for (int s = 1; s < int(p.swept.size()); ++s) {
        if (!far && !tried[s]) hv::fail("every new slice is tried against another one");
        if (tried[s] == 2 && !hit[s]) hv::fail("free motions join the new slice");
    }
    hv::reach(g.edge.size() > size_t((perSlice - 1) * slices) ? "joined" : "not joined");
}
HV_CASE_N(edges, 3) { joined(2 + shard, 1, false, 0); }
HV_CASE_N(turningEdges, 2) { joined(2 + shard, 1, false, shard ? 0.25 : -0.75); }
HV_CASE(farEdges) { joined(2, 1, true, 0); }
HV_CASE(manyEdges) { joined(2, 2, false, 0.5); }
// ------------------------------------------------------------------------------------ validation of a motion
struct Valid : planners::ProbHRM3D {
    using ProbHRM3D::ProbHRM3D;
    std::vector<std::pair<int, V>> asked;
    int limit = 0;
    bool isPtInCFree(const Index body, const std::vector<double>& p) override {
        asked.push_back({int(body), p});
        return int(asked.size()) >= limit || hv::coin("free");
    }
};
HV_CASE_N(motion, 4) {
    turning = shard % 2;
    offsets(true);
    PlanningRequest r = request(cfg(1, 0, 0, 0, 0, 0), cfg(1, 0, 0, 0, 0, 0));
    const int steps = 2 + shard / 2;
    r.parameters.numPoint = steps;
    const double ha = 0.25, hb = shard / 2 ? -0.75 : 1.0;
    V a = cfg(cos(ha), 0, sin(ha), 0, turning ? double(0.5) : hv::real("j", -1.5, 1.5), double(-1)), b = cfg(cos(hb), 0, sin(hb), 0, double(-0.25), hv::real("k", -1.5, 1.5));
    a[0] = hv::real("x", -9, 9), b[1] = hv::real("y", -9, 9), b[2] = double(1);
    Valid p(robot(), "robot.urdf", std::vector<SuperQuadrics>{sq(ARENA, 0, 0, 0, ID)}, std::vector<SuperQuadrics>{sq(OA, 5, 1, 2, OQ)}, r);
    p.limit = 3 * (steps + 1) - 2;
    bool ok = false;
    hv::guarded("validation", [&] { ok = p.isMultiSliceTransitionFree(a, b); });
    const size_t n = p.asked.size();
    std::vector<std::vector<hv::F>> seen(3 * (steps + 1));
    for (auto& x : p.asked) {
        std::vector<hv::F> some;
        for (int m = 0; m <= steps; ++m) {
            const double t = double(m) / double(steps), h = (1.0 - t) * ha + t * hb;
            V c{double(0), double(0), double(0), cos(h), double(0), sin(h), double(0)};
            for (int k = 0; k < 3; ++k) c[k] = (1.0 - t) * a[k] + t * b[k];
            for (int k = 7; k < 9; ++k) c.push_back((1.0 - t) * a[k] + t * b[k]);
            double pos[3], q[4];
            if (x.first < 0 || x.first > 2) {
                hv::fail("bodies of the robot are tested");
                return;
            }
            placed(c, x.first, pos, q);
            hv::F f = hv::near(x.second[0], pos[0], 1e-6) && hv::near(x.second[1], pos[1], 1e-6) && hv::near(x.second[2], pos[2], 1e-6);
            some.push_back(f);
            seen[m * 3 + x.first].push_back(f);
        }
        hv::check("bodies are tested where they are at a step", hv::any(some));
    }
    if (ok)
        for (auto& s : seen) hv::check("an accepted motion is tested at every step for every body", hv::any(s));
    else hv::check("a motion is rejected for a reason", hv::F(n > 0));
    hv::reach(ok ? "accepted" : "rejected");
}
