// HV-ORACLE: every C-space boundary of every slice against the Minkowski boundary of fresh single bodies placed at the orientation of that slice (offsets by plane or space kinematics), as a set of boundaries; orientations against their definition
// HV-BOUND: 2D: up to 3 slices at arbitrary headings (2 arbitrary) or 1 to 6 default headings; base and link with arbitrary offset, two obstacles at an arbitrary place and an arena, 5-point boundaries; inflated-robot planner (any obstacle place); 3D: 3 slices of fixed orientations plus one turned by any angle, base and link at an arbitrary offset, 4x4-point boundaries; random orientations for every random number
// HV-OUTSIDE: more bodies and finer boundaries; the Minkowski sums themselves (C10) and their meshes (C31)
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "hrm/planners/HRM3D.h"
#include "rot.hpp"
using namespace hrm;
typedef std::vector<double> V;
static const double piC = 3.1415926;
template <class Base>
struct Flat : Base {
    using Base::Base;
    V turns;
    std::vector<BoundaryInfo> swept;
    void sampleOrientations() override {
        if (turns.empty()) Base::sampleOrientations();
        else this->headings_ = turns;
    }
    void sweepLineProcess() override {
        swept.push_back(this->sliceBound_);
        auto& f = this->freeSegOneSlice_;
        f.ty = {double(0.5)};
        f.xL = {{double(-1)}}, f.xU = {{double(1)}}, f.xM = {{double(0)}};
    }
    void connectMultiSlice() override {}
    const Graph& build() {
        this->buildRoadmap();
        return this->res_.graphStructure;
    }
};
static hv::F same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, const double off[3]) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return hv::F(false);
    hv::F f(true);
    for (int j = 0; j < a.cols(); ++j)
        for (int i = 0; i < a.rows(); ++i) f = f && hv::near(a(i, j) + off[i], b(i, j), 1e-6);
    return f;
}
struct Want {
    BoundaryPoints alone;
    double off[3];
};
static void asSet(const std::string& label, const std::vector<BoundaryPoints>& got, const std::vector<Want>& want) {
    hv::check(label + ": as many as bodies", hv::F(got.size() == want.size()));
    for (auto& w : want) {
        std::vector<hv::F> some;
        for (auto& g : got) some.push_back(same(g, w.alone, w.off));
        hv::check(label, hv::any(some));
    }
}
static SuperEllipse ell(double a, double b, const double& x, const double& y, const double& t) { return SuperEllipse({a, b}, 1, {x, y}, t, 5); }
template <class P>
static void plane(const V& turns, double inflate, bool link, double la = 0) {
    const double ox = hv::real("ox", -9, 9), oy = hv::real("oy", -9, 9), lx = link ? hv::real("lx", -5, 5) : double(2);
    const std::vector<SuperEllipse> arena{ell(20, 15, 0, 0, 0)}, obs{ell(3, 2, ox, oy, 0.5), ell(1, 4, -4, 1, 0)};
    MultiBodyTree2D robot(ell(1.5, 0.5, 0, 0, 0));
    if (link) robot.addBody(ell(0.75, 0.25, lx, -1, la));
    PlanningRequest r;
    r.parameters.numSlice = turns.size();
    r.parameters.numLineY = 1;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    Flat<P> p(robot, arena, obs, r);
    p.turns = turns;
    Graph g;
    hv::guarded("slices", [&] { g = p.build(); });
    const auto& all = p.getCSpaceBoundary();
    if (all.size() != turns.size() || p.swept.size() != turns.size() || g.vertex.size() != turns.size()) {
        hv::fail("one boundary and one sweep per slice");
        return;
    }
    for (size_t s = 0; s < turns.size(); ++s) {
        const double h = turns[s], c = cos(h), n = sin(h);
        std::vector<Want> o, a;
        for (int k = 0; k < 3; ++k) {
            const SuperEllipse& body = k < 2 ? obs[k] : arena[0];
            const int sign = k < 2 ? 1 : -1;
            auto& list = k < 2 ? o : a;
            const double w = 1.0 + inflate;
            list.push_back({body.getMinkSum2D(ell(double(1.5 * w), double(0.5 * w), 0, 0, h), sign), {double(0), double(0), double(0)}});
            if (link) list.push_back({body.getMinkSum2D(ell(0.75, 0.25, 0, 0, h + la), sign), {c * lx + n, n * lx - c, double(0)}});
        }
        asSet("obstacle boundaries are those of the robot at the slice's heading", all[s].obstacle, o);
        asSet("arena boundaries are those of the robot at the slice's heading", all[s].arena, a);
        asSet("the slice is swept with its own obstacle boundaries", p.swept[s].obstacle, o);
        asSet("the slice is swept with its own arena boundaries", p.swept[s].arena, a);
        // sweeping a slice again on demand takes the boundaries it is given
        const BoundaryInfo again = all[s];
        hv::guarded("slice on demand", [&] { p.getFreeSegmentOneSlice(again); });
        asSet("a slice swept on demand has the obstacle boundaries given", p.swept.back().obstacle, o);
        asSet("a slice swept on demand has the arena boundaries given", p.swept.back().arena, a);
        hv::check("vertices have the heading of their slice", g.vertex[s].size() == 3 ? hv::near(cos(g.vertex[s][2]), c, 1e-9) && hv::near(sin(g.vertex[s][2]), n, 1e-9) : hv::F(false));
    }
    hv::reach("done");
}
HV_CASE(planeAny) { plane<planners::HRM2D>({hv::angle("h0"), double(0.75), hv::angle("h2")}, 0, false); }
HV_CASE(planeLink) { plane<planners::HRM2D>({double(2), hv::angle("h1")}, 0, true); }
HV_CASE(planeTurnedLink) { plane<planners::HRM2D>({double(2), double(-0.5)}, 0, true, 0.25); }
HV_CASE(planeInflated) { plane<planners::HRM2DKC>({double(-1), hv::angle("h1"), double(0)}, 0.1, false); }
HV_CASE_N(headings, 6) {
    PlanningRequest r;
    r.parameters.numSlice = shard + 1;
    r.parameters.numLineY = 1;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    Flat<planners::HRM2D> p(MultiBodyTree2D(ell(1, 0.5, 0, 0, 0)), {ell(20, 15, 0, 0, 0)}, {ell(3, 2, 1, 1, 0)}, r);
    Graph g;
    hv::guarded("slices", [&] { g = p.build(); });
    if (int(p.headings_.size()) != shard + 1) {
        hv::fail("as many headings as slices");
        return;
    }
    for (int i = 0; i <= shard; ++i) {
        hv::check("headings are defined", hv::isNum(p.headings_[i]));
        if (shard) hv::check("headings are evenly spread over a full turn", hv::near(p.headings_[i], -piC + 2.0 * piC * double(i) / double(shard), 1e-6));
        if (i < int(g.vertex.size())) hv::check("slices take the headings in order", hv::near(cos(g.vertex[i][2]), cos(p.headings_[i]), 1e-7) && hv::near(sin(g.vertex[i][2]), sin(p.headings_[i]), 1e-7));
    }
    hv::reach("done");
}
// ------------------------------------------------------------------------------------ space
struct Solid : planners::HRM3D {
    using HRM3D::HRM3D;
    std::vector<BoundaryInfo> swept;
    std::vector<BoundaryMesh> meshes;
    void sweepLineProcess() override {
        swept.push_back(sliceBound_), meshes.push_back(sliceBoundMesh_);
        FreeSegment2D f;
        f.ty = {double(0.5)};
        f.xL = {{double(-1)}}, f.xU = {{double(1)}}, f.xM = {{double(0)}};
        freeSegOneSlice_.tx = {double(0.25)};
        freeSegOneSlice_.freeSegmentYZ = {f};
    }
    void connectMultiSlice() override {}
    const Graph& build() {
        buildRoadmap();
        return res_.graphStructure;
    }
};
static SuperQuadrics sq(double a, double b, double c, const double& x, const double& y, const double& z, const double q[4]) {
    return SuperQuadrics({a, b, c}, {1, 1}, {x, y, z}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), 4);
}
static void mul(const double q[4], const double l[4], double p[4]) {
    p[0] = q[0] * l[0] - q[1] * l[1] - q[2] * l[2] - q[3] * l[3], p[1] = q[0] * l[1] + q[1] * l[0] + q[2] * l[3] - q[3] * l[2];
    p[2] = q[0] * l[2] - q[1] * l[3] + q[2] * l[0] + q[3] * l[1], p[3] = q[0] * l[3] + q[1] * l[2] - q[2] * l[1] + q[3] * l[0];
}
static void space(const double quats[3][4], int slices, bool link) {
    const double I[4] = {1, 0, 0, 0}, L[4] = {0.8, 0, 0.6, 0}, O[4] = {0.6, 0.8, 0, 0};
    const double ox = hv::real("ox", -9, 9), lx = link ? hv::real("lx", -5, 5) : double(0);
    const std::vector<SuperQuadrics> arena{sq(20, 15, 10, 0, 0, 0, I)}, obs{sq(3, 2, 1, ox, 1, 2, O), sq(1, 4, 2, -4, 1, 0, I)};
    SuperQuadrics base = sq(1.5, 0.5, 1, 0, 0, 0, I);
    std::vector<Eigen::Quaterniond> s;
    for (int i = 0; i < slices; ++i) s.push_back(Eigen::Quaterniond(quats[i][0], quats[i][1], quats[i][2], quats[i][3]));
    base.setQuatSamples(s);
    MultiBodyTree3D robot(base);
    if (link) robot.addBody(sq(0.75, 0.25, 0.5, lx, -1, 2, L));
    PlanningRequest r;
    r.parameters.numSlice = 1;
    r.parameters.numLineX = r.parameters.numLineY = 1;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    Solid p(robot, arena, obs, r);
    Graph g;
    hv::guarded("slices", [&] { g = p.build(); });
    if (int(p.swept.size()) != slices || int(g.vertex.size()) != slices) {
        hv::fail("one slice per given orientation");
        return;
    }
    for (int i = 0; i < slices; ++i) {
        const double q[4] = {quats[i][0], quats[i][1], quats[i][2], quats[i][3]};
        double lq[4], off[3];
        mul(q, L, lq);
        const double lp[3] = {lx, double(-1), double(2)}, zero[3] = {double(0), double(0), double(0)};
        apply(rotOf(q), lp, off);
        std::vector<Want> o, a;
        for (int k = 0; k < 3; ++k) {
            const SuperQuadrics& body = k < 2 ? obs[k] : arena[0];
            auto& list = k < 2 ? o : a;
            list.push_back({body.getMinkSum3D(sq(1.5, 0.5, 1, 0, 0, 0, q), k < 2 ? 1 : -1), {zero[0], zero[1], zero[2]}});
            if (link) list.push_back({body.getMinkSum3D(sq(0.75, 0.25, 0.5, 0, 0, 0, lq), k < 2 ? 1 : -1), {off[0], off[1], off[2]}});
        }
        asSet("obstacle boundaries are those of the robot at the slice's orientation", p.getSliceBoundary(i).obstacle, o);
        asSet("arena boundaries are those of the robot at the slice's orientation", p.getSliceBoundary(i).arena, a);
        std::vector<BoundaryPoints> mo, ma, so, sa;
        for (auto& m : p.meshes[i].obstacle) mo.push_back(m.vertices);
        for (auto& m : p.meshes[i].arena) ma.push_back(m.vertices);
        asSet("the slice is swept with the meshes of its own obstacle boundaries", mo, o);
        asSet("the slice is swept with the meshes of its own arena boundaries", ma, a);
        for (auto& m : p.getSliceBoundaryMesh(i).obstacle) so.push_back(m.vertices);
        asSet("the meshes kept are those of the slice", so, o);
        // sweeping a slice again on demand takes the boundaries it is given
        const BoundaryInfo again = p.getSliceBoundary(i);
        hv::guarded("slice on demand", [&] { p.getFreeSegmentOneSlice(&again); });
        std::vector<BoundaryPoints> ro, ra;
        for (auto& m : p.meshes.back().obstacle) ro.push_back(m.vertices);
        for (auto& m : p.meshes.back().arena) ra.push_back(m.vertices);
        asSet("a slice swept on demand has the obstacle boundaries given", p.swept.back().obstacle, o);
        asSet("a slice swept on demand has the meshes of the obstacles given", ro, o);
        asSet("a slice swept on demand has the meshes of the arenas given", ra, a);
        double v[4] = {g.vertex[i][3], g.vertex[i][4], g.vertex[i][5], g.vertex[i][6]};
        checkRot("vertices have the orientation of their slice", rotOf(v), rotOf(q));
    }
    hv::reach("done");
}
HV_CASE_N(spaceFixed, 2) {
    const double q[3][4] = {{0.8, 0.6, 0, 0}, {0.6, 0, 0, 0.8}, {0.48, 0.6, -0.64, 0}};
    space(q, 3, shard);
}
HV_CASE_N(spaceTurned, 3) {
    double q[3][4] = {{0.8, 0.6, 0, 0}, {0.6, 0, 0, 0.8}, {0.48, 0.6, -0.64, 0}};
    turn(hv::angle("half angle"), shard, q[1]);
    space(q, 2, false);
}
HV_CASE_N(spaceRandom, 2) {
    const double I[4] = {1, 0, 0, 0};
    PlanningRequest r;
    r.parameters.numSlice = shard + 1;
    r.parameters.numLineX = r.parameters.numLineY = 1;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    planners::HRM3D p(MultiBodyTree3D(sq(1, 0.5, 0.25, 0, 0, 0, I)), {sq(20, 15, 9, 0, 0, 0, I)}, {sq(3, 2, 1, 0, 0, 0, I)}, r);
    hv::guarded("random orientations", [&] { p.sampleOrientations(); });
    hv::check("as many orientations as slices", hv::F(int(p.q_.size()) == shard + 1));
    for (auto& q : p.q_) hv::check("orientations are unit quaternions", hv::near(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1.0, 1e-6));
    hv::reach("done");
}
