// HV-ORACLE: the turn of every body between two slices is re-computed from its offset (angle addition, matrix product) and must be covered by the turns for which the fitted ellipses were asked; every edge between slices is traced to the validation it passed and to the bridge slice in place then; the poses checked during a validation are re-computed by plane or space kinematics and compared with boundaries placed at an arbitrary spot
// HV-BOUND: 2D: 1, 2, 3, 5 slices of up to 2 vertices with arbitrary coordinates and arbitrary transition verdicts, base and 2 links, one of them turned by any angle, 2 to 3 steps; 3D: 3 slices from 4 orientations; a boundary at any place against 3 to 5 poses of 3 bodies on 4 motions
// HV-OUTSIDE: more slices, links and steps; that the fitted ellipse covers the turns it was asked for (C15); Minkowski boundaries (C10)
// HV-ASSUME: getTFE2D/getTFE3D are replaced by recorders of their arguments (their contract is C15)
// HV-CUT: getTFE2D getTFE3D
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "rot.hpp"
using namespace hrm;
typedef std::vector<double> V;
static const double pi2 = 3.1415926;
// ------------------------------------------------------------------------------------ recorders of the fitted ellipses
struct Ask {
    V a, from, to;  // semi-axes, angle or quaternion
    int steps;
};
static std::vector<Ask> asks;
SuperEllipse hrm::getTFE2D(const std::vector<double>& a, const double ta, const double tb, const Index n, const Index num) {
    asks.push_back({a, {ta}, {tb}, int(n)});
    return SuperEllipse({double(double(asks.size()) + 99.0), double(1)}, 1, {double(3), double(4)}, double(0), num);
}
SuperQuadrics hrm::getTFE3D(const std::vector<double>& a, const Eigen::Quaterniond& p, const Eigen::Quaterniond& q, const Index n, const Index num) {
    asks.push_back({a, {p.w(), p.x(), p.y(), p.z()}, {q.w(), q.x(), q.y(), q.z()}, int(n)});
    return SuperQuadrics({double(double(asks.size()) + 99.0), double(1), double(1)}, {1, 1}, {double(3), double(4), double(5)}, Eigen::Quaterniond(1, 0, 0, 0), num);
}
static const Ask* askOf(const double& tag) {
    const int i = hv::asInt(tag) - 100;
    return i >= 0 && i < int(asks.size()) ? &asks[i] : nullptr;
}
struct Check {
    V a, b;
    std::vector<double> tags;  // bridge slice at that time
    bool free;
};
// ------------------------------------------------------------------------------------ plane
struct Flat : planners::HRM2D {
    using HRM2D::HRM2D;
    std::vector<std::vector<V>> given;  // x, y per slice
    std::vector<double> bridge;
    std::vector<Check> log;
    void constructOneSlice(const Index i) override {
        numVertex_.startId = res_.graphStructure.vertex.size();
        for (auto& v : given.at(i)) res_.graphStructure.vertex.push_back({v[0], v[1], headings_.at(i)});
    }
    void bridgeSlice() override {
        bridge.clear();
        for (auto& t : tfe_) bridge.push_back(t.getSemiAxis().at(0));
    }
    bool isMultiSliceTransitionFree(const V& a, const V& b) override {
        log.push_back({a, b, bridge, hv::coin("free")});
        return log.back().free;
    }
    const Graph& build() {
        buildRoadmap();
        return res_.graphStructure;
    }
};
static bool sameV(const V& a, const V& b) {
    if (a.size() != b.size()) return false;
    hv::F f(true);
    for (size_t i = 0; i < a.size(); ++i) f = f && hv::near(a[i], b[i], 1e-9);
    return hv::decide(f);
}
// a body turned by `from + d` at heading h is among the orientations asked for
static hv::F covered(const Ask& q, const double& turn) {
    std::vector<hv::F> some;
    const double c = cos(turn), s = sin(turn);
    for (int k = 0; k < q.steps; ++k) {
        const double t = double(k) / double(q.steps - 1);
        const double g = (1.0 - t) * q.from[0] + t * q.to[0];
        const double gc = cos(g), gs = sin(g);
        some.push_back((hv::near(c, gc, 1e-6) && hv::near(s, gs, 1e-6)) || (hv::near(c, -gc, 1e-6) && hv::near(s, -gs, 1e-6)));
    }
    return hv::any(some);
}
static void planar(int slices, int perSlice, int steps, bool away, const double& phi) {
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineY = 8;
    r.parameters.numPoint = steps;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    MultiBodyTree2D robot(SuperEllipse({double(3), double(2)}, 1, {double(0), double(0)}, double(0), 4));
    robot.addBody(SuperEllipse({double(2), double(0.5)}, 1, {double(4), double(1)}, phi, 4));
    robot.addBody(SuperEllipse({double(1.5), double(0.25)}, 1, {double(-4), double(0)}, double(0.75), 4));
    const std::vector<SuperEllipse> body{SuperEllipse({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 4)};
    const double axes[3][2] = {{3, 2}, {2, 0.5}, {1.5, 0.25}};
    asks.clear();
    Flat p(robot, body, body, r);
    for (int s = 0; s < slices; ++s) {
        p.given.push_back({});
        for (int i = 0; i < perSlice; ++i) {
            const std::string n = std::to_string(s) + "." + std::to_string(i);
            p.given[s].push_back({double(0.5 * s + i), away ? hv::real("y" + n, -4, 4) : double(0.25 * i)});
        }
    }
    Graph g;
    hv::guarded("roadmap construction", [&] { g = p.build(); });
    if (int(g.vertex.size()) != slices * perSlice || g.edge.size() != g.weight.size()) {
        hv::fail("vertices stay, one weight per edge");
        return;
    }
    std::vector<std::vector<int>> joined(slices, std::vector<int>(slices, 0));
    for (size_t e = 0; e < g.edge.size(); ++e) {
        const size_t i = g.edge[e].first, j = g.edge[e].second;
        if (i >= g.vertex.size() || j >= g.vertex.size()) {
            hv::fail("edges join two vertices");
            return;
        }
        const int si = int(i) / perSlice, sj = int(j) / perSlice;
        hv::check("only different slices are bridged", hv::F(si != sj));
        joined[si][sj] = joined[sj][si] = 1;
        const V &a = g.vertex[i], &b = g.vertex[j];
        double d2 = 0.0;
        for (int k = 0; k < 3; ++k) d2 = d2 + (a[k] - b[k]) * (a[k] - b[k]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
        const Check* c = nullptr;
        for (auto& l : p.log)
            if (l.free && ((sameV(l.a, a) && sameV(l.b, b)) || (sameV(l.a, b) && sameV(l.b, a)))) c = &l;
        if (!c) {
            hv::fail("every edge between slices was validated");
            return;
        }
        if (c->tags.size() != 3) {
            hv::fail("the bridge slice has a boundary for every body");
            return;
        }
        for (int body = 0; body < 3; ++body) {
            const Ask* q = askOf(c->tags[body]);
            if (!q || q->a.size() != 2 || q->steps < 2) {
                hv::fail("the bridge slice has a fitted ellipse for every body");
                return;
            }
            hv::check("the fitted ellipse is for the size of the body", hv::near(q->a[0], axes[body][0], 1e-9) && hv::near(q->a[1], axes[body][1], 1e-9));
            for (int k = 0; k < steps; ++k) {
                const double t = double(k) / double(steps - 1);
                double turn = (1.0 - t) * a[2] + t * b[2];
                if (body == 1) turn = turn + phi;
                if (body == 2) turn = turn + 0.75;
                hv::check("the fitted ellipse covers the body at every step of the turn", covered(*q, turn));
            }
        }
    }
    // a transition found free between neighbouring slices is not lost
    for (int s = 0; s < slices && slices > 1; ++s) {
        const int o = (s + 1) % slices;
        if (joined[s][o]) continue;
        for (int i = 0; i < perSlice; ++i)
            for (int j = 0; j < perSlice; ++j) {
                const V &a = g.vertex[s * perSlice + i], &b = g.vertex[o * perSlice + j];
                bool tried = false;
                for (auto& l : p.log) {
                    if (!((sameV(l.a, a) && sameV(l.b, b)) || (sameV(l.a, b) && sameV(l.b, a)))) continue;
                    tried = true;
                    if (l.free) hv::fail("free transitions between neighbouring slices join them");
                }
                if (!tried) hv::check("vertices on close lines of neighbouring slices are tried", !hv::le(a[1] - b[1], 1.0 - 1e-6) || !hv::le(b[1] - a[1], 1.0 - 1e-6));
            }
    }
    bool all = true;
    for (auto& l : p.log) all = all && l.free;
    if (all && !away && slices > 1)  // all vertices are in reach of each other and all motions are free
        for (size_t i = 0; i < g.vertex.size(); ++i) {
            bool end = false;
            for (auto& e : g.edge) end = end || size_t(e.first) == i || size_t(e.second) == i;
            if (int(i) / perSlice == 0 && !end) hv::fail("every vertex with free motions to the neighbouring slice is joined");
        }
    hv::reach(g.edge.empty() ? "nothing joined" : "joined");
}
static const double LINK[4] = {1.25, -2.0, 3.0, -0.5};
HV_CASE_N(plane_steps, 2) { planar(2 + shard, 1, shard ? 3 : 2, false, hv::angle("link angle")); }
HV_CASE_N(plane_turns, 4) { planar(3 + shard % 2, 1, 4, false, LINK[shard]); }
HV_CASE(plane_pairs) { planar(2, 2, 2, false, LINK[1]); }
HV_CASE(plane_single) { planar(1, 2, 2, true, LINK[0]); }
HV_CASE(plane_five) { planar(5, 1, 2, false, hv::angle("link angle")); }
HV_CASE_N(plane_far, 2) { planar(2 + shard, 1 + (shard == 0), 2, true, LINK[3]); }
HV_CASE_T(plane_many, 2) { planar(3, 2, 3, shard, hv::angle("link angle")); }
// the poses checked: a small square at any place as the boundary of one body
struct FlatCheck : planners::HRM2D {
    using HRM2D::HRM2D;
    bool ok(const V& a, const V& b, const std::vector<BoundaryInfo>& bd) {
        bridgeSliceBound_ = bd;
        return isMultiSliceTransitionFree(a, b);
    }
};
HV_CASE_N(plane_poses, 6) {
    static const double FROM[2][3] = {{-3, 0.5, 0}, {1, -2, -1.25}}, TO[2][3] = {{3, 1.5, 0}, {2, 1, 0.75}};
    const int body = shard % 3, m = shard / 3, steps = 4;
    PlanningRequest r;
    r.parameters.numPoint = steps;
    r.parameters.numLineY = 8;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    MultiBodyTree2D robot(SuperEllipse({double(3), double(2)}, 1, {double(0), double(0)}, double(0), 4));
    robot.addBody(SuperEllipse({double(2), double(0.5)}, 1, {double(4), double(1)}, double(0.5), 4));
    robot.addBody(SuperEllipse({double(1.5), double(0.25)}, 1, {double(-2), double(-3)}, double(0.75), 4));
    const std::vector<SuperEllipse> none{SuperEllipse({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 4)};
    FlatCheck p(robot, none, none, r);
    const double cx = hv::real("x", -9, 9), cy = hv::real("y", -9, 9);
    BoundaryPoints sq(2, 5), far(2, 5);
    const double s[5][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 0}};
    for (int i = 0; i < 5; ++i) {
        sq(0, i) = cx + s[i][0], sq(1, i) = cy + s[i][1];
        far(0, i) = 50.0 + s[i][0], far(1, i) = s[i][1];
    }
    std::vector<BoundaryInfo> bd(3);
    for (int i = 0; i < 3; ++i) bd[i].obstacle = {far, i == body ? sq : far};
    bool ok = true;
    const V a{double(FROM[m][0]), double(FROM[m][1]), double(FROM[m][2])}, b{double(TO[m][0]), double(TO[m][1]), double(TO[m][2])};
    hv::guarded("transition check", [&] { ok = p.ok(a, b, bd); });
    std::vector<hv::F> hit, graze;
    const double off[3][2] = {{0, 0}, {4, 1}, {-2, -3}};
    for (int k = 0; k < steps; ++k) {
        const double t = double(k) / double(steps - 1), h = (1.0 - t) * a[2] + t * b[2];
        const double px = (1.0 - t) * a[0] + t * b[0] + cos(h) * off[body][0] - sin(h) * off[body][1];
        const double py = (1.0 - t) * a[1] + t * b[1] + sin(h) * off[body][0] + cos(h) * off[body][1];
        auto in = [&](const double& w) {
            return hv::le(px - cx + py - cy, w) && hv::le(px - cx - py + cy, w) && hv::le(cx - px + py - cy, w) && hv::le(cx - px - py + cy, w);
        };
        hit.push_back(in(1.0 - 1e-5)), graze.push_back(in(1.0 + 1e-5));
    }
    if (ok) hv::check("a body inside a boundary at some step is rejected", !hv::any(hit));
    else hv::check("a motion clear of the boundary at every step is accepted", hv::any(graze));
    hv::reach(ok ? "accepted" : "rejected");
}
// the boundaries of the bridge slice are those of the fitted ellipses at the reference point
struct FlatBridge : planners::HRM2D {
    using HRM2D::HRM2D;
    const std::vector<BoundaryInfo>& bridge(const std::vector<SuperEllipse>& t) {
        tfe_ = t;
        bridgeSlice();
        return bridgeSliceBound_;
    }
};
static void samePoints(const std::string& label, const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
        hv::fail(label);
        return;
    }
    for (int j = 0; j < a.cols(); ++j)
        for (int i = 0; i < a.rows(); ++i) hv::check(label, hv::near(a(i, j), b(i, j), 1e-6));
}
HV_CASE(plane_bridge) {
    PlanningRequest r;
    r.parameters.numLineY = 8;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    std::vector<SuperEllipse> obs{SuperEllipse({double(4), double(2)}, 1, {hv::real("ox", -9, 9), hv::real("oy", -9, 9)}, double(0.5), 5),
                                  SuperEllipse({double(2), double(1)}, 1, {double(-3), double(1)}, double(0), 5)};
    MultiBodyTree2D robot(SuperEllipse({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 5));
    FlatBridge p(robot, {obs[1]}, obs, r);
    std::vector<SuperEllipse> t, fresh;
    for (int i = 0; i < 2; ++i) {
        const double th = i ? double(0.25) : hv::angle("turn"), w = i ? double(3) : double(1.5);
        t.push_back(SuperEllipse({w, double(0.5)}, 1, {double(7), double(-5)}, th, 5));
        fresh.push_back(SuperEllipse({w, double(0.5)}, 1, {double(0), double(0)}, th, 5));
    }
    std::vector<BoundaryInfo> bd;
    hv::guarded("bridge slice", [&] { p.bridge({t[0]}), bd = p.bridge(t); });
    if (bd.size() != 2 || bd[0].obstacle.size() != 2 || bd[1].obstacle.size() != 2) {
        hv::fail("one boundary per body and obstacle");
        return;
    }
    for (int i = 0; i < 2; ++i)
        for (int o = 0; o < 2; ++o) samePoints("boundary of the fitted ellipse around the obstacle", bd[i].obstacle[o], obs[o].getMinkSum2D(fresh[i], 1));
    hv::reach("done");
}
// ------------------------------------------------------------------------------------ space
static const double QS[5][4] = {{1, 0, 0, 0}, {0.8, 0.6, 0, 0}, {0.96, 0, 0.28, 0}, {0.6, 0, 0, 0.8}, {-0.48, 0.64, 0.6, 0}};
static V quat(int i) { return {double(QS[i][0]), double(QS[i][1]), double(QS[i][2]), double(QS[i][3])}; }
static Eigen::Quaterniond asQ(const V& q) { return Eigen::Quaterniond(q[0], q[1], q[2], q[3]); }
struct Solid : planners::HRM3D {
    using HRM3D::HRM3D;
    std::vector<std::vector<V>> given;  // position per slice
    std::vector<V> turns;
    std::vector<double> bridge;
    std::vector<Check> log;
    void sampleOrientations() override {
        for (auto& t : turns) q_.push_back(asQ(t));
    }
    void constructOneSlice(const Index i) override {
        numVertex_.startId = res_.graphStructure.vertex.size();
        for (auto& v : given.at(i)) res_.graphStructure.vertex.push_back({v[0], v[1], v[2], turns[i][0], turns[i][1], turns[i][2], turns[i][3]});
    }
    void bridgeSlice() override {
        bridge.clear();
        for (auto& t : tfe_) bridge.push_back(t.getSemiAxis().at(0));
    }
    bool isMultiSliceTransitionFree(const V& a, const V& b) override {
        log.push_back({a, b, bridge, hv::coin("free")});
        return log.back().free;
    }
    const Graph& build() {
        buildRoadmap();
        return res_.graphStructure;
    }
};
static hv::F sameRot(const R3& a, const R3& b) {
    hv::F f(true);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) f = f && hv::near(a.m[i][j], b.m[i][j], 1e-6);
    return f;
}
static void spatial(const std::vector<int>& qs, int perSlice, bool away, const double link[4]) {
    const int slices = int(qs.size());
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineX = 4;
    r.parameters.numLineY = 8;
    r.parameters.numPoint = 3;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    const Eigen::Quaterniond I(1, 0, 0, 0);
    MultiBodyTree3D robot(SuperQuadrics({double(3), double(2), double(1)}, {1, 1}, {double(0), double(0), double(0)}, I, 4));
    robot.addBody(SuperQuadrics({double(2), double(0.5), double(1)}, {1, 1}, {double(4), double(1), double(0)}, Eigen::Quaterniond(link[0], link[1], link[2], link[3]), 4));
    robot.addBody(SuperQuadrics({double(1.5), double(0.25), double(0.5)}, {1, 1}, {double(-4), double(0), double(1)}, asQ(quat(2)), 4));
    const double axes[3][3] = {{3, 2, 1}, {2, 0.5, 1}, {1.5, 0.25, 0.5}};
    const std::vector<SuperQuadrics> body{SuperQuadrics({double(1), double(1), double(1)}, {1, 1}, {double(0), double(0), double(0)}, I, 4)};
    asks.clear();
    Solid p(robot, body, body, r);
    for (int s = 0; s < slices; ++s) {
        p.turns.push_back(quat(qs[s]));
        p.given.push_back({});
        for (int i = 0; i < perSlice; ++i) {
            const std::string n = std::to_string(s) + "." + std::to_string(i);
            p.given[s].push_back({away ? hv::real("x" + n, -8, 8) : double(0.5 * i), away && s ? hv::real("y" + n, -4, 4) : double(0.25 * s + i), double(0.5)});
        }
    }
    Graph g;
    hv::guarded("roadmap construction", [&] { g = p.build(); });
    if (int(g.vertex.size()) != slices * perSlice || g.edge.size() != g.weight.size()) {
        hv::fail("vertices stay, one weight per edge");
        return;
    }
    const R3 offset[3] = {{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, rotOf(link), rotOf(QS[2])};
    std::vector<int> tried(slices, 0), joined(slices, 0);
    for (size_t e = 0; e < g.edge.size(); ++e) {
        const size_t i = g.edge[e].first, j = g.edge[e].second;
        if (i >= g.vertex.size() || j >= g.vertex.size()) {
            hv::fail("edges join two vertices");
            return;
        }
        const int si = int(i) / perSlice, sj = int(j) / perSlice;
        hv::check("only different slices are bridged", hv::F(si != sj));
        joined[si] = joined[sj] = 1;
        const V &a = g.vertex[i], &b = g.vertex[j];
        double d2 = 0.0;
        for (int k = 0; k < 7; ++k) d2 = d2 + (a[k] - b[k]) * (a[k] - b[k]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
        const Check* c = nullptr;
        for (auto& l : p.log)
            if (l.free && ((sameV(l.a, a) && sameV(l.b, b)) || (sameV(l.a, b) && sameV(l.b, a)))) c = &l;
        if (!c) {
            hv::fail("every edge between slices was validated");
            return;
        }
        if (c->tags.size() != 3) {
            hv::fail("the bridge slice has a boundary for every body");
            return;
        }
        for (int body = 0; body < 3; ++body) {
            const Ask* q = askOf(c->tags[body]);
            if (!q || q->a.size() != 3) {
                hv::fail("the bridge slice has a fitted ellipsoid for every body");
                return;
            }
            hv::check("as many steps are fitted as are checked", hv::F(q->steps == 3));
            for (int k = 0; k < 3; ++k) hv::check("the fitted ellipsoid is for the size of the body", hv::near(q->a[k], axes[body][k], 1e-9));
            const double qa[4] = {a[3], a[4], a[5], a[6]}, qb[4] = {b[3], b[4], b[5], b[6]};
            const double fr[4] = {q->from[0], q->from[1], q->from[2], q->from[3]}, to[4] = {q->to[0], q->to[1], q->to[2], q->to[3]};
            const R3 A = rotOf(qa) * offset[body], B = rotOf(qb) * offset[body], F = rotOf(fr), T = rotOf(to);
            hv::check("the fitted ellipsoid is for the turn of the body", (sameRot(A, F) && sameRot(B, T)) || (sameRot(A, T) && sameRot(B, F)));
        }
    }
    for (auto& l : p.log)
        for (int s = 0; s < slices; ++s)
            for (int o = 0; o < slices; ++o) {
                const V qa{l.a[3], l.a[4], l.a[5], l.a[6]}, qb{l.b[3], l.b[4], l.b[5], l.b[6]};
                if (s != o && sameV(qa, p.turns[s]) && sameV(qb, p.turns[o]) && l.free) tried[s] = tried[o] = 1;
            }
    for (int s = 0; s < slices; ++s)
        if (tried[s] && !joined[s]) hv::fail("free transitions between slices join them");
    if (!away)  // vertices within reach of each other: every slice tries its nearest one among those before it
        for (int s = 1; s < slices; ++s) {
            bool any = false;
            for (auto& l : p.log) {
                const V qa{l.a[3], l.a[4], l.a[5], l.a[6]}, qb{l.b[3], l.b[4], l.b[5], l.b[6]};
                if (sameV(qa, p.turns[s]) != sameV(qb, p.turns[s])) any = true;
            }
            if (!any) hv::fail("every slice is tried against another one");
        }
    hv::reach(g.edge.empty() ? "nothing joined" : "joined");
}
static void turned(int axis) {
    double q[4];
    turn(hv::angle("link half angle"), axis, q);
    spatial({0, 3}, 1, false, q);
}
HV_CASE_N(space_turned, 2) { turned(shard); }
HV_CASE_T(space_turned_z, 1) { turned(2); }
HV_CASE_N(space_slices, 4) {
    static const std::vector<std::vector<int>> S{{0}, {0, 1, 2}, {3, 4, 1}, {2, 0, 4, 3}};
    const double q[4] = {0.6, 0.8, 0, 0};
    spatial(S[shard], 1, false, q);
}
HV_CASE(space_far) {
    const double q[4] = {0.6, 0.8, 0, 0};
    spatial({4, 1}, 1, true, q);
}
HV_CASE_T(space_many, 2) {
    const double q[4] = {0.6, 0, 0.8, 0};
    spatial({3, 1, 2}, 2 - shard, true, q);
}
struct SolidCheck : planners::HRM3D {
    using HRM3D::HRM3D;
    bool ok(const V& a, const V& b, const std::vector<std::vector<MeshMatrix>>& bd) {
        bridgeSliceBound_ = bd;
        return isMultiSliceTransitionFree(a, b);
    }
    const std::vector<std::vector<MeshMatrix>>& bridge(const std::vector<SuperQuadrics>& t) {
        tfe_ = t;
        bridgeSlice();
        return bridgeSliceBound_;
    }
};
static MeshMatrix octahedron(const double& x, const double& y, const double& z) {
    static const double P[6][3] = {{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
    static const int T[8][3] = {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}, {1, 0, 5}, {2, 1, 5}, {3, 2, 5}, {0, 3, 5}};
    MeshMatrix m;
    m.vertices.resize(3, 6);
    m.faces.resize(8, 3);
    for (int i = 0; i < 6; ++i) m.vertices(0, i) = x + P[i][0], m.vertices(1, i) = y + P[i][1], m.vertices(2, i) = z + P[i][2];
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 3; ++j) m.faces(i, j) = double(T[i][j]);
    return m;
}
HV_CASE_N(space_poses, 6) {
    // from and to: position, turn about one axis
    static const double FROM[2][4] = {{-3, 0.5, 1, 0}, {1, -2, 0, -1.25}}, TO[2][4] = {{3, 1.5, 0.25, 0}, {2, 1, 2, 0.75}};
    const int body = shard % 3, m = shard / 3, steps = hv::thorough() ? 5 : 3;
    PlanningRequest r;
    r.parameters.numPoint = steps;
    r.parameters.numLineX = 4;
    r.parameters.numLineY = 8;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    const Eigen::Quaterniond I(1, 0, 0, 0);
    const double off[3][3] = {{0, 0, 0}, {4, 1, -1}, {-2, 3, 1}};
    MultiBodyTree3D robot(SuperQuadrics({double(3), double(2), double(1)}, {1, 1}, {double(0), double(0), double(0)}, I, 4));
    for (int i = 1; i < 3; ++i)
        robot.addBody(SuperQuadrics({double(2), double(0.5), double(1)}, {1, 1}, {double(off[i][0]), double(off[i][1]), double(off[i][2])}, asQ(quat(i)), 4));
    const std::vector<SuperQuadrics> none{SuperQuadrics({double(1), double(1), double(1)}, {1, 1}, {double(0), double(0), double(0)}, I, 4)};
    SolidCheck p(robot, none, none, r);
    const double c[3] = {hv::real("x", -9, 9), m ? hv::real("y", -9, 9) : double(1.125), m ? double(1.25) : hv::real("z", -9, 9)};
    std::vector<std::vector<MeshMatrix>> bd(3);
    for (int i = 0; i < 3; ++i) bd[i] = {octahedron(double(50), double(0), double(0)), i == body ? octahedron(c[0], c[1], c[2]) : octahedron(double(-50), double(0), double(0))};
    auto pose = [&](const double* v) {
        const double h = double(v[3]) * 0.5;
        double s = sin(h);
        return V{double(v[0]), double(v[1]), double(v[2]), cos(h), double(0), m ? s : double(0), m ? double(0) : s};
    };
    bool ok = true;
    hv::guarded("transition check", [&] { ok = p.ok(pose(FROM[m]), pose(TO[m]), bd); });
    std::vector<hv::F> hit, graze;
    for (int k = 0; k <= steps; ++k) {
        const double t = double(k) / double(steps);
        double x[4], q[4], o[3];
        for (int i = 0; i < 4; ++i) x[i] = (1.0 - t) * FROM[m][i] + t * TO[m][i];
        turn(x[3] * 0.5, m ? 1 : 2, q);
        const double l[3] = {double(off[body][0]), double(off[body][1]), double(off[body][2])};
        apply(rotOf(q), l, o);
        double d[3];
        for (int i = 0; i < 3; ++i) d[i] = x[i] + o[i] - c[i];
        auto in = [&](double w) {
            hv::F f(true);
            for (int s = 0; s < 8; ++s) f = f && hv::le((s & 1 ? -d[0] : d[0]) + (s & 2 ? -d[1] : d[1]) + (s & 4 ? -d[2] : d[2]), w);
            return f;
        };
        hit.push_back(in(1.0 - 1e-4)), graze.push_back(in(1.0 + 1e-4));
    }
    if (ok) hv::check("a body inside a boundary at some step is rejected", !hv::any(hit));
    else hv::check("a motion clear of the boundary at every step is accepted", hv::any(graze));
    hv::reach(ok ? "accepted" : "rejected");
}
HV_CASE(space_bridge) {
    PlanningRequest r;
    r.parameters.numLineX = 4;
    r.parameters.numLineY = 8;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -2.0, 2.0};
    const Eigen::Quaterniond I(1, 0, 0, 0);
    std::vector<SuperQuadrics> obs{SuperQuadrics({double(4), double(2), double(1)}, {1, 1}, {hv::real("ox", -9, 9), hv::real("oy", -9, 9), hv::real("oz", -9, 9)}, asQ(quat(1)), 4),
                                   SuperQuadrics({double(2), double(1), double(3)}, {1, 1}, {double(-3), double(1), double(0)}, I, 5)};
    MultiBodyTree3D robot(SuperQuadrics({double(1), double(1), double(1)}, {1, 1}, {double(0), double(0), double(0)}, I, 4));
    SolidCheck p(robot, {obs[1]}, obs, r);
    std::vector<SuperQuadrics> t, fresh;
    for (int i = 0; i < 2; ++i) {
        const double w = i ? double(3) : double(1.5);
        t.push_back(SuperQuadrics({w, double(0.5), double(1)}, {1, 1}, {double(7), double(-5), double(2)}, asQ(quat(3 + i)), 4));
        fresh.push_back(SuperQuadrics({w, double(0.5), double(1)}, {1, 1}, {double(0), double(0), double(0)}, asQ(quat(3 + i)), 4));
    }
    std::vector<std::vector<MeshMatrix>> bd;
    hv::guarded("bridge slice", [&] { p.bridge({t[0]}), bd = p.bridge(t); });
    if (bd.size() != 2 || bd[0].size() != 2 || bd[1].size() != 2) {
        hv::fail("one boundary per body and obstacle");
        return;
    }
    for (int i = 0; i < 2; ++i)
        for (int o = 0; o < 2; ++o) {
            samePoints("boundary of the fitted ellipsoid around the obstacle", bd[i][o].vertices, obs[o].getMinkSum3D(fresh[i], 1));
            hv::check("all cells of the boundary are meshed", hv::F(bd[i][o].faces.rows() == 2 * (3 + o) * (3 + o)));
        }
    hv::reach("done");
}
