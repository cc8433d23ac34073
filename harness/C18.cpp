// HV-OPTS: --nlsat-first
// HV-ORACLE: the roadmap is built by the planner itself (boundaries, sweep lines, segments, connections); every vertex must lie outside all C-obstacle polygons and inside the C-arena, every edge is separated from the interior of every C-obstacle (separating axis theorem), weights are squared distances re-computed, and vertices on neighbouring lines that see each other (separating axis) are joined
// HV-BOUND: one heading, 3 to 4 sweep lines, elliptic body, arena and up to 2 obstacles with 5-point (diamond) boundaries, one obstacle at an arbitrary position along one of 3 directions (quick) or anywhere (thorough); the second obstacle overlapping, aligned or absent; headings of two slices
// HV-OUTSIDE: finer boundaries, more lines and obstacles, edges between slices (C21)
#include "hrm/planners/HRM2D.h"
#include "kites.hpp"
using namespace hrm;
struct Flat : planners::HRM2D {
    using HRM2D::HRM2D;
    V turns;
    std::vector<BoundaryPoints> given, around;  // replaces the boundaries of the slice when not empty
    void sampleOrientations() override { headings_ = turns; }
    void sweepLineProcess() override {
        if (!given.empty()) sliceBound_.obstacle = given, sliceBound_.arena = around, sliceBoundAll_.back() = sliceBound_;
        HRM2D::sweepLineProcess();
    }
    void connectMultiSlice() override {}
    const Graph& build(const V& h) {
        turns = h;
        buildRoadmap();
        return res_.graphStructure;
    }
};
static const double HEAD[2] = {0.5, -2.0};
static void verify(Flat& p, int lines, int slices, const double& limX, const double& limY);
// boundaries of the C-obstacles given, everything else by the planner
static void kites(const std::vector<BoundaryPoints>& obs, const BoundaryPoints& arena, int lines, int slices = 1) {
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineY = lines;
    r.parameters.boundaryLimits = {-8.0, 8.0, -2.0, 2.0};
    const MultiBodyTree2D robot(SuperEllipse({0.75, 0.5}, 1, {0.0, 0.0}, 0.0, 4));
    const std::vector<SuperEllipse> body(obs.size(), SuperEllipse({1.0, 1.0}, 1, {0.0, 0.0}, 0.0, 4));
    Flat p(robot, {body[0]}, body, r);
    p.given = obs, p.around = {arena};
    verify(p, lines, slices, 8.0, 2.0);
}
static void roadmap(const double& ox, const double& oy, int second, int lines, int slices) {
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineY = lines;
    r.parameters.boundaryLimits = {-7.0, 7.0, -4.0, 4.0};
    const MultiBodyTree2D robot(SuperEllipse({0.75, 0.5}, 1, {0.0, 0.0}, 0.0, 5));
    const std::vector<SuperEllipse> arena{SuperEllipse({9.0, 7.0}, 1, {0.0, 0.0}, 0.0, 9)};
    std::vector<SuperEllipse> obs{SuperEllipse({1.5, 1.25}, 1, {ox, oy}, 0.25, 5)};
    if (second == 1) obs.push_back(SuperEllipse({1.0, 2.0}, 1, {-1.0, 0.5}, 0.0, 5));
    if (second == 2) obs.push_back(SuperEllipse({1.0, 1.0}, 1, {2.5, -2.75}, 0.75, 5));
    Flat p(robot, arena, obs, r);
    verify(p, lines, slices, 7.0, 4.0);
}
static void verify(Flat& p, int lines, int slices, const double& limX, const double& limY) {
    V h;
    for (int i = 0; i < slices; ++i) h.push_back(double(HEAD[i]));
    Graph g;
    hv::forkMinMax(true);
    hv::guarded("roadmap construction", [&] { g = p.build(h); });
    hv::forkMinMax(false);
    const auto& bd = p.getCSpaceBoundary();
    if (int(bd.size()) != slices || g.edge.size() != g.weight.size()) {
        hv::fail("one boundary per slice, one weight per edge");
        return;
    }
    const size_t n = g.vertex.size();
    auto sliceOf = [&](const V& v) {
        int s = -1;
        for (int i = 0; i < slices; ++i)
            if (hv::decide(hv::near(v[2], h[i], 1e-6))) s = i;
        return s;
    };
    std::vector<int> at;
    for (auto& v : g.vertex) {
        if (v.size() != 3) {
            hv::fail("vertices are planar poses");
            return;
        }
        at.push_back(sliceOf(v));
        if (at.back() < 0) {
            hv::fail("vertices have the heading of a slice");
            return;
        }
        const auto& b = bd[at.back()];
        for (auto& o : b.obstacle) hv::check("vertices are outside every obstacle", !insidePoly(openPoly(o), v[0], v[1], 1e-5));
        for (auto& a : b.arena) hv::check("vertices are inside the arena", insidePoly(openPoly(a), v[0], v[1], -1e-5));
        hv::check("vertices are within the limits", hv::le(-limX - 1e-9, v[0]) && hv::le(v[0], limX + 1e-9) && hv::le(-limY - 1e-9, v[1]) && hv::le(v[1], limY + 1e-9));
    }
    std::vector<std::vector<bool>> joined(n, std::vector<bool>(n, false));
    for (size_t e = 0; e < g.edge.size(); ++e) {
        const size_t i = g.edge[e].first, j = g.edge[e].second;
        if (i >= n || j >= n || i == j) {
            hv::fail("edges join two vertices");
            return;
        }
        joined[i][j] = joined[j][i] = true;
        const auto &a = g.vertex[i], &b = g.vertex[j];
        hv::check("same-slice edges keep the heading", hv::F(at[i] == at[j]));
        double d2 = 0.0;
        for (int k = 0; k < 3; ++k) d2 = d2 + (a[k] - b[k]) * (a[k] - b[k]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
        for (auto& o : bd[at[i]].obstacle) hv::check("no edge passes through an obstacle", misses(openPoly(o), a, b, -1e-4));
    }
    // vertices on neighbouring lines which clearly see each other are joined
    const double dy = 2.0 * limY / double(lines - 1);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) {
            const auto &a = g.vertex[i], &b = g.vertex[j];
            if (at[i] != at[j] || joined[i][j] || !hv::decide(hv::near(b[1] - a[1], dy, 1e-6))) continue;
            std::vector<hv::F> clear;
            for (auto& o : bd[at[i]].obstacle) clear.push_back(misses(openPoly(o), a, b, 1e-4));
            hv::check("vertices of neighbouring lines that see each other are joined", !hv::all(clear));
        }
    hv::reach(g.edge.empty() ? "nothing joined" : "joined");
}
static const BoundaryPoints BOX = closed({{9, 0}, {9, 3}, {-9, 3}, {-9, -3}, {9, -3}});
HV_CASE_N(one, 2) { kites({kite(hv::real("x", -9, 9), 0.25, 2, 1, shard ? 1 : 2)}, BOX, 5); }
HV_CASE_N(two, 3) { kites({kite(hv::real("x", -9, 9), 0.25, 2, 1, 1), kite(1.0, shard - 0.75, 1, 1, 2)}, BOX, 3); }
HV_CASE_N(arena, 2) {
    const double x = hv::real("x", -4, 4);
    kites({kite(-1.0, 0.25, 2, 1, 1)}, shard ? kite(x, 0, 8, 2.5, 4) : closed({{x + 4, -3}, {x + 4, 3}, {x - 4, 3}, {x - 4, -3}}), 3);
}
HV_CASE(height) { kites({kite(0.5, hv::real("y", -5, 5), 2, 1, 2)}, BOX, 4); }
HV_CASE(slices) { kites({kite(hv::real("x", -9, 9), 0.25, 2, 1, 1)}, BOX, 3, 2); }
HV_CASE(along) { roadmap(0.5, hv::real("oy", -6, 6), 0, 2, 1); }
HV_CASE_T(two_fine, 3) { kites({kite(hv::real("x", -9, 9), 0.25, 2, 1, 1), kite(1.0, shard - 0.75, 1, 1, 2)}, BOX, 5); }
HV_CASE_T(plane, 2) { kites({kite(hv::real("x", -9, 9), hv::real("y", -5, 5), 2, 1, shard ? 1 : 2)}, BOX, 3); }
HV_CASE_T(oblique, 2) {
    const double s = hv::real("s", -5, 5);
    roadmap(s, 0.75 * s, 1 + shard, 4, 1);
}
HV_CASE_T(turned, 1) { roadmap(hv::real("ox", -3, 3), 0.25, 2, 3, 2); }
HV_CASE_T(anywhere, 3) { roadmap(hv::real("ox", -9, 9), hv::real("oy", -6, 6), shard, 3, 1); }
