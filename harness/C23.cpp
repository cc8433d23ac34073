// HV-ORACLE: the roadmap before the refinement is kept as prefix; every vertex and edge after it is checked against the obstacles of its own slice (half planes, separating axes); the heights of the new lines are re-computed; edges to the old roadmap are traced to their validation
// HV-BOUND: 2D: 2 slices with different kite-shaped C-obstacles, one at any place along x (quick) or y, 2 lines refined to 4 (thorough: 8 by a second refinement); 3D: 2 slices, 1 to 2 lines per direction refined to twice as many, arbitrary verdicts of the transitions to the old roadmap, arbitrary vertex positions; any clock
// HV-OUTSIDE: finer refinements; Prob-HRM (C32)
// HV-OPTS: --nlsat-first
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "kites.hpp"
using planners::Vertex;
struct Flat : planners::HRM2D {
    using HRM2D::HRM2D;
    V turns;
    std::vector<BoundaryInfo> given;
    void sampleOrientations() override { headings_ = turns; }
    void sweepLineProcess() override {
        if (!isRefine_) {
            sliceBound_ = given.at(sliceBoundAll_.size() - 1);
            sliceBoundAll_.back() = sliceBound_;
        }
        HRM2D::sweepLineProcess();
    }
    void connectMultiSlice() override {}
    std::vector<Vertex> getNearestNeighborsOnGraph(const V&, const Index, const double) override { return {}; }
    Graph build() {
        buildRoadmap();
        return res_.graphStructure;
    }
    Graph refine(const double& t) {
        refineExistRoadmap(t);
        return res_.graphStructure;
    }
};
static bool prefix(const Graph& a, const Graph& b) {  // a is the beginning of b
    if (a.vertex.size() > b.vertex.size() || a.edge.size() > b.edge.size() || b.edge.size() != b.weight.size()) {
        hv::fail("the roadmap found so far is kept");
        return false;
    }
    for (size_t i = 0; i < a.vertex.size(); ++i) {
        if (a.vertex[i].size() != b.vertex[i].size()) {
            hv::fail("the vertices found so far are kept");
            return false;
        }
        for (size_t j = 0; j < a.vertex[i].size(); ++j) hv::check("the vertices found so far are kept", hv::eq(a.vertex[i][j], b.vertex[i][j]));
    }
    for (size_t i = 0; i < a.edge.size(); ++i) {
        hv::check("the edges found so far are kept", hv::F(a.edge[i] == b.edge[i]));
        hv::check("the weights found so far are kept", hv::eq(a.weight[i], b.weight[i]));
    }
    return true;
}
static void plane(const BoundaryPoints& moving, int rounds) {
    PlanningRequest r;
    r.parameters.numSlice = 2;
    r.parameters.numLineY = 2;
    r.parameters.boundaryLimits = {-8.0, 8.0, -2.0, 2.0};
    const std::vector<SuperEllipse> body{SuperEllipse({1.0, 1.0}, 1, {0.0, 0.0}, 0.0, 4)};
    Flat p(MultiBodyTree2D(body[0]), body, body, r);
    const BoundaryPoints box = closed({{9, 0}, {9, 3}, {-9, 3}, {-9, -3}, {9, -3}});
    p.turns = {double(0.5), double(-2.0)};
    p.given.resize(2);
    p.given[0].obstacle = {moving}, p.given[1].obstacle = {kite(-3, 0.75, 1, 1, 2)};
    p.given[0].arena = p.given[1].arena = {box};
    hv::forkMinMax(true);
    Graph old, g;
    int lines = 2;
    hv::guarded("roadmap construction", [&] { g = p.build(); });
    for (int round = 0; round < rounds; ++round) {
        old = g;
        const double limit = 1000;
        hv::guarded("refinement", [&] { g = p.refine(limit); });
        lines *= 2;
        if (!prefix(old, g)) return;
        const size_t n0 = old.vertex.size(), n = g.vertex.size();
        const double dy = 4.0 / double(lines - 1);
        std::vector<int> at;
        bool full[2][16] = {}, joined[2] = {false, false};
        int slices = 0;
        for (size_t i = 0; i < n; ++i) {
            const V& v = g.vertex[i];
            const int s = v.size() != 3 ? -1 : hv::decide(hv::near(v[2], 0.5, 1e-6)) ? 0 : hv::decide(hv::near(v[2], -2.0, 1e-6)) ? 1 : -1;
            if (s < 0) {
                hv::fail("vertices have the heading of a slice");
                return;
            }
            at.push_back(s);
            if (i < n0) continue;
            slices = std::max(slices, s + 1);
            hv::check("new vertices are outside the obstacles of their slice", !insidePoly(openPoly(p.given[s].obstacle[0]), v[0], v[1], 1e-5));
            hv::check("new vertices are within the limits", hv::le(-8.0 - 1e-9, v[0]) && hv::le(v[0], 8.0 + 1e-9));
            int line = -1;
            for (int k = 0; k < lines; ++k)
                if (hv::decide(hv::near(v[1], -2.0 + dy * double(k), 1e-6))) line = k;
            if (line < 0) {
                hv::fail("new vertices lie on the doubled sweep lines");
                return;
            }
            full[s][line] = true;
        }
        for (size_t e = old.edge.size(); e < g.edge.size(); ++e) {
            const size_t i = g.edge[e].first, j = g.edge[e].second;
            if (i >= n || j >= n) {
                hv::fail("edges join two vertices");
                return;
            }
            const V &a = g.vertex[i], &b = g.vertex[j];
            hv::check("new edges stay in a slice", hv::F(at[i] == at[j]));
            hv::check("new edges end at a new vertex", hv::F(i >= n0 || j >= n0));
            if ((i < n0) != (j < n0)) joined[at[i]] = true;
            double d2 = 0.0;
            for (int k = 0; k < 3; ++k) d2 = d2 + (a[k] - b[k]) * (a[k] - b[k]);
            hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
            if (at[i] == at[j]) hv::check("no new edge passes through an obstacle", misses(openPoly(p.given[at[i]].obstacle[0]), a, b, -1e-4));
        }
        // every line has free space, and the outer lines are the same as before
        hv::check("a slice at least is refined", hv::F(slices > 0));
        for (int s = 0; s < slices; ++s) {
            for (int k = 0; k < lines; ++k)
                if (!full[s][k]) hv::fail("every one of the doubled lines has vertices");
            if (!joined[s]) hv::fail("the refined slice is joined to the slice found so far");
        }
        // stopped early: only when the time is up
        const double used = p.res_.planningTime.totalTime;
        if (slices < 2) {
            hv::check("refinement goes on until the time is up", hv::le(limit, used));
            break;
        }
    }
    hv::reach("refined");
}
HV_CASE_N(along, 2) { plane(kite(shard ? hv::real("x", -9, 0) : hv::real("x", 0, 9), 0.25, 2, 1, 1), 1); }
HV_CASE_N(across, 2) { plane(kite(0.5, shard ? hv::real("y", 0, 5) : hv::real("y", -5, 0), 2, 1, 2), 1); }
HV_CASE(rounds) { plane(kite(hv::real("x", 0.5, 0.5625), 0.25, 2, 1, 1), 2); }
HV_CASE_T(twice, 2) { plane(kite(shard ? hv::real("x", -9, 0) : hv::real("x", 0, 9), 0.25, 2, 1, 1), 2); }
// ------------------------------------------------------------------------------------ space
struct Solid : planners::HRM3D {
    using HRM3D::HRM3D;
    struct Sweep {
        int x, y;
        BoundaryInfo own;
        BoundaryMesh mesh;
        bool refine;
    };
    struct Check {
        V a, b;
        bool free;
    };
    std::vector<Sweep> sweeps;
    std::vector<Check> log;
    bool exist = false;
    int count = 0;
    void sweepLineProcess() override {
        sweeps.push_back({int(param_.numLineX), int(param_.numLineY), sliceBound_, sliceBoundMesh_, isRefine_});
        freeSegOneSlice_.tx.clear(), freeSegOneSlice_.freeSegmentYZ.clear();
        for (int i = 0; i < int(param_.numLineX); ++i) {
            freeSegOneSlice_.tx.push_back(double(i));
            FreeSegment2D f;
            for (int j = 0; j < int(param_.numLineY); ++j) {
                f.ty.push_back(double(j));
                const double m = count < 2 ? hv::real("z" + std::to_string(count), -2, 2) : double(0.25 * count);
                ++count;
                f.xL.push_back({double(-3)}), f.xU.push_back({double(3)}), f.xM.push_back({m});
            }
            freeSegOneSlice_.freeSegmentYZ.push_back(f);
        }
    }
    void connectMultiSlice() override {}
    void connectExistSlice(const Index i) override {
        exist = true;
        HRM3D::connectExistSlice(i);
        exist = false;
    }
    bool isSameSliceTransitionFree(const V& a, const V& b) override {
        if (!exist) return true;
        log.push_back({a, b, log.size() < 6 ? hv::coin("free") : true});
        return log.back().free;
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V&, const Index, const double) override { return {}; }
    Graph build() {
        buildRoadmap();
        return res_.graphStructure;
    }
    Graph refine(const double& t) {
        refineExistRoadmap(t);
        return res_.graphStructure;
    }
};
static hv::F sameM(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return hv::F(false);
    hv::F f(true);
    for (int j = 0; j < a.cols(); ++j)
        for (int i = 0; i < a.rows(); ++i) f = f && hv::near(a(i, j), b(i, j), 1e-9);
    return f;
}
HV_CASE_N(space, 2) {
    PlanningRequest r;
    r.parameters.numLineX = 1, r.parameters.numLineY = 1 + shard;
    r.parameters.boundaryLimits = {0.0, 8.0, 0.0, 4.0, -3.0, 3.0};
    const Eigen::Quaterniond I(1, 0, 0, 0), Q(0.8, 0.6, 0, 0);
    SuperQuadrics base({double(1), double(0.5), double(0.25)}, {1, 1}, {double(0), double(0), double(0)}, I, 4);
    base.setQuatSamples({I, Q});
    const std::vector<SuperQuadrics> body{SuperQuadrics({double(2), double(1), double(3)}, {1, 1}, {double(0), double(0), double(0)}, I, 4)};
    Solid p(MultiBodyTree3D(base), body, body, r);
    Graph old, g;
    hv::guarded("roadmap construction", [&] { old = p.build(); });
    const auto before = p.sweeps;
    if (before.size() != 2) {
        hv::fail("a sweep per slice");
        return;
    }
    const double limit = 1000;
    hv::guarded("refinement", [&] { g = p.refine(limit); });
    if (!prefix(old, g)) return;
    const int done = int(p.sweeps.size()) - 2, ny = 2 * (1 + shard);
    hv::check("a slice at least is refined", hv::F(done == 1 || done == 2));
    if (done == 1) hv::check("refinement goes on until the time is up", hv::le(limit, p.res_.planningTime.totalTime));
    for (int i = 0; i < done && i < 2; ++i) {
        const auto& s = p.sweeps[2 + i];
        hv::check("lines are doubled in both directions", hv::F(s.x == 2 && s.y == ny));
        hv::check("a slice is refined with its own boundary", s.own.obstacle.size() == 1 ? sameM(s.own.obstacle[0], before[i].own.obstacle[0]) : hv::F(false));
        hv::check("a slice is refined with its own mesh", s.mesh.obstacle.size() == 1 ? sameM(s.mesh.obstacle[0].vertices, before[i].mesh.obstacle[0].vertices) : hv::F(false));
        hv::check("a slice is refined with its own arena", s.mesh.arena.size() == 1 ? sameM(s.mesh.arena[0].vertices, before[i].mesh.arena[0].vertices) : hv::F(false));
    }
    const size_t n0 = old.vertex.size(), n = g.vertex.size();
    hv::check("every new line has its vertex", hv::F(int(n - n0) == done * 2 * ny));
    for (size_t i = n0; i < n; ++i) {
        const int s = int(i - n0) / (2 * ny);
        hv::check("new vertices have the orientation of their slice", hv::near(g.vertex[i].at(3), s ? 0.8 : 1.0, 1e-9) && hv::near(g.vertex[i].at(4), s ? 0.6 : 0.0, 1e-9));
    }
    std::vector<bool> joined(2, false), tried(2, false);
    for (size_t e = old.edge.size(); e < g.edge.size(); ++e) {
        const size_t i = g.edge[e].first, j = g.edge[e].second;
        if (i >= n || j >= n) {
            hv::fail("edges join two vertices");
            return;
        }
        const V &a = g.vertex[i], &b = g.vertex[j];
        double d2 = 0.0;
        for (int k = 0; k < 7; ++k) d2 = d2 + (a[k] - b[k]) * (a[k] - b[k]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
        hv::check("new edges stay in a slice", hv::near(a[4], b[4], 1e-9));
        hv::check("new edges end at a new vertex", hv::F(i >= n0 || j >= n0));
        if ((i < n0) == (j < n0)) continue;
        joined[hv::decide(hv::near(a[4], 0.0, 1e-6)) ? 0 : 1] = true;
        std::vector<hv::F> some;
        for (auto& l : p.log) {
            if (!l.free) continue;
            hv::F x(true), y(true);
            for (int k = 0; k < 7; ++k) x = x && hv::near(l.a[k], a[k], 1e-9) && hv::near(l.b[k], b[k], 1e-9), y = y && hv::near(l.a[k], b[k], 1e-9) && hv::near(l.b[k], a[k], 1e-9);
            some.push_back(x || y);
        }
        hv::check("edges to the roadmap found so far are validated", hv::any(some));
    }
    for (auto& l : p.log)
        if (l.free) tried[hv::decide(hv::near(l.a[4], 0.0, 1e-6)) ? 0 : 1] = true;
    for (int s = 0; s < done && s < 2; ++s) {
        bool any = false;
        for (auto& l : p.log) any = any || hv::decide(hv::near(l.a[4], s ? 0.6 : 0.0, 1e-6));
        hv::check("the refined slice is tried against the slice found so far", hv::F(any));
        if (tried[s]) hv::check("a free transition to the slice found so far joins them", hv::F(joined[s]));
    }
    hv::reach(done == 2 ? "refined" : "time is up");
}
