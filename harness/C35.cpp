// HV-ORACLE: membership in the local C-space is an arbitrary verdict (recorder); every edge of the roadmap traced to a middle vertex between two vertices of neighbouring slices that was found inside around both
// HV-BOUND: 2 or 3 slices of 1 or 2 vertices, positions of two vertices free; up to 2 middle vertices tried per pair, every random number; up to 4 verdicts free, the others negative (or all positive)
// HV-OUTSIDE: more slices, vertices and trials; the shape of the local C-space (nothing in the code fills it), membership itself (C30)
// HV-CUT: isPtInPoly
#include "hrm/planners/HRM2DKC.h"
#include "hv.hpp"
using namespace hrm;
typedef std::vector<double> V;
struct Ask {
    V p;
    bool in;
};
static std::vector<Ask> asked;
static std::vector<int> freeAt;
static bool otherwise;
static const PolyCSpace* mine;
bool hrm::isPtInPoly(PolyCSpace poly, const std::vector<double>& pt) {
    bool in = otherwise;
    for (int f : freeAt)
        if (f == int(asked.size())) in = hv::coin("inside");
    hv::check("the local C-space of the planner is used", hv::F(poly.matrixInverse.size() == 1));
    asked.push_back({pt, in});
    return in;
}
static hv::F same(const V& a, const V& b) {
    if (a.size() < 3 || b.size() < 3) return hv::F(false);
    hv::F f(true);
    for (int i = 0; i < 3; ++i) f = f && hv::near(a[i], b[i], 1e-9);
    return f;
}
static void run(int slices, int perSlice, int trials, const std::vector<int>& freely, bool rest) {
    PlanningRequest r;
    r.parameters.numSlice = slices;
    r.parameters.numLineY = 1;
    r.parameters.numPoint = trials;
    r.parameters.boundaryLimits = {-9.0, 9.0, -9.0, 9.0};
    r.start = r.goal = {double(0), double(0), double(0)};
    MultiBodyTree2D robot(SuperEllipse({double(1), double(0.5)}, 1, {double(0), double(0)}, double(0), 5));
    planners::HRM2DKC p(robot, {}, {}, r);
    p.polyhedronVertex_.matrixInverse.push_back(V(16, double(0)));
    asked.clear(), freeAt = freely, otherwise = rest;
    std::vector<V> v;
    for (int s = 0; s < slices; ++s) {
        p.numVertex_.startId = v.size();
        for (int i = 0; i < perSlice; ++i) {
            const size_t k = v.size();
            v.push_back({k == 0 ? hv::real("x", -9, 9) : double(1.5 * k - 2), k == size_t(perSlice) ? hv::real("y", -9, 9) : double(i - s), double(0.5 * s)});
        }
        p.numVertex_.slice = v.size();
        p.vertexIdx_.push_back(p.numVertex_);
    }
    p.res_.graphStructure.vertex = v;
    hv::guarded("connection", [&] { p.connectMultiSlice(); });
    const auto& g = p.res_.graphStructure;
    const size_t n = v.size();
    if (g.vertex.size() < n || g.edge.size() != g.weight.size() || g.edge.size() != 2 * (g.vertex.size() - n)) {
        hv::fail("two edges for every middle vertex, a weight for every edge");
        return;
    }
    for (size_t i = 0; i < n; ++i) hv::check("vertices of the slices stay", same(g.vertex[i], v[i]));
    std::vector<std::vector<size_t>> ends(g.vertex.size());
    for (size_t e = 0; e < g.edge.size(); ++e) {
        size_t a = g.edge[e].first, b = g.edge[e].second;
        if (a > b) std::swap(a, b);
        if (b >= g.vertex.size() || a >= n || b < n) {
            hv::fail("edges join a vertex of a slice and a middle vertex");
            return;
        }
        ends[b].push_back(a);
        double d2 = double(0);
        for (int k = 0; k < 3; ++k) d2 = d2 + (g.vertex[a][k] - g.vertex[b][k]) * (g.vertex[a][k] - g.vertex[b][k]);
        hv::check("the weight of an edge is its length", hv::le(0.0, g.weight[e]) && hv::near(g.weight[e] * g.weight[e], d2, 1e-7));
    }
    for (size_t m = n; m < g.vertex.size(); ++m) {
        if (ends[m].size() != 2) {
            hv::fail("a middle vertex joins two vertices");
            return;
        }
        const int s = int(ends[m][0]) / perSlice, t = int(ends[m][1]) / perSlice;
        hv::check("a middle vertex joins neighbouring slices", hv::F(s != t && ((s + 1) % slices == t || (t + 1) % slices == s)));
        for (size_t e : ends[m]) {
            V off(3);
            for (int k = 0; k < 3; ++k) off[k] = g.vertex[m][k] - g.vertex[e][k];
            std::vector<hv::F> some;
            for (auto& x : asked)
                if (x.in) some.push_back(same(x.p, off));
            hv::check("a middle vertex is inside the local C-space around both ends", hv::any(some));
        }
        for (int k = 0; k < 3; ++k) {
            const double &a = g.vertex[ends[m][0]][k], &b = g.vertex[ends[m][1]][k], &c = g.vertex[m][k];
            hv::check("a middle vertex lies between its ends", (hv::le(a, c + 1e-9) && hv::le(c, b + 1e-9)) || (hv::le(b, c + 1e-9) && hv::le(c, a + 1e-9)));
        }
    }
    // completeness: with every verdict positive every vertex is joined; with none positive nothing is
    bool any = false, all = true;
    for (auto& x : asked) any = any || x.in, all = all && x.in;
    if (!any) hv::check("nothing is joined without containment", hv::F(g.vertex.size() == n));
    if (all && !asked.empty())
        for (size_t i = 0; i < n; ++i) {
            bool end = false;
            for (auto& e : ends) end = end || std::find(e.begin(), e.end(), i) != e.end();
            if (i % perSlice == 0) hv::check("vertices with a containing middle vertex are joined", hv::F(end));
        }
    if (!any) hv::check("every pair is tried as often as allowed", hv::F(asked.size() >= size_t(slices == 2 ? 1 : slices) * perSlice * perSlice * trials));
    // consecutive positive verdicts around a pair join it
    int both = 0;
    for (size_t i = 0; i + 1 < asked.size(); ++i)
        if (asked[i].in && asked[i + 1].in) {
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < n; ++b) {
                    if (a / perSlice == b / perSlice) continue;
                    V m(3), w(3);
                    for (int k = 0; k < 3; ++k) m[k] = asked[i].p[k] + v[a][k], w[k] = asked[i + 1].p[k] + v[b][k];
                    if (a == 0 || b == 0) (void)0;
                    if (hv::decide(same(m, w))) ++both, i += 1, a = b = n;
                }
        }
    hv::check("a middle vertex that is contained on both sides is added", hv::F(size_t(both) == g.vertex.size() - n));
    hv::reach(g.vertex.size() > n ? "joined" : "not joined");
}
HV_CASE_N(pair, 2) { run(2, 1, 1 + shard, {0, 1, 2, 3}, false); }
HV_CASE_N(ring, 2) { run(3, 1, 1, shard ? std::vector<int>{0, 1, 4, 5} : std::vector<int>{0, 2, 3}, shard); }
HV_CASE_N(many, 2) { run(2, 2, 1, shard ? std::vector<int>{0, 1, 5, 6} : std::vector<int>{1, 2, 3}, shard); }
