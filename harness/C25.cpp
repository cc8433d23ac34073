// HV-ORACLE: per slice, the closest vertex by an independent quadratic comparison; returned vertices must be those of slices close to the query's closest slice, within the line range, at most as many as requested, none missing when all may be returned
// HV-BOUND: 2D: up to 3 headings (some without vertices) with up to 3 fixed vertices each, arbitrary query position and heading; 3D: 3 orientations, arbitrary query position, 3 query orientations; 1, 2 or 10 requested neighbours, two search radii; empty roadmaps
// HV-OUTSIDE: more vertices; ties and borders of the ranges within 1e-6
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
using namespace hrm;
using planners::Vertex;
typedef std::vector<double> V;
struct Flat : planners::HRM2D {
    using HRM2D::HRM2D;
    std::vector<Vertex> near(const V& v, Index k, const double& r, const std::vector<V>& g, const V& h, const PlannerParameter& p) {
        res_.graphStructure.vertex = g, headings_ = h, param_ = p;
        return getNearestNeighborsOnGraph(v, k, r);
    }
};
struct Solid : planners::HRM3D {
    using HRM3D::HRM3D;
    std::vector<Vertex> near(const V& v, Index k, const double& r, const std::vector<V>& g, const std::vector<Eigen::Quaterniond>& q, const PlannerParameter& p) {
        res_.graphStructure.vertex = g, q_ = q, param_ = p;
        return getNearestNeighborsOnGraph(v, k, r);
    }
};
// candidates: per slice the indices of its vertices; close: per slice whether it is near the query's closest slice
// range: per vertex whether it is in the line range of the query (formula with both margins)
static void verify(const std::vector<Vertex>& got, const V& query, const std::vector<V>& g, const std::vector<std::vector<int>>& slice,
                   const std::vector<int>& close, const std::vector<hv::F>& within, const std::vector<hv::F>& clearly, int k) {
    hv::check("no more neighbours than requested", hv::F(int(got.size()) <= k));
    auto d2 = [&](int i) {
        double s = 0.0;
        for (size_t j = 0; j < query.size(); ++j) s = s + (query[j] - g[i][j]) * (query[j] - g[i][j]);
        return s;
    };
    std::vector<bool> hit(slice.size(), false);
    int nclose = 0;
    for (size_t s = 0; s < slice.size(); ++s) nclose += close[s];
    for (size_t n = 0; n < got.size(); ++n) {
        if (got[n] >= g.size()) {
            hv::fail("neighbours are roadmap vertices");
            return;
        }
        for (size_t m = 0; m < n; ++m) hv::check("neighbours are distinct", hv::F(got[m] != got[n]));
        int s = -1;
        for (size_t t = 0; t < slice.size(); ++t)
            for (int i : slice[t])
                if (i == int(got[n])) s = int(t);
        hit[s] = true;
        hv::check("neighbours are in slices close to the query", hv::F(close[s] != 0));
        for (int i : slice[s]) hv::check("each neighbour is the closest vertex of its slice", hv::sle(d2(int(got[n])), d2(i)));
        const hv::F w = within[got[n]];
        hv::check("neighbours are within the line range", w);
    }
    if (k >= nclose)
        for (size_t s = 0; s < slice.size(); ++s) {
            if (!close[s] || hit[s] || slice[s].empty()) continue;
            // the closest vertex is out of range, or as close as one that is
            std::vector<hv::F> some;
            for (int i : slice[s]) {
                std::vector<hv::F> best{!clearly[i]};
                for (int j : slice[s]) best.push_back(hv::sle(d2(i), d2(j)));
                some.push_back(hv::all(best));
            }
            hv::check("the closest vertex of every close slice is found", hv::any(some));
        }
    hv::reach("found " + std::to_string(got.size()));
}
static MultiBodyTree2D disc() { return MultiBodyTree2D(SuperEllipse({1.0, 0.5}, 1, {0.0, 0.0}, 0.0, 4)); }
static void flat(int shape, int k, const double& radius) {
    PlanningRequest r;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    r.parameters.numLineY = 4;
    r.parameters.numSlice = 3;
    const V h{-1.0, 0.5, 2.5};
    std::vector<V> g;
    std::vector<std::vector<int>> slice(3);
    auto put = [&](int s, const double& x, const double& y) { slice[s].push_back(int(g.size())), g.push_back({x, y, h[s]}); };
    if (shape != 1) put(0, 1.0, 2.0), put(0, -2.0, 0.0);
    if (shape != 2) put(1, 0.0, 0.0), put(1, 3.0, -1.0), put(1, -3.0, -3.0);
    if (shape != 3) put(2, 2.0, 1.0), put(2, 1.0, -2.0);
    double th = hv::real("heading", -3, 4);
    int best = -1;
    for (int s = 0; s < 3; ++s) {
        if (slice[s].empty()) continue;
        if (best < 0) best = s;
        else {
            const double mid = (h[best] + h[s]) / 2.0;
            hv::assume(!hv::near(th, mid, 1e-4));
            if (hv::decide(hv::lt(mid, th))) best = s;
        }
    }
    std::vector<int> close(3);
    for (int s = 0; s < 3; ++s) {
        const double d = h[best] > h[s] ? h[best] - h[s] : h[s] - h[best];
        close[s] = d < radius;
    }
    V q{hv::real("x", -8, 8), hv::real("y", -4, 4), th};
    const double range = radius * 16.0 / 4.0;
    std::vector<hv::F> within, clearly;
    for (auto& v : g) {
        within.push_back(hv::lt(q[1] - v[1], range) && hv::lt(v[1] - q[1], range));
        clearly.push_back(hv::lt(q[1] - v[1], range - 1e-6) && hv::lt(v[1] - q[1], range - 1e-6));
    }
    Flat p(disc(), {}, {}, r);
    std::vector<Vertex> got;
    hv::guarded("search", [&] { got = p.near(q, k, radius, g, h, r.parameters); });
    verify(got, q, g, slice, close, within, clearly, k);
}
HV_CASE_N(planar, 4) { flat(shard, 10, 0.25); }
HV_CASE_N(planar_wide, 4) { flat(shard, 10, 1.75); }
HV_CASE_N(planar_few, 4) { flat(shard, 1 + shard % 2, shard < 2 ? 1.75 : 0.5); }
HV_CASE(planar_empty) {
    PlanningRequest r;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0};
    r.parameters.numLineY = 4;
    Flat p(disc(), {}, {}, r);
    std::vector<Vertex> got{7};
    hv::guarded("search", [&] { got = p.near({hv::real("x", -8, 8), 0.0, 0.0}, 3, 1.0, {}, {0.0, 1.0}, r.parameters); });
    hv::check("an empty roadmap has no neighbours", hv::F(got.empty()));
    hv::reach("empty");
}
static MultiBodyTree3D ball() { return MultiBodyTree3D(SuperQuadrics({1.0, 1.0, 1.0}, {1.0, 1.0}, {0.0, 0.0, 0.0}, Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0), 4)); }
static void solid(int shape, int query, int k, const double& radius, const std::vector<int>& close) {
    PlanningRequest r;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -4.0, 4.0};
    r.parameters.numLineX = 8;
    r.parameters.numLineY = 4;
    r.parameters.numSlice = 3;
    // unturned, turned by 2 atan(3/4) = 1.287 and 2 atan(4/3) = 1.854 about z
    const std::vector<Eigen::Quaterniond> qs{Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0), Eigen::Quaterniond(0.8, 0.0, 0.0, 0.6), Eigen::Quaterniond(0.6, 0.0, 0.0, 0.8)};
    std::vector<V> g;
    std::vector<std::vector<int>> slice(3);
    auto put = [&](int s, const double& x, const double& y, const double& z) { slice[s].push_back(int(g.size())), g.push_back({x, y, z, qs[s].w(), qs[s].x(), qs[s].y(), qs[s].z()}); };
    if (shape != 1) put(0, 1.0, 2.0, 0.0), put(0, -2.0, 0.0, 1.0);
    if (shape != 2) put(1, 0.0, 0.0, 3.0), put(1, 3.0, -1.0, -1.0);
    if (shape != 3) put(2, 2.0, 1.0, 1.0), put(2, 1.0, -2.0, -2.0), put(2, 1.0, 2.0, 2.0);
    const Eigen::Quaterniond o = query == 0 ? Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0) : query == 1 ? Eigen::Quaterniond(-0.8, 0.0, 0.0, -0.6) : Eigen::Quaterniond(0.28, 0.0, 0.0, 0.96);
    V q{hv::real("x", -8, 8), hv::real("y", -4, 4), hv::real("z", -4, 4), o.w(), o.x(), o.y(), o.z()};
    std::vector<hv::F> within, clearly;
    const double rx = radius * 16.0 / 8.0, ry = radius * 8.0 / 4.0;
    for (auto& v : g) {
        within.push_back(hv::lt(q[0] - v[0], rx) && hv::lt(v[0] - q[0], rx) && hv::lt(q[1] - v[1], ry) && hv::lt(v[1] - q[1], ry));
        const double cx = rx - 1e-6, cy = ry - 1e-6;
        clearly.push_back(hv::lt(q[0] - v[0], cx) && hv::lt(v[0] - q[0], cx) && hv::lt(q[1] - v[1], cy) && hv::lt(v[1] - q[1], cy));
    }
    Solid p(ball(), {}, {}, r);
    std::vector<Vertex> got;
    hv::guarded("search", [&] { got = p.near(q, k, radius, g, qs, r.parameters); });
    verify(got, q, g, slice, close, within, clearly, k);
}
// the closest slice is taken among all orientations
HV_CASE_N(spatial_narrow, 3) { solid(0, shard, 10, 0.25, {shard == 0, shard == 1, shard == 2}); }
HV_CASE_N(spatial_wide, 4) { solid(shard, shard % 3, 10, 1.5, shard % 3 == 0 ? std::vector<int>{1, 1, 0} : shard % 3 == 1 ? std::vector<int>{1, 1, 1} : std::vector<int>{0, 1, 1}); }
HV_CASE_N(spatial_few, 2) { solid(0, 2, 1 + shard, 1.5, {0, 1, 1}); }
HV_CASE(spatial_empty) {
    PlanningRequest r;
    r.parameters.boundaryLimits = {-8.0, 8.0, -4.0, 4.0, -4.0, 4.0};
    r.parameters.numLineX = r.parameters.numLineY = 4;
    Solid p(ball(), {}, {}, r);
    std::vector<Vertex> got{7};
    hv::guarded("search", [&] { got = p.near({hv::real("x", -8, 8), 0.0, 0.0, 1.0, 0.0, 0.0, 0.0}, 3, 1.0, {}, {Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0)}, r.parameters); });
    hv::check("an empty roadmap has no neighbours", hv::F(got.empty()));
    hv::reach("empty");
}
