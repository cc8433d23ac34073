// HV-ORACLE: all simple paths of the graph are enumerated by the harness: the reported walk uses roadmap edges only, its edge weights add up to the reported cost, and no other path between its ends is shorter; unsolved only if no candidate pair is connected
// HV-BOUND: 7 graphs of 1 to 5 vertices (complete, ring, disconnected, parallel edges, self loops, ladder with detours), every edge weight arbitrary between the distance of its ends and 100, end points at several fixed places (all coincident, on a line, in the plane); one to two candidate vertices per end, repeated searches
// HV-OUTSIDE: larger graphs, edges shorter than the distance between their ends (the planners never create them)
#include "graph.hpp"
struct Net {
    int n;
    std::vector<std::pair<int, int>> edge;
    std::vector<double> w;
};
static double posx(int place, int i) {  // 3-4-5 triangles keep the distances rational
    static const int x[3][6] = {{0, 0, 0, 0, 0, 0}, {0, 2, 1, 5, 3, 4}, {0, 3, 3, 0, 6, 6}};
    return double(x[place][i]);
}
static double posy(int place, int i) {
    static const int y[3][6] = {{0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}, {0, 4, 0, 4, 0, 4}};
    return double(y[place][i]);
}
static int dist2(int place, int i, int j) {
    const int dx = hv::asInt(posx(place, i) - posx(place, j)), dy = hv::asInt(posy(place, i) - posy(place, j));
    return dx * dx + dy * dy;
}
// every simple path from s to g: the sum of the weights
static void walks(const Net& t, int s, int g, std::vector<bool>& seen, const double& sum, std::vector<double>& out) {
    if (s == g) {
        out.push_back(sum);
        return;
    }
    seen[s] = true;
    for (size_t e = 0; e < t.edge.size(); ++e)
        for (int side = 0; side < 2; ++side) {
            const int a = side ? t.edge[e].second : t.edge[e].first, b = side ? t.edge[e].first : t.edge[e].second;
            if (a == s && !seen[b]) walks(t, b, g, seen, sum + t.w[e], out);
        }
    seen[s] = false;
}
static std::vector<double> walks(const Net& t, int s, int g) {
    std::vector<bool> seen(t.n, false);
    std::vector<double> out;
    walks(t, s, g, seen, 0.0, out);
    return out;
}
static PlanningRequest request() {
    PlanningRequest r;
    r.start = {-1.0, 0.0, 0.0};
    r.goal = {9.0, 0.0, 0.0};
    return r;
}
static void verify(Given& p, const Net& t, const std::vector<Vertex>& ss, const std::vector<Vertex>& gs) {
    bool connected = false;
    for (auto s : ss)
        for (auto g : gs) connected = connected || !walks(t, int(s), int(g)).empty();
    const auto& r = p.result();
    if (!r.solved) {
        if (connected) hv::fail("connected ends are solved");
        hv::reach("unsolved");
        return;
    }
    if (!connected) {
        hv::fail("a path is only reported between connected ends");
        return;
    }
    const auto& id = r.solutionPath.PathId;
    if (id.empty()) {
        hv::fail("a solution has a path");
        return;
    }
    bool s = false, g = false;
    for (auto x : ss) s = s || x == id.front();
    for (auto x : gs) g = g || x == id.back();
    hv::check("the path starts at a candidate of the start and ends at one of the goal", hv::F(s && g));
    double sum = 0.0;
    for (size_t i = 0; i + 1 < id.size(); ++i) {
        std::vector<double> w;
        for (size_t e = 0; e < t.edge.size(); ++e)
            if ((t.edge[e].first == int(id[i]) && t.edge[e].second == int(id[i + 1])) ||
                (t.edge[e].second == int(id[i]) && t.edge[e].first == int(id[i + 1])))
                w.push_back(t.w[e]);
        if (w.empty()) {
            hv::fail("consecutive path vertices are joined by a roadmap edge");
            return;
        }
        size_t m = 0;
        for (size_t k = 1; k < w.size(); ++k)
            if (hv::decide(hv::lt(w[k], w[m]))) m = k;
        sum = sum + w[m];
    }
    hv::check("the cost is the length of the path", hv::eq(r.solutionPath.cost, sum));
    for (const auto& other : walks(t, int(id.front()), int(id.back())))
        hv::check("no shorter path between the ends", hv::sle(sum, other));
    hv::reach("solved with " + std::to_string(id.size()));
}
static void run(int place, int n, std::vector<std::pair<int, int>> edges, std::vector<Vertex> ss, std::vector<Vertex> gs, bool twice = false) {
    Given p(oneBody2D(), {}, {}, request());
    Net t;
    t.n = n;
    t.edge = edges;
    for (int i = 0; i < n; ++i) p.graph().vertex.push_back({posx(place, i), posy(place, i), 0.0});
    for (size_t e = 0; e < edges.size(); ++e) {
        const int d2 = dist2(place, edges[e].first, edges[e].second);
        int d = 0;
        while (d * d < d2) ++d;  // rounded up where irrational
        double w = hv::real("w" + std::to_string(e), d, 100);
        t.w.push_back(w);
        p.add(edges[e].first, edges[e].second, w);
    }
    p.nearest = [&](const std::vector<Coordinate>& v) { return hv::asInt(v[0]) < 0 ? ss : gs; };
    hv::guarded("search", [&] { p.find(); });
    verify(p, t, ss, gs);
    if (twice && !p.result().solved) {
        // a later search of a grown roadmap
        double w = hv::real("new", 20, 100);
        t.edge.push_back({int(ss[0]), int(gs[0])});
        t.w.push_back(w);
        p.add(int(ss[0]), int(gs[0]), w);
        hv::guarded("second search", [&] { p.find(); });
        verify(p, t, ss, gs);
    }
}
HV_CASE_N(complete, 3) { run(shard, 4, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, {0}, {3}); }
HV_CASE_N(ring, 3) { run(shard, 5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}}, {1}, {4}); }
HV_CASE_N(ladder, 3) { run(shard, 5, {{3, 1}, {1, 0}, {0, 2}, {2, 4}, {1, 2}, {3, 4}}, {3}, {2}); }
HV_CASE_N(parallel, 3) { run(shard, 3, {{0, 1}, {1, 0}, {1, 2}, {2, 1}, {0, 0}, {0, 2}}, {0}, {2}); }
HV_CASE_N(candidates, 2) { run(shard + 1, 5, {{1, 2}, {2, 3}, {3, 1}}, {0, 1}, {4, 3}); }
HV_CASE_N(islands, 2) { run(shard, 5, {{0, 1}, {2, 3}, {3, 4}, {1, 1}}, {0, 1}, {2, 4}, true); }
HV_CASE(single) { run(1, 1, {}, {0}, {0}); }
HV_CASE(same) { run(1, 3, {{0, 1}, {1, 2}}, {1}, {1}); }
HV_CASE(nothing) { run(1, 3, {{0, 1}, {1, 2}}, {}, {1}); }
HV_CASE_T(complete5, 3) { run(shard, 5, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}, {3, 4}, {2, 4}}, {0}, {4}); }
