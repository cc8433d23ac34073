// HV-ORACLE: the path through plan(): start pose, roadmap vertices of the found path in order, goal pose; every interpolated pose lies on the polyline of solved poses in order, no step is longer than twice the nominal spacing (when the roadmap part has length), ends and orientations agree; nothing is reported when unsolved
// HV-BOUND: paths of 1 to 3 roadmap vertices at arbitrary positions; interpolated paths: segments of any length along three different axes, 1 to 3 requested points, rigid and articulated poses, zero-length segments and paths, turned ends, requests with further coordinates than the roadmap
// HV-OUTSIDE: longer paths, segments in general direction with turning (C16 covers the interpolation of one segment)
#include "hrm/planners/HRM3D.h"
#include "graph.hpp"
// Three-dimensional planner whose roadmap is given
struct Given3 : planners::HRM3D {
    using HRM3D::HRM3D;
    Graph given;
    std::vector<Vertex> ss, gs;
    Index want = 0;
    int asked = 0;
    void constructOneSlice(const Index) override { res_.graphStructure = given; }
    void sampleOrientations() override {}
    void connectMultiSlice() override {}
    std::vector<Vertex> getNearestNeighborsOnGraph(const std::vector<Coordinate>&, const Index, const double) override { return asked++ % 2 ? gs : ss; }
    const PlanningResult& run() {
        plan(0.0);
        return res_;
    }
};
typedef std::vector<double> V;
static void samePose(const std::string& label, const V& a, const V& b) {
    if (a.size() != b.size()) {
        hv::fail(label);
        return;
    }
    std::vector<hv::F> f;
    for (size_t i = 0; i < a.size(); ++i) f.push_back(hv::near(a[i], b[i], 1e-9));
    hv::check(label, hv::all(f));
}
HV_CASE_N(planar, 5) {
    const bool connected = shard != 3;
    const int n = shard == 0 ? 1 : 3;
    PlanningRequest r;
    r.parameters.numSlice = 1;
    r.parameters.boundaryLimits = {-10.0, 10.0, -10.0, 10.0};
    r.start = {hv::real("sx", -9, 9), hv::real("sy", -9, 9), hv::real("st", -3, 3)};
    r.goal = {hv::real("gx", -9, 9), hv::real("gy", -9, 9), hv::real("gt", -3, 3)};
    const V start = r.start, goal = r.goal;
    // coordinates beyond those of the roadmap (joints of a rigid robot) are not part of the path
    if (shard == 4) r.start.push_back(hv::real("extra", -1, 1)), r.goal.push_back(0.5), r.goal.push_back(0.25);
    Given p(oneBody2D(), {}, {}, r);
    std::vector<V> v;
    for (int i = 0; i < n; ++i) v.push_back({hv::real("x" + std::to_string(i), -9, 9), 1.0, 0.5 * i});
    p.slice = [&](Index) {
        p.graph().vertex = v;
        if (n == 3) {
            // the chain is the only connection, of arbitrary (large) length
            p.add(0, 1, hv::real("w0", 30, 40));
            if (connected) p.add(2, 1, hv::real("w1", 30, 40));
        }
    };
    int asked = 0;
    p.nearest = [&](const V&) { return asked++ % 2 ? std::vector<Vertex>{Vertex(shard == 2 ? 0 : n - 1)} : std::vector<Vertex>{Vertex(shard == 2 ? n - 1 : 0)}; };
    hv::guarded("plan", [&] { p.plan(0.0); });
    const auto& res = p.result();
    if (!connected) {
        hv::check("nothing reported when unsolved", hv::F(!res.solved && res.solutionPath.solvedPath.empty() && res.solutionPath.interpolatedPath.empty()));
        hv::reach("unsolved");
        return;
    }
    if (!res.solved || int(res.solutionPath.solvedPath.size()) != n + 2) {
        hv::fail("the path has the start, every vertex and the goal");
        return;
    }
    const auto& s = res.solutionPath.solvedPath;
    samePose("the path begins at the start", s.front(), start);
    samePose("the path ends at the goal", s.back(), goal);
    for (int i = 0; i < n; ++i) samePose("the vertices follow in order", s[i + 1], v[shard == 2 ? n - 1 - i : i]);
    const auto& ip = res.solutionPath.interpolatedPath;
    if (ip.size() < 2) hv::fail("an interpolated path is reported");
    else {
        samePose("the interpolated path begins at the start", ip.front(), start);
        samePose("the interpolated path ends at the goal", ip.back(), goal);
    }
    hv::reach("solved");
}
static MultiBodyTree3D ball() { return MultiBodyTree3D(SuperQuadrics({1.0, 1.0, 1.0}, {1.0, 1.0}, {0.0, 0.0, 0.0}, Eigen::Quaterniond(1.0, 0.0, 0.0, 0.0), 4)); }
// legs of the path along x, y and z; q: orientation of each of the four poses; joints: extra coordinates
static void legs(const double& a, const double& b, const double& c, const std::vector<V>& q, int joints, int num, bool spaced = true) {
    auto pose = [&](const double& x, const double& y, const double& z, int i) {
        V v{x, y, z, q[i][0], q[i][1], q[i][2], q[i][3]};
        for (int k = 0; k < joints; ++k) v.push_back(k == 0 ? double(0.25) : double(-0.5));
        return v;
    };
    const double zero = 0.0;
    PlanningRequest r;
    r.parameters.numSlice = 1;
    r.parameters.numPoint = num;
    r.parameters.numLineX = r.parameters.numLineY = 2;
    r.parameters.boundaryLimits = {-10.0, 10.0, -10.0, 10.0, -10.0, 10.0};
    const std::vector<V> poses{pose(zero, zero, zero, 0), pose(a, zero, zero, 1), pose(a, b, zero, 2), pose(a, b, c, 3)};
    r.start = poses[0], r.goal = poses[3];
    Given3 p(ball(), {}, {}, r);
    p.given.vertex = {poses[1], poses[2]};
    p.given.edge = {{0, 1}};
    p.given.weight = {b};
    p.ss = {0}, p.gs = {1};
    PlanningResult res;
    hv::guarded("plan", [&] { res = p.run(); });
    const auto& s = res.solutionPath.solvedPath;
    if (!res.solved || s.size() != 4) {
        hv::fail("the path has the start, every vertex and the goal");
        return;
    }
    for (int i = 0; i < 4; ++i) samePose("the solved path has the start, every vertex in order and the goal", s[i], poses[i]);
    const auto& ip = res.solutionPath.interpolatedPath;
    if (ip.size() < 4) {
        hv::fail("the interpolated path keeps every solved pose");
        return;
    }
    for (auto& v : ip)
        if (v.size() != s[0].size()) {
            hv::fail("interpolated poses have all coordinates");
            return;
        }
    samePose("the interpolated path begins at the start", ip.front(), poses[0]);
    samePose("the interpolated path ends at the goal", ip.back(), poses[3]);
    const double spacing = b / double(num * 3), tol = 1e-9;
    const bool turning = q[0] != q[3];
    for (size_t i = 0; i < ip.size(); ++i) {
        const auto& v = ip[i];
        const hv::F x0 = hv::near(v[0], zero, 1e-9), y0 = hv::near(v[1], zero, 1e-9), z0 = hv::near(v[2], zero, 1e-9);
        const hv::F xa = hv::near(v[0], a, 1e-9), yb = hv::near(v[1], b, 1e-9);
        hv::check("interpolated poses lie on the path", (y0 && z0) || (xa && z0) || (xa && yb));
        for (int k = 0; k < joints; ++k) hv::check("joint values stay on the path", hv::near(v[7 + k], poses[0][7 + k], 1e-9));
        if (!turning) {
            for (int k = 0; k < 4; ++k) hv::check("the orientation stays on the path", hv::near(v[3 + k], poses[0][3 + k], 1e-9));
        }
        if (!i) continue;
        const auto& u = ip[i - 1];
        const double step = (v[0] - u[0]) + (v[1] - u[1]) + (v[2] - u[2]);
        for (int k = 0; k < 3; ++k) hv::check("interpolated poses advance along the path", hv::le(u[k] - tol, v[k]));
        if (spaced) hv::check("no step is longer than twice the spacing", hv::le(step, 2.0 * spacing + 1e-6));
    }
    for (int i = 1; i < 3; ++i) {
        std::vector<hv::F> some;
        for (auto& v : ip) {
            std::vector<hv::F> f;
            for (int k = 0; k < 7; ++k) f.push_back(hv::near(v[k], poses[i][k], 1e-9));
            some.push_back(hv::all(f));
        }
        hv::check("the interpolated path keeps every solved pose", hv::any(some));
    }
    hv::reach("interpolated");
}
static const std::vector<V> still() { return std::vector<V>(4, V{1.0, 0.0, 0.0, 0.0}); }
HV_CASE_N(spatial, 3) { legs(hv::real("a", 0, 1), hv::real("b", 2, 4), hv::real("c", 0, 1), still(), 0, 1 + shard); }
HV_CASE_N(articulated, 2) { legs(hv::real("a", 0, 1), hv::real("b", 2, 4), 1.0, still(), 2, 1 + shard); }
HV_CASE_N(turned, 2) {
    std::vector<V> q = still();
    q[0] = {0.5, 0.5, 0.5, 0.5};
    if (shard) q[3] = {0.0, 0.0, 0.0, 1.0};
    else q[3] = q[0], q[1] = q[0], q[2] = q[0];
    legs(1.0, hv::real("b", 2, 4), 1.0, q, 0, 2);
}
HV_CASE_N(zero, 2) { legs(hv::real("a", 0, 1), 0.0, shard ? hv::real("c", 0, 1) : double(0.0), still(), 2 * shard, 3, false); }
