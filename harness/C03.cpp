// HV-ORACLE: for an arbitrary query coordinate: member of a reported free segment iff inside every present arena crossing and outside every present obstacle crossing of that line; the real FreeSpaceComputator template is run on symbolic crossings injected through its own members
// HV-BOUND: 2 sweep lines, up to 2 arenas and 3 obstacles per line (4 thorough), every interval end arbitrary in [-100,100] or missing (NaN); arbitrary query coordinate
// HV-OUTSIDE: more bodies per line
#include "givenspace.hpp"
static std::vector<Interval> mk(const std::string& n, int k, bool holes) {
    auto v = mkIntervals(n, k);
    for (int i = 0; i < k; ++i)
        if (holes && hv::coin(n + "missing" + std::to_string(i))) {
            int w = hv::choice(n + "which" + std::to_string(i), 3);
            if (w != 1) v[i].setStart(NAN);
            if (w != 0) v[i].setEnd(NAN);
        }
    return v;
}
static std::vector<Interval> present(const std::vector<Interval>& v) {
    std::vector<Interval> r;
    for (auto& i : v)
        if (!std::isnan(i.s()) && !std::isnan(i.e())) r.push_back(i);
    return r;
}
static void run(int nl, int na, int no, bool holes) {
    SuperEllipse e({5.0, 5.0}, 1, {0.0, 0.0}, 0.0, 4);
    const std::vector<SuperEllipse> arena(na, e), obs(no, e);
    Given g(oneBody2D(), arena, obs);
    for (int l = 0; l < nl; ++l) {
        g.arenas.push_back(mk("a" + std::to_string(l), na, false));
        g.obstacles.push_back(mk("o" + std::to_string(l), no, holes));
    }
    std::vector<Coordinate> ty;
    for (int l = 0; l < nl; ++l) ty.push_back(Coordinate(l));
    FreeSegment2D seg;
    hv::guarded("free segments", [&] {
        g.setup(nl, -100.0, 100.0);
        g.computeIntersectionInterval({ty});
    });
    double x = hv::real("x");
    for (int l = 0; l < nl; ++l) {
        std::vector<Interval> out;
        hv::guarded("sweep line segments", [&] { out = g.computeSweepLineFreeSegment(l); });
        auto ob = present(g.obstacles[l]);
        for (size_t i = 0; i < out.size(); ++i) {
            hv::check("segment ordered", hv::le(out[i].s(), out[i].e()));
            if (i) hv::check("segments sorted, not overlapping", hv::le(out[i - 1].e(), out[i].s()));
        }
        hv::check("free point is inside every arena", hv::implies(inside(out, x), insideAll(g.arenas[l], x)));
        hv::check("free point is in no obstacle", hv::implies(inside(out, x), !strictlyInside(ob, x)));
        hv::check("no free point lost", hv::implies(insideAll(g.arenas[l], x) && !inside(ob, x), inside(out, x)));
        hv::reach("segments " + std::to_string(out.size()));
    }
}
HV_CASE_N(oneLine, 4) { run(1, 1, shard, true); }
HV_CASE(twoArenas) { run(1, 2, 2, false); }
HV_CASE_T(fourObstacles, 1) { run(1, 2, 4, false); }
// the complete public pipeline: segments of both lines, lists consistent
static void pipeline(int no, bool holes) {
    SuperEllipse e({5.0, 5.0}, 1, {0.0, 0.0}, 0.0, 4);
    const std::vector<SuperEllipse> arena{e}, obs(no, e);
    Given g(oneBody2D(), arena, obs);
    const int nl = 2;
    for (int l = 0; l < nl; ++l) {
        g.arenas.push_back(mk("a" + std::to_string(l), 1, false));
        g.obstacles.push_back(mk("o" + std::to_string(l), no, holes));
    }
    FreeSegment2D seg;
    const double y0 = hv::real("y0", -10, 10), y1 = hv::real("y1", -10, 10);
    hv::guarded("free segments", [&] {
        g.setup(nl, -100.0, 100.0);
        g.computeIntersectionInterval({{y0, y1}});
        g.computeFreeSegment({y0, y1});
        seg = g.getFreeSegment();
    });
    if (seg.ty.size() != 2 || seg.xL.size() != 2 || seg.xM.size() != 2 || seg.xU.size() != 2) {
        hv::fail("one entry per sweep line");
        return;
    }
    hv::check("line heights kept", hv::eq(seg.ty[0], y0) && hv::eq(seg.ty[1], y1));
    for (int l = 0; l < nl; ++l) {
        if (seg.xL[l].size() != seg.xM[l].size() || seg.xU[l].size() != seg.xM[l].size()) {
            hv::fail("bounds and vertices come in equal numbers");
            return;
        }
        auto ob = present(g.obstacles[l]);
        for (size_t k = 0; k < seg.xM[l].size(); ++k) {
            hv::check("vertex inside the arena", insideAll(g.arenas[l], seg.xM[l][k]));
            hv::check("vertex outside every obstacle", !strictlyInside(ob, seg.xM[l][k]));
        }
        hv::reach("vertices " + std::to_string(seg.xM[l].size()));
    }
}
HV_CASE_N(pipelineOne, 2) { pipeline(1, shard); }
HV_CASE_T(pipelineTwo, 2) { pipeline(2, shard); }
