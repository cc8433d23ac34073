// HV-ORACLE: arbitrary query coordinate is in the decomposed segments of a line iff it was in the original ones; vertex within its own segment; sortedness; every overlap of adjacent lines carries a vertex within both
// HV-BOUND: 2 lines with up to 2x2 free segments and 3 lines with 1-2-1 segments (thorough: 3x2, 3 lines 2-1-2), segment ends arbitrary in [-100,100]; arbitrary query coordinate
// HV-OUTSIDE: more lines, more segments per line
#include "givenspace.hpp"
// free segments of a line: the arena cut by ordered, separate obstacles
static std::vector<Interval> cut(const std::string& n, int k, std::vector<Interval>& arena, std::vector<Interval>& obs) {
    std::vector<double> c;
    for (int i = 0; i < 2 * k; ++i) {
        c.push_back(hv::real(n + std::to_string(i), -100, 100));
        if (i) hv::assume(hv::lt(c[i - 1], c[i]));
    }
    std::vector<Interval> free;
    arena.push_back({c.front(), c.back()});
    for (int i = 0; i < k; ++i) free.push_back({c[2 * i], c[2 * i + 1]});
    for (int i = 0; i + 1 < k; ++i) obs.push_back({c[2 * i + 1], c[2 * i + 2]});
    return free;
}
static void run(const std::vector<int>& ks) {
    const int nl = (int)ks.size();
    SuperEllipse e({5.0, 5.0}, 1, {0.0, 0.0}, 0.0, 4);
    int no = 0;
    for (int k : ks) no = std::max(no, k - 1);
    const std::vector<SuperEllipse> arena{e}, obs(no, e);
    Given g(oneBody2D(), arena, obs);
    std::vector<std::vector<Interval>> free;
    std::vector<Coordinate> ty;
    for (int l = 0; l < nl; ++l) {
        g.arenas.emplace_back();
        g.obstacles.emplace_back();
        free.push_back(cut("c" + std::to_string(l) + "_", ks[l], g.arenas[l], g.obstacles[l]));
        ty.push_back(Coordinate(l));
    }
    FreeSegment2D seg;
    hv::guarded("free segments", [&] {
        g.setup(nl, -100.0, 100.0);
        g.computeIntersectionInterval({ty});
        g.computeFreeSegment(ty);
        seg = g.getFreeSegment();
    });
    if ((int)seg.ty.size() != nl || (int)seg.xL.size() != nl || (int)seg.xM.size() != nl || (int)seg.xU.size() != nl) {
        hv::fail("one entry per sweep line");
        return;
    }
    double x = hv::real("x");
    std::string w;
    for (int l = 0; l < nl; ++l) {
        auto &L = seg.xL[l], &M = seg.xM[l], &U = seg.xU[l];
        if (L.size() != M.size() || U.size() != M.size() || M.size() < free[l].size()) {
            hv::fail("bounds and vertices come in equal numbers");
            return;
        }
        for (size_t k = 0; k < M.size(); ++k) {
            hv::check("vertex within its bounds", hv::le(L[k], M[k]) && hv::le(M[k], U[k]));
            hv::check("vertex inside a free segment of its line", inside(free[l], M[k]));
            if (k) {
                hv::check("vertices of a line are sorted", hv::le(M[k - 1], M[k]));
                // what the roadmap treats as a free stretch is free
                hv::F joined = hv::eq(U[k - 1], L[k]);
                hv::check("stretch between joined vertices is free",
                          hv::implies(joined && hv::le(M[k - 1], x) && hv::le(x, M[k]), inside(free[l], x)));
                hv::F same(false);
                for (auto& f : free[l])
                    same = same || (hv::le(f.s(), M[k - 1]) && hv::le(M[k], f.e()));
                hv::check("neighbours in one free segment are joined", hv::implies(same, joined));
            }
        }
        for (auto& f : free[l]) {
            hv::F kept(false);
            for (auto& m : M) kept = kept || hv::eq(m, (f.s() + f.e()) / 2.0);
            hv::check("middle of every free segment kept", kept);
        }
        w += " " + std::to_string(M.size());
    }
    for (int l = 0; l + 1 < nl; ++l)
        for (auto& a : free[l])
            for (auto& b : free[l + 1]) {
                hv::F ov = hv::le(a.s(), b.e()) && hv::le(b.s(), a.e()), v0(false), v1(false);
                for (auto& m : seg.xM[l])
                    v0 = v0 || (hv::le(a.s(), m) && hv::le(m, a.e()) && hv::le(b.s(), m) && hv::le(m, b.e()));
                for (auto& m : seg.xM[l + 1])
                    v1 = v1 || (hv::le(a.s(), m) && hv::le(m, a.e()) && hv::le(b.s(), m) && hv::le(m, b.e()));
                hv::check("overlapping segments get a vertex in the overlap on both lines", hv::implies(ov, v0 && v1));
            }
    hv::reach("vertices" + w);
}
HV_CASE(oneOne) { run({1, 1}); }
HV_CASE(oneTwo) { run({1, 2}); }
HV_CASE(twoOne) { run({2, 1}); }
HV_CASE_N(twoTwo, 1) { run({2, 2}); }
HV_CASE(threeLines) { run({1, 1, 1}); }
HV_CASE(single) { run({2}); }
HV_CASE_T(oneTwoOne, 1) { run({1, 2, 1}); }
HV_CASE_T(twoOneTwo, 1) { run({2, 1, 2}); }
HV_CASE_T(threeTwo, 1) { run({3, 2}); }
