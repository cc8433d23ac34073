// HV-ORACLE: (a) independent min/max formula for a polygon on a line; (b) half-plane membership of the query point in the polygons built independently from the boundary points
// HV-BOUND: (a) triangles (thorough: quadrilaterals, closed triangles) with arbitrary vertices in [-5,5] and an arbitrary line height; (b) real C-space boundaries of 6-point ellipses at 3 body orientations, body and obstacle shape fixed, obstacle centre, line height and sweep limits arbitrary; (c) two arenas, two obstacles, a body with a link and two lines, one place, line height or limit arbitrary
// HV-OUTSIDE: other body and obstacle shapes in (b), more boundary points
#include "givenspace.hpp"
#include "poly.hpp"
#include "hrm/geometry/LineIntersection.h"
// (a) the line/polygon routine, on arbitrary convex polygons
static void routine(int k, bool closed) {
    Eigen::MatrixXd p = symConvex("", k, -5, 5, closed);
    double ty = hv::real("ty", -6, 6), x = hv::real("x", -6, 6);
    std::vector<double> pts;
    hv::guarded("line polygon intersection", [&] { pts = intersectHorizontalLinePolygon2D(ty, p); });
    hv::F inP = insidePoly(p, x, ty);
    if (pts.empty()) {
        hv::check("no crossing reported only if the line misses the polygon", !inP);
        hv::reach("no crossing");
        return;
    }
    double lo = pts[0], hi = pts[0];
    hv::F num(true), within(false);
    for (auto& q : pts) {
        num = num && hv::isNum(q);
        hv::check("every crossing is a number", hv::isNum(q));
    }
    hv::F hitLo(false), hitHi(false), b(false);
    for (auto& q : pts) hitLo = hitLo || hv::sle(q, x, 1e-6), hitHi = hitHi || hv::sle(x, q, 1e-6);
    hv::check("crossings span every inside point", hv::implies(inP, hitLo && hitHi));
    for (auto& q : pts) {
        hv::F in(true);
        // the crossing lies in the (closed) polygon
        for (int i = 0; i < p.cols(); ++i) {
            int j = (i + 1) % (int)p.cols();
            double c = (p(0, j) - p(0, i)) * (ty - p(1, i)) - (p(1, j) - p(1, i)) * (q - p(0, i));
            in = in && hv::sle(double(0), c, 1e-6);
        }
        hv::check("every crossing belongs to the polygon", in);
    }
    hv::reach(pts.empty() ? "no crossing" : "crossings");
    (void)lo, (void)hi, (void)b, (void)within, (void)num;
}
HV_CASE(triangle) { routine(3, false); }
HV_CASE_T(closedTriangle, 1) { routine(3, true); }
HV_CASE_T(quad, 1) { routine(4, false); }

// (b) free space intervals on real C-space boundaries
static void space(int shard, bool arenaCase) {
    const double ang[3] = {0.0, 0.7, HALF_PI};
    MultiBodyTree2D rob(SuperEllipse({1.0, 0.5}, 1, {0.0, 0.0}, ang[shard % 3], 6));
    double cx = hv::real("cx", -3, 3), cy = hv::real("cy", -3, 3);
    const bool arenaMoves = arenaCase;
    double ay = hv::real("ay", -1, 1);
    const std::vector<SuperEllipse> arena{
        SuperEllipse({10.0, 8.0}, 1, {arenaMoves ? cx : double(0), arenaMoves ? cy : ay}, 0.2, 6)};
    const std::vector<SuperEllipse> obs{
        SuperEllipse({2.0, 1.0}, 1, {arenaMoves ? double(0) : cx, arenaMoves ? ay : cy}, -0.4, 6)};
    double lowB = hv::real("lowBound", -12, -1), upB = hv::real("upBound", 1, 12);
    double ty = hv::real("ty", -12, 12), x = hv::real("x", -12, 12);
    FreeSpace2D fs(rob, arena, obs);
    IntersectionInterval iv;
    FreeSegment2D seg;
    BoundaryInfo bd;
    hv::guarded("free space", [&] {
        fs.setup(1, lowB, upB);
        fs.computeCSpaceBoundary();
        fs.computeIntersectionInterval({{ty}});
        fs.computeFreeSegment({ty});
        iv = fs.getIntersectionInterval();
        seg = fs.getFreeSegment();
        bd = fs.getCSpaceBoundary();
    });
    if (bd.arena.size() != 1 || bd.obstacle.size() != 1 || seg.xL.size() != 1 || seg.xL[0].size() != seg.xU[0].size()) {
        hv::fail("one boundary per body");
        return;
    }
    const Eigen::MatrixXd O = openPoly(bd.obstacle[0]), A = openPoly(bd.arena[0]);
    hv::F inO = insidePoly(O, x, ty), inOwide = insidePoly(O, x, ty, -1e-4);
    hv::F inOdeep = insidePoly(O, x, ty, 1e-4), inAdeep = insidePoly(A, x, ty, 1e-4);
    hv::F freeSeg(false);
    for (size_t i = 0; i < seg.xL[0].size(); ++i)
        freeSeg = freeSeg || (hv::le(seg.xL[0][i], x) && hv::le(x, seg.xU[0][i]));
    if (!arenaCase) {
        const double &lo = iv.obstacleLow[0][0], &hi = iv.obstacleUpp[0][0];
        bool none = std::isnan(lo) || std::isnan(hi);
        if (none)
            hv::check("line misses the obstacle boundary", !inOdeep);
        else {
            hv::check("obstacle interval covers the obstacle", hv::implies(inOdeep, hv::sle(lo, x, 1e-5) && hv::sle(x, hi, 1e-5)));
            hv::check("obstacle interval is tight", hv::implies(hv::le(lo, x) && hv::le(x, hi), inOwide));
        }
        hv::check("free stretch avoids the obstacle", hv::implies(freeSeg, !inOdeep));
        hv::check("nothing free lost", hv::implies(!inOwide && inAdeep && hv::le(lowB, x) && hv::le(x, upB), freeSeg));
        hv::reach(none ? "misses" : "hits");
    } else {
        hv::check("free stretch stays in the arena", hv::implies(freeSeg, insidePoly(A, x, ty, -1e-4)));
        hv::check("free stretch stays within the sweep limits", hv::implies(freeSeg, hv::le(lowB, x) && hv::le(x, upB)));
        hv::check("nothing free lost", hv::implies(!inOwide && inAdeep && hv::le(lowB, x) && hv::le(x, upB), freeSeg));
        hv::reach("segments " + std::to_string(seg.xL[0].size()));
    }
}
HV_CASE_N(obstacles, 3) { space(shard, false); }
HV_CASE_N(arenas, 3) { space(shard, true); }

// several arenas, obstacles, bodies and lines at once: every one of them counts, each line by itself
HV_CASE_N(several, 5) {
    MultiBodyTree2D rob(SuperEllipse({1.0, 0.5}, 1, {0.0, 0.0}, 0.0, 6));
    rob.addBody(SuperEllipse({0.5, 0.5}, 1, {1.5, 0.5}, 0.3, 6));
    Eigen::Matrix3d tf;
    tf << cos(0.4), -sin(0.4), 0.25, sin(0.4), cos(0.4), -0.5, 0, 0, 1;
    rob.robotTF(tf);
    const double s = shard == 4 ? hv::real("s", -1, 1) : hv::real("s", -4, 4), low = -6, upp = shard == 3 ? 1 + s / 4 : double(7), x = hv::real("x", -9, 9);
    const double ax = shard == 1 ? s : double(1), ox = shard == 2 ? s : double(2);
    const std::vector<SuperEllipse> arena{SuperEllipse({10.0, 8.0}, 1, {0.0, 0.0}, 0.2, 6), SuperEllipse({8.0, 9.0}, 1, {ax, 0.5}, 0.0, 6)};
    const std::vector<SuperEllipse> obs{SuperEllipse({1.0, 0.75}, 1, {-2.5, 0.5}, -0.4, 6), SuperEllipse({0.5, 1.0}, 1, {ox, 0.25}, 0.1, 6)};
    // shard 4: more lines than bodies, the last ones miss everything
    std::vector<double> ty{shard == 0 ? s : double(0.25), -0.625};
    if (shard == 4) ty = {-0.625, 0.25, s, -13.0, 20.0, 13.0};
    const int lines = ty.size(), own = shard == 4 ? 2 : 0;
    FreeSpace2D fs(rob, arena, obs);
    FreeSegment2D seg;
    BoundaryInfo bd;
    IntersectionInterval iv;
    hv::guarded("free space", [&] {
        fs.setup(lines, low, upp);
        fs.computeCSpaceBoundary();
        bd = fs.getCSpaceBoundary();
        // lines through a boundary point are left to the other cases
        for (auto* list : {&bd.arena, &bd.obstacle})
            for (auto& b : *list)
                for (int i = 0; i < b.cols(); ++i) hv::assume(hv::sle(ty[own], b(1, i), -1e-6) || hv::sle(b(1, i), ty[own], -1e-6));
        fs.computeIntersectionInterval({ty});
        fs.computeFreeSegment(ty);
        seg = fs.getFreeSegment();
        iv = fs.getIntersectionInterval();
    });
    if (bd.arena.size() != 4 || bd.obstacle.size() != 4 || int(seg.xL.size()) != lines || int(seg.xU.size()) != lines) {
        hv::fail("one boundary per body and part, one list of stretches per line");
        return;
    }
    for (int l = 0; l < lines; ++l) {
        if (seg.xL[l].size() != seg.xU[l].size() || seg.xL[l].size() != seg.xM[l].size()) {
            hv::fail("stretches are complete");
            return;
        }
        hv::F blocked(false), widely(false), inside = hv::le(low, x) && hv::le(x, upp), deep = inside, stretch(false);
        for (auto& o : bd.obstacle) blocked = blocked || insidePoly(openPoly(o), x, ty[l], 1e-4), widely = widely || insidePoly(openPoly(o), x, ty[l], -1e-4);
        for (auto& a : bd.arena) inside = inside && insidePoly(openPoly(a), x, ty[l], -1e-4), deep = deep && insidePoly(openPoly(a), x, ty[l], 1e-4);
        for (int j = 0; j < 4; ++j) {
            const hv::F in = hv::le(iv.arenaLow[l][j], x) && hv::le(x, iv.arenaUpp[l][j]), lim = hv::le(low, x) && hv::le(x, upp);
            hv::check("the interval of an arena is its part within the limits",
                      hv::implies(in, lim && insidePoly(openPoly(bd.arena[j]), x, ty[l], -1e-4)) && hv::implies(lim && insidePoly(openPoly(bd.arena[j]), x, ty[l], 1e-4), in));
        }
        for (size_t i = 0; i < seg.xL[l].size(); ++i) stretch = stretch || (hv::le(seg.xL[l][i], x) && hv::le(x, seg.xU[l][i]));
        hv::check("free stretches avoid every obstacle", hv::implies(stretch, !blocked));
        hv::check("free stretches stay in every arena and the limits", hv::implies(stretch, inside));
        hv::check("no free place of several is lost", hv::implies(deep && !widely, stretch));
    }
    hv::reach("several");
}
