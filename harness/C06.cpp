// HV-ORACLE: (a) membership of crossing points in mesh triangles and their extent, by independent barycentric formulas; (b) the free segments against the extents of the mesh re-derived from the boundary points
// HV-BOUND: (a) 3 fixed closed meshes (tetrahedron, octahedron, skewed hexahedron) against every vertical line and every line in 4 directions; (b) C-space boundary surfaces (4 to 5 points per parameter, different per body) of two obstacles / the arena for 2 body orientations: every sweep line position on 3 parallel lines, obstacle height and sweep limits arbitrary; (c) two arenas, two obstacles, a body with a link, two or three fixed lines: one height or limit arbitrary
// HV-OUTSIDE: other shapes and finer surfaces
// HV-BUDGET: 60
#include "hrm/datastructure/FreeSpace3D.h"
#include "hrm/geometry/LineIntersection.h"
#include "surf.hpp"
using namespace hrm;
static MeshMatrix closedMesh(int k) {
    static const std::vector<std::vector<std::array<double, 3>>> V{
        {{{-2, -1, -1}}, {{2, -1.5, -0.5}}, {{0, 2, -1}}, {{0.25, 0, 2}}},
        {{{2, 0, 0}}, {{0, 1.5, 0.25}}, {{-1.5, 0, 0.5}}, {{0.25, -2, 0}}, {{0, 0.25, 2}}, {{0.5, 0, -1.5}}},
        {{{0, 0, 2}}, {{2, 0, 0.25}}, {{0.25, 2, 0}}, {{-2, -0.25, 0.5}}, {{0, -2, -0.25}}, {{0.25, 0.5, -2}}}};
    static const std::vector<std::vector<std::array<int, 3>>> T{
        {{{0, 1, 2}}, {{0, 1, 3}}, {{1, 2, 3}}, {{2, 0, 3}}},
        {{{0, 1, 4}}, {{1, 2, 4}}, {{2, 3, 4}}, {{3, 0, 4}}, {{1, 0, 5}}, {{2, 1, 5}}, {{3, 2, 5}}, {{0, 3, 5}}},
        {{{0, 1, 2}}, {{0, 2, 3}}, {{0, 3, 4}}, {{0, 4, 1}}, {{5, 2, 1}}, {{5, 3, 2}}, {{5, 4, 3}}, {{5, 1, 4}}}};
    MeshMatrix m;
    m.vertices.resize(3, V[k].size());
    m.faces.resize(T[k].size(), 3);
    for (size_t i = 0; i < V[k].size(); ++i)
        for (int j = 0; j < 3; ++j) m.vertices(j, i) = double(V[k][i][j]);
    for (size_t i = 0; i < T[k].size(); ++i)
        for (int j = 0; j < 3; ++j) m.faces(i, j) = double(T[k][i][j]);
    return m;
}
// does the line (o, d) pass the triangle (margin > 0: clearly inside its border)?
static hv::F passes(const MeshMatrix& m, int f, const Eigen::Vector3d& o, const Eigen::Vector3d& d, double margin) {
    Eigen::Vector3d t[3];
    for (int i = 0; i < 3; ++i) {
        int v = hv::asInt(m.faces(f, i));
        t[i] = Eigen::Vector3d(m.vertices(0, v), m.vertices(1, v), m.vertices(2, v)) - o;
    }
    hv::F pos(true), neg(true);
    for (int i = 0; i < 3; ++i) {
        double s = d.dot(t[i].cross(t[(i + 1) % 3]));
        pos = pos && hv::le(margin, s);
        neg = neg && hv::le(s, -margin);
    }
    return pos || neg;
}
static void mesh(int k, bool vertical, int dir) {
    static const double D[4][3] = {{1, 0, 0}, {0.5, 0.5, 1}, {-0.25, 1, 0}, {1, -0.5, 0.75}};
    MeshMatrix m = closedMesh(k);
    Line3D line(6);
    Eigen::Vector3d o(hv::real("ox", -3, 3), hv::real("oy", -3, 3), double(0)), d(double(0), double(0), double(1));
    if (!vertical) d = Eigen::Vector3d(double(D[dir][0]), double(D[dir][1]), double(D[dir][2]));
    if (!vertical && dir != 1) o = Eigen::Vector3d(double(0), o(0), o(1));
    line.head(3) = o;
    line.tail(3) = d;
    std::vector<Eigen::Vector3d> pts;
    hv::guarded("line mesh intersection", [&] { pts = vertical ? intersectVerticalLineMesh3D(line, m) : intersectLineMesh3D(line, m); });
    const int nf = (int)m.faces.rows();
    for (int f = 0; f < nf; ++f) {
        Eigen::Vector3d t[3];
        for (int i = 0; i < 3; ++i) {
            int v = hv::asInt(m.faces(f, i));
            t[i] = Eigen::Vector3d(m.vertices(0, v), m.vertices(1, v), m.vertices(2, v));
        }
        const Eigen::Vector3d n = (t[1] - t[0]).cross(t[2] - t[0]);
        hv::F found(false);
        for (auto& q : pts) found = found || hv::near(n.dot(q - t[0]), double(0), 1e-6);
        hv::check("the crossing of every face is found", hv::implies(passes(m, f, o, d, double(1e-4)), found));
    }
    for (auto& q : pts) {
        const Eigen::Vector3d c = (q - o).cross(d);
        for (int i = 0; i < 3; ++i) hv::check("crossings lie on the line", hv::near(c(i), double(0), 1e-6));
        hv::F on(false);
        for (int f = 0; f < nf; ++f) on = on || passes(m, f, o, d, double(-1e-6));
        hv::check("crossings are reported for lines through the mesh only", on);
    }
    hv::reach(pts.empty() ? "no crossing" : "crossings");
}
HV_CASE_N(verticalLine, 3) { mesh(shard, true, 0); }
HV_CASE_N(anyLine, 4) { mesh(shard % 3, false, shard); }

static const double QUAT[2][4] = {{1, 0, 0, 0}, {0.8, 0.36, -0.48, 0}};
// (b) the free-space intervals
static void space(int q, int which, bool arenaMoves) {
    SuperQuadrics base({0.5, 0.375, 0.25}, {1, 1}, {0, 0, 0},
                       Eigen::Quaterniond(double(QUAT[q][0]), double(QUAT[q][1]), double(QUAT[q][2]), double(QUAT[q][3])), 5);
    MultiBodyTree3D rob(base);
    double cz = hv::real("cz", -2, 2);
    const Eigen::Quaterniond qo(double(0.6), double(0), double(0.64), double(0.48));
    const std::vector<SuperQuadrics> arena{SuperQuadrics({6.0, 5.0, 4.0}, {1, 1}, {double(0.25), double(0), cz}, qo, 4)};
    const std::vector<SuperQuadrics> obs{SuperQuadrics({2.0, 1.0, 1.5}, {1, 1}, {double(0.5), double(0.125), cz}, qo, 4),
                                         SuperQuadrics({1.0, 1.5, 1.0}, {1, 1}, {double(-1), double(0.5), cz}, qo, 5)};
    double lowB = hv::real("lowBound", -9, -1), upB = hv::real("upBound", 1, 9);
    static const double X[3] = {-0.6875, 0.3125, 1.4375};
    const double ty = hv::real("ty", -7, 7), tx = double(X[hv::choice("tx", 3)]);
    FreeSpace3D fs(rob, arena, obs);
    IntersectionInterval iv;
    BoundaryInfo bd;
    hv::guarded("free space", [&] {
        fs.setup(1, lowB, upB);
        fs.computeCSpaceBoundary();
        bd = fs.getCSpaceBoundary();
        fs.computeCSpaceBoundaryMesh(bd);
        // only the body under study
        fs.computeIntersectionInterval({{tx}, {ty}});
        iv = fs.getIntersectionInterval();
    });
    if (bd.arena.size() != 1 || bd.obstacle.size() != 2) {
        hv::fail("one boundary per body");
        return;
    }
    const Eigen::MatrixXd S = arenaMoves ? bd.arena[0] : bd.obstacle[which];
    GridSurface g(S, arenaMoves ? 4 : which ? 5 : 4);
    double lo = arenaMoves ? iv.arenaLow[0][0] : iv.obstacleLow[0][which], hi = arenaMoves ? iv.arenaUpp[0][0] : iv.obstacleUpp[0][which];
    const bool none = arenaMoves ? (std::isinf(lo) || std::isinf(hi)) : (std::isnan(lo) || std::isnan(hi));
    hv::F atLo(false), atHi(false);
    for (size_t t = 0; t < g.tri.size(); ++t) {
        if (g.upright(t)) continue;
        hv::F u = g.under(t, tx, ty, double(1e-4));
        if (none) {
            hv::check("a missed line has no crossing", !u);
            continue;
        }
        double z = g.height(t, tx, ty);
        if (!arenaMoves) {
            hv::check("the interval covers every crossing", hv::implies(u, hv::sle(lo, z, 1e-6) && hv::sle(z, hi, 1e-6)));
        } else {
            hv::check("the interval covers every crossing within the limits",
                      hv::implies(u, (hv::sle(lo, z, 1e-6) || hv::near(lo, lowB, 1e-9)) && (hv::sle(z, hi, 1e-6) || hv::near(hi, upB, 1e-9))));
            hv::check("the interval respects the limits", hv::le(lowB, lo) && hv::le(hi, upB));
        }
        hv::F near = g.under(t, tx, ty, double(-1e-4));
        atLo = atLo || (near && hv::near(lo, z, 1e-3));
        atHi = atHi || (near && hv::near(hi, z, 1e-3));
    }
    if (!none) {
        if (arenaMoves) atLo = atLo || hv::near(lo, lowB, 1e-9), atHi = atHi || hv::near(hi, upB, 1e-9);
        hv::check("the interval ends at crossings", atLo && atHi);
    }
    hv::reach(none ? "misses" : "hits");
}
HV_CASE_N(obstacles, 4) { space(shard % 2, shard / 2, false); }
HV_CASE_N(arenas, 2) { space(shard, 0, true); }

// several arenas, obstacles, bodies and lines at once: every one of them counts, each line by itself
HV_CASE_N(several, 4) {
    const Eigen::Quaterniond qo(double(0.6), double(0), double(0.64), double(0.48));
    MultiBodyTree3D rob(SuperQuadrics({0.5, 0.375, 0.25}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(double(1), double(0), double(0), double(0)), 4));
    rob.addBody(SuperQuadrics({0.25, 0.25, 0.5}, {1, 1}, {0.75, 0.25, 0.5}, qo, 5));
    rob.robotTF(SE3Transform(Eigen::Matrix4d(Eigen::Matrix4d::Identity())));
    const double s = hv::real("s", -3, 3), low = shard == 2 ? -2 + s / 2 : double(-5), upp = shard == 3 ? 2 + s / 2 : double(5), z = hv::real("z", -8, 8);
    const std::vector<SuperQuadrics> arena{SuperQuadrics({6.0, 5.0, 4.0}, {1, 1}, {0.25, 0, 0}, qo, 4),
                                           SuperQuadrics({5.0, 6.0, 5.0}, {1, 1}, {0, 0.25, shard == 1 ? s : double(0.5)}, Eigen::Quaterniond(double(0.8), double(0.6), double(0), double(0)), 5)};
    const std::vector<SuperQuadrics> obs{SuperQuadrics({1.0, 1.0, 0.75}, {1, 1}, {0.5, 0.125, -1.5}, qo, 4),
                                         SuperQuadrics({0.75, 1.0, 0.5}, {1, 1}, {-0.25, 0.5, shard == 0 ? s : double(1.5)}, qo, 5)};
    const std::vector<std::vector<double>> lines[3] = {{{7.0, 0.3125}, {0.0625, -0.4375, 6.9375}}, {{-0.1875}, {9.0625, 0.8125}}, {{0.3125}, {-0.4375, 9.0, 9.5, -9.0, 9.25, -9.5}}};
    const auto ln = lines[hv::choice("lines", 3)];
    const int n = int(ln[1].size());
    FreeSpace3D fs(rob, arena, obs);
    IntersectionInterval iv;
    BoundaryInfo bd;
    FreeSegment2D seg;
    hv::guarded("free space", [&] {
        fs.setup(n, low, upp);
        fs.computeCSpaceBoundary();
        bd = fs.getCSpaceBoundary();
        fs.computeCSpaceBoundaryMesh(bd);
        fs.computeIntersectionInterval(ln);
        iv = fs.getIntersectionInterval();
        fs.computeFreeSegment(ln[1]);
        seg = fs.getFreeSegment();
    });
    if (bd.arena.size() != 4 || bd.obstacle.size() != 4 || int(seg.xL.size()) != n || int(iv.arenaLow.size()) < n) {
        hv::fail("one boundary per body and part, one list of stretches per line");
        return;
    }
    for (int l = 0; l < n; ++l) {
        hv::F free = hv::le(low, z) && hv::le(z, upp), stretch(false), edge(false);
        for (int b = 0; b < 8; ++b) {
            const bool ar = b < 4;
            const Eigen::MatrixXd S = ar ? bd.arena[b] : bd.obstacle[b - 4];
            int k = 1;
            while (k * k < S.cols()) ++k;
            GridSurface g(S, k);
            // extent of the surface over the line; the fixed lines pass no border of a triangle
            bool hit = false;
            double lo = 0, hi = 0;
            for (size_t t = 0; t < g.tri.size(); ++t) {
                if (g.upright(t) || !hv::decide(g.under(t, ln[0].back(), ln[1][l], double(0)))) continue;
                const double h = g.height(t, ln[0].back(), ln[1][l]);
                lo = hit ? fmin(lo, h) : h, hi = hit ? fmax(hi, h) : h;
                hit = true;
            }
            const double rl = ar ? iv.arenaLow[l][b] : iv.obstacleLow[l][b - 4], ru = ar ? iv.arenaUpp[l][b] : iv.obstacleUpp[l][b - 4];
            if (!hit) {
                hv::check("no interval where the line misses", hv::F(ar ? std::isinf(rl) && std::isinf(ru) : std::isnan(rl) && std::isnan(ru)));
                if (ar) free = hv::F(false);
                continue;
            }
            if (ar)
                hv::check("the interval of an arena is its part within the limits", hv::near(rl, fmax(lo, low), 1e-6) && hv::near(ru, fmin(hi, upp), 1e-6));
            else
                hv::check("the interval of an obstacle is its extent", hv::near(rl, lo, 1e-6) && hv::near(ru, hi, 1e-6));
            free = free && (ar ? hv::le(lo, z) && hv::le(z, hi) : hv::lt(z, lo) || hv::lt(hi, z));
            edge = edge || hv::near(z, lo, 1e-5) || hv::near(z, hi, 1e-5);
        }
        edge = edge || hv::near(z, low, 1e-5) || hv::near(z, upp, 1e-5);
        for (size_t i = 0; i < seg.xL[l].size(); ++i) stretch = stretch || (hv::le(seg.xL[l][i], z) && hv::le(z, seg.xU[l][i]));
        hv::check("free stretches avoid every obstacle and stay in every arena", hv::implies(stretch && !edge, free));
        hv::check("no free place of several is lost", hv::implies(free && !edge, stretch));
    }
    hv::reach("several");
}
