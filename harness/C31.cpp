// HV-ORACLE: recorders in place of FCL and CGAL: vertices, faces and transforms handed over are compared with the body's boundary in its own frame and its current pose
// HV-BOUND: body-frame shape and pose symbolic (pose families: any position, any orientation about a coordinate axis or any angle), exponents one or other constants, 3 to 5 points per direction; grids of 2 to 7 points per direction
// HV-OUTSIDE: the triangulation (CGAL) and the narrow phase (FCL) are external and modelled as recorders
// HV-ASSUME: CGAL returns cells over the given points; FCL decides on the geometry and transforms it is given
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include <CGAL/Triangulation_3.h>
#include "rot.hpp"
using namespace hrm;
typedef fcl::CollisionObject<double> Obj;
typedef fcl::Ellipsoid<double> Ell;
typedef fcl::BVHModel<fcl::OBBRSS<double>> Bvh;
static SuperQuadrics body(const std::string& n, const double& e0, const double& e1, int axis, double q[4], double p[3], double a[3], int num) {
    for (int k = 0; k < 3; ++k) p[k] = hv::real(n + "p" + std::to_string(k), -10, 10);
    a[0] = hv::real(n + "a", 0.25, 4), a[1] = double(2), a[2] = double(0.5);
    if (axis < 3) turn(hv::angle(n + "half"), axis, q);
    else hv::unitQuat(n + "q", q);
    return SuperQuadrics({a[0], a[1], a[2]}, {e0, e1}, {p[0], p[1], p[2]}, Eigen::Quaterniond(q[0], q[1], q[2], q[3]), num);
}
// mesh of a superquadric: exactly its boundary points in its own frame, faces are those of the cells
HV_CASE_N(mesh, 4) {
    double q[4], p[3], a[3];
    const int num = 3 + shard % 2;
    SuperQuadrics s = body("", double(shard & 2 ? 0.5 : 1), double(1), shard, q, p, a, num);
    Mesh m;
    hv::guarded("mesh", [&] { m = getMeshFromSQ(s); });
    const SuperQuadrics own({a[0], a[1], a[2]}, {double(shard & 2 ? 0.5 : 1), double(1)}, {double(0), double(0), double(0)}, Eigen::Quaterniond(double(1), double(0), double(0), double(0)), num);
    const Eigen::MatrixXd b = own.getOriginShape();
    hv::check("one vertex per boundary point", int(m.vertices.size()) == int(b.cols()));
    // every boundary point is a vertex and every vertex a boundary point
    for (int i = 0; i < int(b.cols()); ++i) {
        std::vector<hv::F> any, back;
        for (auto& v : m.vertices) any.push_back(hv::near(v(0), b(0, i), 1e-9) && hv::near(v(1), b(1, i), 1e-9) && hv::near(v(2), b(2, i), 1e-9));
        hv::check("boundary points are vertices, in the frame of the body", hv::any(any));
        if (i < int(m.vertices.size())) {
            auto& v = m.vertices[i];
            for (int j = 0; j < int(b.cols()); ++j) back.push_back(hv::near(v(0), b(0, j), 1e-9) && hv::near(v(1), b(1, j), 1e-9) && hv::near(v(2), b(2, j), 1e-9));
            hv::check("vertices are boundary points", hv::any(back));
        }
    }
    hv::reach("done");
}
// every cell contributes its four faces
HV_CASE_N(faces, 3) {
    const int n = 5 + shard;
    ParametricPoints pts;
    for (int i = 0; i < n; ++i) {
        const std::string s = std::to_string(i);
        pts.x.push_back(hv::real("x" + s, -5, 5)), pts.y.push_back(hv::real("y" + s, -5, 5)), pts.z.push_back(hv::real("z" + s, -5, 5));
    }
    std::vector<std::array<int, 4>> cells = {{{0, 1, 2, 3}}, {{4, 2, 1, n - 1 == 4 ? 3 : n - 1}}};
    CGAL::stub::cells() = [cells](int) { return cells; };
    Mesh m;
    hv::guarded("mesh", [&] { m = getMesh(pts); });
    hv::check("all points are vertices", int(m.vertices.size()) == n);
    hv::check("four faces per cell", m.triangles.size() == 8);
    if (int(m.vertices.size()) == n) {
        // CGAL stub keeps the points in the order given: the reverse of the input list
        auto id = [&](size_t v, int i) { return hv::eq(m.vertices[v](0), pts.x[i]) && hv::eq(m.vertices[v](1), pts.y[i]) && hv::eq(m.vertices[v](2), pts.z[i]); };
        std::vector<hv::F> all;
        for (int i = 0; i < n; ++i) {
            std::vector<hv::F> any;
            for (int v = 0; v < n; ++v) any.push_back(id(v, i));
            all.push_back(hv::any(any));
        }
        hv::check("all points are vertices", hv::all(all));
        for (auto& c : cells)
            for (int skip = 0; skip < 4; ++skip) {
                bool found = false;
                for (auto& t : m.triangles) {
                    std::vector<size_t> f, g = {t[0], t[1], t[2]};
                    for (int k = 0; k < 4; ++k)
                        if (k != skip) f.push_back(c[k]);
                    std::sort(f.begin(), f.end()), std::sort(g.begin(), g.end());
                    found = found || f == g;
                }
                hv::check("every face of every cell", found);
            }
    }
    hv::reach("done");
}
// parametric surfaces: every grid cell is covered by two triangles on its four corners sharing a diagonal
HV_CASE_N(grid, 6) {
    const int n = 2 + shard;
    Eigen::MatrixXd p(3, n * n);
    for (int i = 0; i < n * n; ++i) p(0, i) = hv::real("x" + std::to_string(i), -5, 5), p(1, i) = double(i), p(2, i) = hv::real("z" + std::to_string(i), -5, 5);
    MeshMatrix m;
    hv::guarded("surface mesh", [&] { m = getMeshFromParamSurface(p, n); });
    hv::check("vertices are the surface points", int(m.vertices.rows()) == 3 && int(m.vertices.cols()) == n * n);
    if (int(m.vertices.cols()) == n * n)
        for (int i = 0; i < n * n; ++i)
            for (int k = 0; k < 3; ++k) hv::check("vertices are the surface points", hv::eq(m.vertices(k, i), p(k, i)));
    hv::check("two triangles per grid cell", int(m.faces.rows()) == 2 * (n - 1) * (n - 1) && int(m.faces.cols()) == 3);
    std::vector<std::vector<int>> cell((n - 1) * (n - 1));
    for (int f = 0; f < int(m.faces.rows()); ++f) {
        int lo[2] = {n, n}, hi[2] = {-1, -1};
        bool ok = true;
        std::set<int> ids;
        for (int k = 0; k < 3; ++k) {
            const int v = hv::asInt(m.faces(f, k));
            ok = ok && v >= 0 && v < n * n;
            ids.insert(v);
            const int c[2] = {v / n, v % n};
            for (int d = 0; d < 2; ++d) lo[d] = std::min(lo[d], c[d]), hi[d] = std::max(hi[d], c[d]);
        }
        ok = ok && ids.size() == 3 && hi[0] == lo[0] + 1 && hi[1] == lo[1] + 1;
        hv::check("every triangle spans one grid cell", ok);
        if (ok)
            for (int v : ids) cell[lo[0] * (n - 1) + lo[1]].push_back(v);
    }
    for (auto& c : cell) {
        std::map<int, int> uses;
        for (int v : c) ++uses[v];
        int twice = 0, once = 0;
        int sum2 = 0, sum1 = 0;
        for (auto& u : uses) (u.second == 2 ? (++twice, sum2 += u.first) : (++once, sum1 += u.first));
        hv::check("both halves of every grid cell", twice == 2 && once == 2 && sum1 == sum2);
    }
    hv::reach("done");
}
static double power(const double& x, const double& e) { return x < 0 ? -pow(-x, e) : pow(x, e); }
// the vertices of a mesh of 5 x 5 points are those of the surface
static void shape(const Bvh& b, const double a[3], const double e[2]) {
    static const double C1[5] = {0, std::sqrt(0.5), 1, std::sqrt(0.5), 0}, S1[5] = {-1, -std::sqrt(0.5), 0, std::sqrt(0.5), 1};
    static const double C2[5] = {-1, 0, 1, 0, -1}, S2[5] = {0, -1, 0, 1, 0};
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 5; ++j) {
            const double x[3] = {a[0] * power(C1[i], e[0]) * power(C2[j], e[1]), a[1] * power(C1[i], e[0]) * power(S2[j], e[1]), a[2] * power(S1[i], e[0])};
            std::vector<hv::F> at;
            for (auto& v : b.vertices) at.push_back(hv::near(v(0), x[0], 1e-2) && hv::near(v(1), x[1], 1e-2) && hv::near(v(2), x[2], 1e-2));
            hv::check("the mesh has every point of the surface", hv::any(at));
        }
    for (auto& v : b.vertices)
        for (int k = 0; k < 3; ++k) hv::check("the mesh stays within the extent of the body", hv::sle(v(k), a[k], 1e-4) && hv::sle(-a[k], v(k), 1e-4));
}
// the collision query sees each body's own shape at its current pose, whatever happened before
HV_CASE_N(query, 6) {
    static const double EP[6][2] = {{1, 1}, {0.5, 1}, {1, 1}, {1, 1.5}, {1, 1}, {1.5, 0.5}};
    double q[2][4], p[2][3], a[2][3];
    SuperQuadrics s[2] = {body("a", double(1), double(1), shard % 4, q[0], p[0], a[0], 3), body("b", EP[shard][0], EP[shard][1], (shard + 1) % 3, q[1], p[1], a[1], shard & 1 ? 5 : 3)};
    const bool verdict = hv::coin("verdict");
    int calls = 0;
    bool got = !verdict;
    fcl::stub::oracle<double>() = [&](const Obj& x, const Obj& y) {
        ++calls;
        const Obj* o[2] = {&x, &y};
        for (int i = 0; i < 2; ++i) {
            const R3 r = rotOf(q[i]);
            for (int u = 0; u < 3; ++u) {
                hv::check("pose of the body", hv::near(o[i]->getTranslation()(u), p[i][u], 1e-9));
                for (int v = 0; v < 3; ++v) hv::check("pose of the body", hv::near(o[i]->getRotation()(u, v), r.m[u][v], 1e-9));
            }
            const Ell* e = dynamic_cast<const Ell*>(o[i]->geometry());
            const Bvh* b = dynamic_cast<const Bvh*>(o[i]->geometry());
            const bool round = i == 0 || !(shard & 1);
            hv::check("shape of the body", round ? e != nullptr : b != nullptr);
            if (e)
                for (int u = 0; u < 3; ++u) hv::check("shape of the body", hv::eq(e->radii(u), a[i][u]));
            if (b) {
                hv::check("shape of the body", !b->vertices.empty() && !b->tri_indices.empty());
                shape(*b, a[i], EP[shard]);
            }
        }
        return verdict;
    };
    hv::guarded("query", [&] {
        Obj x = setCollisionObjectFromSQ(s[0]), y = setCollisionObjectFromSQ(s[1]);
        x.setTranslation(fcl::Vector3<double>(double(7), double(8), double(9)));
        got = isCollision(s[0], x, s[1], y);
    });
    hv::check("asked once", calls == 1);
    hv::check("verdict of the collision library", got == verdict);
    hv::reach("done");
}
HV_CASE_N(planar, 2) {
    double a[2][2], p[2][2], t[2];
    for (int i = 0; i < 2; ++i) {
        const std::string n = i ? "b" : "a";
        a[i][0] = hv::real(n + "0", 0.25, 4), a[i][1] = double(2), t[i] = hv::angle(n + "t");
        for (int k = 0; k < 2; ++k) p[i][k] = hv::real(n + "p" + std::to_string(k), -10, 10);
    }
    const double eps(shard ? 0.5 : 1);
    SuperEllipse s[2] = {SuperEllipse({a[0][0], a[0][1]}, double(1), {p[0][0], p[0][1]}, t[0], 5), SuperEllipse({a[1][0], a[1][1]}, eps, {p[1][0], p[1][1]}, t[1], 5)};
    const bool verdict = hv::coin("verdict");
    bool got = !verdict;
    fcl::stub::oracle<double>() = [&](const Obj& x, const Obj& y) {
        const Obj* o[2] = {&x, &y};
        hv::check("same plane", hv::eq(x.getTranslation()(2), y.getTranslation()(2)));
        for (int i = 0; i < 2; ++i) {
            for (int u = 0; u < 2; ++u) hv::check("pose of the body", hv::near(o[i]->getTranslation()(u), p[i][u], 1e-9));
            const double c = cos(t[i]), s = sin(t[i]), R[3][3] = {{c, -s, double(0)}, {s, c, double(0)}, {double(0), double(0), double(1)}};
            for (int u = 0; u < 3; ++u)
                for (int v = 0; v < 3; ++v) hv::check("pose of the body", hv::near(o[i]->getRotation()(u, v), R[u][v], 1e-6));
            const Ell* e = dynamic_cast<const Ell*>(o[i]->geometry());
            hv::check("shape of the body", i == 0 || !shard ? e != nullptr : dynamic_cast<const Bvh*>(o[i]->geometry()) != nullptr);
            if (e)
                for (int u = 0; u < 2; ++u) hv::check("shape of the body", hv::eq(e->radii(u), a[i][u]));
            if (const Bvh* b = dynamic_cast<const Bvh*>(o[i]->geometry())) {  // exponent 0.5: x^4 + y^4 <= 1
                std::vector<hv::F> rim[4];
                for (auto& v : b->vertices) {
                    const double x = v(0) / a[i][0], y = v(1) / a[i][1], f = x * x * x * x + y * y * y * y;
                    hv::check("the mesh stays within the body", hv::sle(f, double(1), 1e-4));
                    rim[0].push_back(hv::le(double(0.9), f) && hv::le(double(0.5), x) && hv::le(double(0.5), y));
                    rim[1].push_back(hv::le(double(0.9), f) && hv::le(x, double(-0.5)) && hv::le(double(0.5), y));
                    rim[2].push_back(hv::le(double(0.9), f) && hv::le(x, double(-0.5)) && hv::le(y, double(-0.5)));
                    rim[3].push_back(hv::le(double(0.9), f) && hv::le(double(0.5), x) && hv::le(y, double(-0.5)));
                }
                for (auto& r : rim) hv::check("the mesh reaches the border of the body on every side", hv::any(r));
            }
        }
        return verdict;
    };
    hv::guarded("query", [&] {
        Obj x = setCollisionObjectFromSQ(s[0]), y = setCollisionObjectFromSQ(s[1]);
        got = isCollision(s[0], x, s[1], y);
    });
    hv::check("verdict of the collision library", got == verdict);
    hv::reach("done");
}
