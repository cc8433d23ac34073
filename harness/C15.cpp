// HV-ORACLE: loop contract: the running ellipsoid encloses its predecessor and the body at the current step; ghost set of enclosed (semi-axes, orientation) pairs tracked through the contract of getMVCE
// HV-BOUND: any semi-axes, any two end orientations; 2 to 7 steps (2D), 1 to 7 steps (3D)
// HV-OUTSIDE: more steps; a single 2D step (0/0 in the step width)
// HV-ASSUME: getMVCE2D/getMVCE3D enclose both arguments (property C14) and interpolateSlerp returns numStep+1 orientations from start to end (property C16): both are replaced by their contracts
// HV-CUT: getMVCE2D getMVCE3D interpolateSlerp
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/InterpolateSE3.h"
#include "rot.hpp"
using namespace hrm;
#ifdef HV_SYM
#include "core.hpp"
namespace {
struct Body { std::vector<double> a, r; };          // semi-axes, orientation (angle or quaternion)
struct Hull { Body shape; std::vector<Body> in; };  // an enclosing ellipsoid and the bodies it is known to enclose
std::vector<Hull> hulls;
bool same(const Body& x, const Body& y) {
    for (size_t i = 0; i < x.a.size(); ++i)
        if (!hs::sameValue(x.a[i], y.a[i])) return false;
    bool p = true, n = x.r.size() == 4;
    for (size_t i = 0; i < x.r.size(); ++i) p = p && hs::sameValue(x.r[i], y.r[i]), n = n && hs::sameValue(x.r[i], -y.r[i]);
    return x.a.size() == y.a.size() && x.r.size() == y.r.size() && (p || n);
}
std::vector<Body> contents(const Body& b) {
    for (auto& h : hulls)
        if (same(h.shape, b)) {
            auto r = h.in;
            r.push_back(b);
            return r;
        }
    return {b};
}
Body enclose(const Body& x, const Body& y) {
    Hull h;
    for (size_t i = 0; i < x.a.size(); ++i) h.shape.a.push_back(hs::envReal("axis"));
    for (size_t i = 0; i < x.r.size(); ++i) h.shape.r.push_back(hs::envReal("turn"));
    h.in = contents(x);
    for (auto& b : contents(y)) h.in.push_back(b);
    hulls.push_back(h);
    return h.shape;
}
}  // namespace
SuperEllipse hrm::getMVCE2D(const std::vector<double>& a, const std::vector<double>& b, const double ta, const double tb, const Index num) {
    const Body h = enclose({a, {ta}}, {b, {tb}});
    return SuperEllipse({h.a[0], h.a[1]}, 1, {0, 0}, h.r[0], num);
}
SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a, const std::vector<double>& b, const Eigen::Quaterniond& qa, const Eigen::Quaterniond& qb, const Index num) {
    const Body h = enclose({a, {qa.w(), qa.x(), qa.y(), qa.z()}}, {b, {qb.w(), qb.x(), qb.y(), qb.z()}});
    return SuperQuadrics({h.a[0], h.a[1], h.a[2]}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(h.r[0], h.r[1], h.r[2], h.r[3]), num);
}
static std::vector<Eigen::Quaterniond> steps;
std::vector<Eigen::Quaterniond> hrm::interpolateSlerp(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b, const Index n) {
    if (steps.size() == size_t(n) + 1) return steps;
    steps.clear();
    for (size_t i = 0; i <= size_t(n); ++i)
        steps.push_back(i == 0 ? a : i == size_t(n) ? b : Eigen::Quaterniond(hs::envReal("slerp"), hs::envReal("slerp"), hs::envReal("slerp"), hs::envReal("slerp")));
    return steps;
}
static void enclosed(const std::string& label, const std::vector<double>& a, const std::vector<double>& turn, const std::vector<double>& ea, const std::vector<double>& et) {
    std::vector<hv::F> any;
    for (auto& b : contents({ea, et})) {
        std::vector<hv::F> f, g;
        for (size_t i = 0; i < a.size(); ++i) f.push_back(hv::near(a[i], b.a[i], 1e-9));
        g = f;
        for (size_t i = 0; i < turn.size(); ++i) f.push_back(hv::near(turn[i], b.r[i], 1e-9)), g.push_back(hv::near(turn[i], -b.r[i], 1e-9));
        any.push_back(hv::all(f));
        if (turn.size() == 4) any.push_back(hv::all(g));
    }
    hv::check(label, hv::any(any));
}
static void begin() { hulls.clear(), steps.clear(); }
#else
// the ellipsoid (a, turn) lies in the ellipsoid (ea, et): support function comparison over many directions
static void enclosed(const std::string& label, const std::vector<double>& a, const std::vector<double>& turn, const std::vector<double>& ea, const std::vector<double>& et) {
    auto axes = [](const std::vector<double>& t, double m[3][3]) {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) m[i][j] = i == j;
        if (t.size() == 1) m[0][0] = m[1][1] = cos(t[0]), m[1][0] = sin(t[0]), m[0][1] = -sin(t[0]);
        else {
            const double q[4] = {t[0], t[1], t[2], t[3]};
            const R3 r = rotOf(q);
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) m[i][j] = r.m[i][j];
        }
    };
    double A[3][3], E[3][3];
    axes(turn, A), axes(et, E);
    bool ok = true;
    for (int u = 0; u < 360; ++u)
        for (int v = 0; v < (a.size() == 3 ? 90 : 1); ++v) {
            const double th = u * M_PI / 180, ph = a.size() == 3 ? v * M_PI / 180 - M_PI / 2 : 0, d[3] = {cos(ph) * cos(th), cos(ph) * sin(th), sin(ph)};
            double h = 0, k = 0;
            for (size_t i = 0; i < a.size(); ++i) {
                double x = 0, y = 0;
                for (int j = 0; j < 3; ++j) x += A[j][i] * d[j], y += E[j][i] * d[j];
                h += a[i] * a[i] * x * x, k += ea[i] * ea[i] * y * y;
            }
            ok = ok && h <= k * (1 + 1e-6);
        }
    hv::check(label, ok);
}
static void begin() {}
#endif
// shard 0: anything; others: a slender body turning about half a turn, where every step matters in the real geometry
HV_CASE_N(plane, 6) {
    begin();
    const double s = hv::real("a0", 0.1, 10);
    const std::vector<double> a = {s, shard ? (shard % 2 ? double(0.25) : double(4)) * s : hv::real("a1", 0.1, 10)};
    const double ta = hv::real("from", -3.2, 3.2), tb = shard ? ta + (shard % 2 ? double(1) : double(-1)) * hv::real("turn", 2.6, 3.1) : hv::real("to", -3.2, 3.2);
    const int n = shard ? 3 + (shard - 1) / 2 : 2 + hv::choice("steps", 6);
    SuperEllipse e({double(1), double(1)}, 1, {double(0), double(0)}, double(0), 5);
    hv::guarded("enclosing ellipse", [&] { e = getTFE2D(a, ta, tb, n, 5); });
    for (int i = 0; i < n; ++i) {
        const double t = double(i) / double(n - 1);
        enclosed("body at every step enclosed", a, {(double(1) - t) * ta + t * tb}, {e.getSemiAxis().at(0), e.getSemiAxis().at(1)}, {e.getAngle()});
    }
    hv::check("concentric", hv::eq(e.getPosition().at(0), double(0)) && hv::eq(e.getPosition().at(1), double(0)));
    hv::reach("done");
}
HV_CASE_N(space, 7) {
    begin();
    const double s = hv::real("a0", 0.1, 10);
    const std::vector<double> a = {s, shard ? double(shard % 3 == 1 ? 4 : 0.25) * s : hv::real("a1", 0.1, 10), shard ? double(shard % 3 == 1 ? 4 : 0.5) * s : hv::real("a2", 0.1, 10)};
    double q[4], p[4];
    hv::unitQuat("from", q);
    if (!shard) hv::unitQuat("to", p);
    else {  // turned by 2 acos(0.28) about the body's own axis
        double r[4] = {double(0.28), double(0), double(0), double(0)};
        r[1 + (shard + 1) % 3] = double(0.96);
        p[0] = q[0] * r[0] - q[1] * r[1] - q[2] * r[2] - q[3] * r[3];
        p[1] = q[0] * r[1] + q[1] * r[0] + q[2] * r[3] - q[3] * r[2];
        p[2] = q[0] * r[2] - q[1] * r[3] + q[2] * r[0] + q[3] * r[1];
        p[3] = q[0] * r[3] + q[1] * r[2] - q[2] * r[1] + q[3] * r[0];
    }
    const Eigen::Quaterniond qa(q[0], q[1], q[2], q[3]), qb(p[0], p[1], p[2], p[3]);
    const int n = shard ? 2 + (shard - 1) / 3 : 1 + hv::choice("steps", 7);
    SuperQuadrics e({double(1), double(1), double(1)}, {double(1), double(1)}, {double(0), double(0), double(0)}, Eigen::Quaterniond(double(1), double(0), double(0), double(0)), 3);
    hv::guarded("enclosing ellipsoid", [&] { e = getTFE3D(a, qa, qb, n, 3); });
    const Eigen::Quaterniond& w = e.getQuaternion();
    for (auto& t : interpolateSlerp(qa, qb, n))
        enclosed("body at every step enclosed", a, {t.w(), t.x(), t.y(), t.z()}, {e.getSemiAxis().at(0), e.getSemiAxis().at(1), e.getSemiAxis().at(2)}, {w.w(), w.x(), w.y(), w.z()});
    for (int k = 0; k < 3; ++k) hv::check("concentric", hv::eq(e.getPosition().at(k), double(0)));
    hv::reach("done");
}
