// HV-ORACLE: the implicit equation (x/a)^(2/e)+(y/b)^(2/e)=1 written through the same angle atoms; inverse rigid transform of each boundary point
// HV-BOUND: bodies built at once and bodies reshaped and moved by their setters; 2D: 6-point boundaries, arbitrary semi-axes in [0.1,10], exponent in [0.2,1.8], position in [-10,10]^2 and orientation; 3D: 5x5-point boundaries, arbitrary semi-axes, position and orientation, 5 exponent pairs
// HV-OUTSIDE: more boundary points; other 3D exponents
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
#include "hv.hpp"
using namespace hrm;
// |v|^p without a case split on the sign
static double absPow(const double& v, const double& p) { return pow(fabs(v), p); }
static void plane(int num, bool anyEps, bool set = false) {
    double a = hv::real("a", 0.1, 10), b = hv::real("b", 0.1, 10), x = hv::real("x", -10, 10), y = hv::real("y", -10, 10);
    double th = hv::angle("angle"), e = anyEps ? hv::real("eps", 0.2, 1.8) : double(1);
    hv::forkMinMax(true);
    BoundaryPoints p;
    hv::guarded("superellipse boundary", [&] { 
        if (!set) p = SuperEllipse({a, b}, e, {x, y}, th, num).getOriginShape();
        else {
            SuperEllipse body({3.0, 2.0}, 0.5, {1.0, -1.0}, 0.75, num);
            const BoundaryPoints before = body.getOriginShape();
            body.setSemiAxis({a, b}), body.setEpsilon(e), body.setPosition({x, y}), body.setAngle(th);
            p = body.getOriginShape();
            const BoundaryPoints built = SuperEllipse({a, b}, e, {x, y}, th, num).getOriginShape();
            for (int i = 0; i < num; ++i)
                for (int k = 0; k < 2; ++k) hv::check("a body set to sizes and a pose is the body built with them", hv::near(p(k, i), built(k, i), 1e-9));
        }
    });
    if (p.rows() != 2 || p.cols() != num) {
        hv::fail("one point per sample");
        return;
    }
    double c = cos(th), s = sin(th);
    for (int i = 0; i < num; ++i) {
        double dx = p(0, i) - x, dy = p(1, i) - y;
        double u = (c * dx + s * dy) / a, v = (c * dy - s * dx) / b;
        hv::check("point on the superellipse", hv::near(absPow(u, 2.0 / e) + absPow(v, 2.0 / e), double(1), 1e-6));
        if (!anyEps && i + 1 < num) {
            double dx2 = p(0, i + 1) - x, dy2 = p(1, i + 1) - y;
            double u2 = (c * dx2 + s * dy2) / a, v2 = (c * dy2 - s * dx2) / b;
            hv::check("samples go around the boundary evenly",
                      hv::near(u * v2 - u2 * v, double(std::sin(2 * 3.14159265358979 / (num - 1))), 1e-5));
        }
    }
    if (!anyEps) hv::check("boundary closed", hv::near(p(0, 0), p(0, num - 1), 1e-3) && hv::near(p(1, 0), p(1, num - 1), 1e-3));
    hv::reach("done");
}
HV_CASE(ellipse) { plane(6, false); }
HV_CASE(superellipse) { plane(6, true); }
HV_CASE_N(reshaped, 2) { plane(6, shard, true); }
HV_CASE_T(fine, 1) { plane(11, false); }
HV_CASE_T(fineSuper, 1) { plane(11, true); }
static void space(int k, int num, bool set = false) {
    static const double E[5][2] = {{1, 1}, {0.5, 1.5}, {1.25, 0.25}, {1.5, 0.5}, {0.75, 0.75}};
    double a = hv::real("a", 0.1, 10), b = hv::real("b", 0.1, 10), c = hv::real("c", 0.1, 10);
    double t[3] = {hv::real("x", -10, 10), hv::real("y", -10, 10), hv::real("z", -10, 10)}, q[4];
    hv::unitQuat("q", q);
    double e1 = double(E[k][0]), e2 = double(E[k][1]);
    BoundaryPoints p;
    hv::guarded("superquadric boundary", [&] {
        const Eigen::Quaterniond turn(q[0], q[1], q[2], q[3]);
        if (!set) p = SuperQuadrics({a, b, c}, {e1, e2}, {t[0], t[1], t[2]}, turn, num).getOriginShape();
        else {
            SuperQuadrics body({3.0, 2.0, 1.0}, {0.5, 0.75}, {1.0, -1.0, 2.0}, Eigen::Quaterniond(0.5, 0.5, -0.5, 0.5), num);
            const BoundaryPoints before = body.getOriginShape();
            body.setSemiAxis({a, b, c}), body.setEpsilon({e1, e2}), body.setPosition({t[0], t[1], t[2]}), body.setQuaternion(turn);
            p = body.getOriginShape();
            const BoundaryPoints built = SuperQuadrics({a, b, c}, {e1, e2}, {t[0], t[1], t[2]}, turn, num).getOriginShape();
            for (int i = 0; i < num * num; ++i)
                for (int s = 0; s < 3; ++s) hv::check("a body set to sizes and a pose is the body built with them", hv::near(p(s, i), built(s, i), 1e-9));
        }
    });
    if (p.rows() != 3 || p.cols() != num * num) {
        hv::fail("one point per sample");
        return;
    }
    const double w = q[0], i = q[1], j = q[2], l = q[3];
    const double R[3][3] = {{1.0 - 2.0 * (j * j + l * l), 2.0 * (i * j - l * w), 2.0 * (i * l + j * w)},
                            {2.0 * (i * j + l * w), 1.0 - 2.0 * (i * i + l * l), 2.0 * (j * l - i * w)},
                            {2.0 * (i * l - j * w), 2.0 * (j * l + i * w), 1.0 - 2.0 * (i * i + j * j)}};
    const double ax[3] = {a, b, c};
    for (int m = 0; m < num * num; ++m) {
        double u[3];
        for (int r = 0; r < 3; ++r) {
            u[r] = double(0);
            for (int s = 0; s < 3; ++s) u[r] = u[r] + R[s][r] * (p(s, m) - t[s]);
            u[r] = u[r] / ax[r];
        }
        double f = absPow(absPow(u[0], 2.0 / e2) + absPow(u[1], 2.0 / e2), e2 / e1) + absPow(u[2], 2.0 / e1);
        hv::check("point on the superquadric", hv::near(f, double(1), 1e-4));
        // latitude by latitude, all around the body
        const auto eta = -M_PI / 2 + (m / num) * M_PI / (num - 1), omega = -M_PI + (m % num) * 2 * M_PI / (num - 1);
        const auto sp = [](auto v, auto e) { return std::copysign(std::pow(std::fabs(v), e), v); };
        const auto ce = std::cos(eta), se = std::sin(eta), co = std::cos(omega), so = std::sin(omega);
        const auto far = [](auto v) { return std::fabs(v) > 0.1; };
        if (far(se)) hv::check("samples are ordered by latitude", hv::near(u[2], double(sp(se, E[k][0])), 1e-4));
        if (far(ce) && far(co)) hv::check("samples go around the body", hv::near(u[0], double(sp(ce, E[k][0]) * sp(co, E[k][1])), 1e-4));
        if (far(ce) && far(so)) hv::check("samples go around the body", hv::near(u[1], double(sp(ce, E[k][0]) * sp(so, E[k][1])), 1e-4));
    }
    hv::reach("done");
}
HV_CASE_N(superquadric, 5) { space(shard, 5); }
HV_CASE(reshapedSuperquadric) { space(1, 5, true); }
HV_CASE_T(fineSuperquadric, 5) { space(shard, 8); }
