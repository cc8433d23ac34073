// HV-ORACLE: (1-t)A+tB for positions; for orientations the half-angle formula cos/sin(t*phi/2) on the known relative rotation
// HV-BOUND: up to 6 steps; any translations and joint values; any start orientation, end orientation turned from it by any angle in [0.1, 3.0] about any coordinate axis of the body (either quaternion sign), equal orientations; angle-axis interpolation with one step
// HV-OUTSIDE: more steps, relative rotations about slanted axes, half turns, relative turns below 0.1 rad other than none
#include "hrm/util/InterpolateSE3.h"
#include "rot.hpp"
using namespace hrm;
typedef std::vector<double> V;
static void mul(const double a[4], const double b[4], double o[4]) {
    o[0] = a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3];
    o[1] = a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2];
    o[2] = a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1];
    o[3] = a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0];
}
static void sameTurn(const std::string& label, const double a[4], const double b[4]) {
    std::vector<hv::F> p, n;
    for (int i = 0; i < 4; ++i) p.push_back(hv::near(a[i], b[i], 1e-6)), n.push_back(hv::near(a[i], -b[i], 1e-6));
    if (hv::decide(hv::le(double(0), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3])))
        for (const hv::F f : p) hv::check(label, f);
    else
        for (const hv::F f : n) hv::check(label, f);
}
// start orientation, and the turn (half angle n t about an axis) to the end orientation
struct Pair { double a[4], b[4], t; int axis, n; };
static Pair orientations(int n, int axis, bool flip, bool anyStart) {
    Pair p;
    hv::forkMinMax(true);
    p.n = n, p.axis = axis;
    if (anyStart) hv::unitQuat("start", p.a);
    else p.a[0] = double(0.5), p.a[1] = double(0.5), p.a[2] = double(-0.5), p.a[3] = double(0.5);
    p.t = hv::angle("half");
    // 0.05 <= n t <= 1.5
    hv::assume(hv::le(double(sin(hv::K(0.05) / n)), sin(p.t)) && hv::le(double(cos(hv::K(1.5) / n)), cos(p.t)));
    double r[4];
    turn(double(n) * p.t, axis, r);
    // consequences of the range, spelled out for the solver
    hv::assume(hv::le(double(0.04), r[1 + axis]) && hv::le(double(0.07), r[0]) && hv::le(r[0], double(0.999)));
    mul(p.a, r, p.b);
    if (flip)
        for (int k = 0; k < 4; ++k) p.b[k] = -p.b[k];
    return p;
}
static void at(const Pair& p, int i, double o[4]) {
    double r[4];
    turn(double(i) * p.t, p.axis, r);
    mul(p.a, r, o);
}
HV_CASE_N(slerp, 6) {
    const int n = 1 + shard, axis = shard % 3;
    const Pair p = orientations(n, axis, hv::coin("flip"), true);
    std::vector<Eigen::Quaterniond> q;
    hv::guarded("interpolation", [&] { q = interpolateSlerp(Eigen::Quaterniond(p.a[0], p.a[1], p.a[2], p.a[3]), Eigen::Quaterniond(p.b[0], p.b[1], p.b[2], p.b[3]), n); });
    hv::check("one more orientation than steps", int(q.size()) == n + 1);
    for (int i = 0; i <= n && i < int(q.size()); ++i) {
        double e[4];
        at(p, i, e);
        const double g[4] = {q[i].w(), q[i].x(), q[i].y(), q[i].z()};
        sameTurn("on the shortest rotation, evenly spaced", g, e);
    }
    hv::reach("done");
}
HV_CASE_N(still, 2) {  // equal orientations
    double a[4];
    if (shard) hv::unitQuat("start", a);
    else a[0] = double(0.5), a[1] = double(0.5), a[2] = double(-0.5), a[3] = double(0.5);
    const int n = 1 + hv::choice("steps", 4);
    const bool flip = hv::coin("flip");
    const Eigen::Quaterniond A(a[0], a[1], a[2], a[3]), B = flip ? Eigen::Quaterniond(-a[0], -a[1], -a[2], -a[3]) : A;
    std::vector<Eigen::Quaterniond> q;
    hv::guarded("interpolation", [&] { q = interpolateSlerp(A, B, n); });
    hv::check("one more orientation than steps", int(q.size()) == n + 1);
    for (auto& x : q) {
        const double g[4] = {x.w(), x.x(), x.y(), x.z()};
        sameTurn("stays", g, a);
    }
    hv::reach("done");
}
static void angleAxisCase(int n, int shard) {
    const int axis = shard % 3;
    const Pair p = orientations(n, axis, hv::coin("flip"), false);
    std::vector<Eigen::Quaterniond> q;
    hv::guarded("interpolation", [&] { q = interpolateAngleAxis(Eigen::Quaterniond(p.a[0], p.a[1], p.a[2], p.a[3]), Eigen::Quaterniond(p.b[0], p.b[1], p.b[2], p.b[3]), n); });
    hv::check("one more orientation than steps", int(q.size()) == n + 1);
    for (int i = 0; i <= n && i < int(q.size()); ++i) {
        double e[4];
        at(p, i, e);
        const double g[4] = {q[i].w(), q[i].x(), q[i].y(), q[i].z()};
        checkRot("on the shortest rotation, evenly spaced", rotOf(g), rotOf(e));
    }
    hv::reach("done");
}
HV_CASE_N(angleAxis, 3) { angleAxisCase(1, shard); }
HV_CASE_T(angleAxis2, 3) { angleAxisCase(2, shard); }
HV_CASE_N(linear, 4) {
    const int d = shard, n = 1 + hv::choice("steps", 6);
    V a, b;
    for (int k = 0; k < d; ++k) a.push_back(hv::real("a" + std::to_string(k), -100, 100)), b.push_back(hv::real("b" + std::to_string(k), -100, 100));
    std::vector<V> v;
    hv::guarded("interpolation", [&] { v = interpolateRn(a, b, n); });
    hv::check("one more point than steps", int(v.size()) == n + 1);
    for (int i = 0; i <= n && i < int(v.size()); ++i) {
        hv::check("dimension", int(v[i].size()) == d);
        for (int k = 0; k < d && k < int(v[i].size()); ++k) hv::check("on the segment, evenly spaced", hv::near(double(n) * v[i][k], double(n - i) * a[k] + double(i) * b[k], 1e-6));
    }
    hv::reach("done");
}
// compound: pose and joint values; shards: number of joints (0: none), steps
HV_CASE_N(compound, 9) {
    const int joints = shard % 3, n = 1 + shard / 3;
    const Pair p = orientations(n, shard % 3, hv::coin("flip"), false);
    V a, b, ends[2];
    for (int k = 0; k < 3 + joints; ++k) a.push_back(hv::real("a" + std::to_string(k), -100, 100)), b.push_back(hv::real("b" + std::to_string(k), -100, 100));
    for (int e = 0; e < 2; ++e) {
        const V& x = e ? b : a;
        ends[e] = {x[0], x[1], x[2]};
        for (int k = 0; k < 4; ++k) ends[e].push_back(e ? p.b[k] : p.a[k]);
        for (int k = 0; k < joints; ++k) ends[e].push_back(x[3 + k]);
    }
    std::vector<V> v;
    const bool pose = joints == 0 && hv::coin("pose only");
    hv::guarded("interpolation", [&] { v = pose ? interpolateSE3(ends[0], ends[1], n) : interpolateCompoundSE3Rn(ends[0], ends[1], n); });
    hv::check("one more state than steps", int(v.size()) == n + 1);
    for (int i = 0; i <= n && i < int(v.size()); ++i) {
        hv::check("dimension", int(v[i].size()) == 7 + joints);
        if (int(v[i].size()) != 7 + joints) continue;
        double e[4];
        at(p, i, e);
        const double g[4] = {v[i][3], v[i][4], v[i][5], v[i][6]};
        sameTurn("on the shortest rotation, evenly spaced", g, e);
        for (int k = 0; k < 3 + joints; ++k) hv::check("on the segment, evenly spaced", hv::near(double(n) * v[i][k < 3 ? k : k + 4], double(n - i) * a[k] + double(i) * b[k], 1e-6));
    }
    hv::reach("done");
}
HV_CASE(noSteps) {  // both ends, unchanged
    V a, b;
    const int d = 7 + hv::choice("joints", 3);
    for (int k = 0; k < d; ++k) a.push_back(hv::real("a" + std::to_string(k))), b.push_back(hv::real("b" + std::to_string(k)));
    std::vector<V> v;
    hv::guarded("interpolation", [&] { v = interpolateCompoundSE3Rn(a, b, 0); });
    hv::check("both ends", v.size() == 2);
    if (v.size() == 2)
        for (int e = 0; e < 2; ++e) {
            hv::check("dimension", int(v[e].size()) == d);
            for (int k = 0; k < d && k < int(v[e].size()); ++k) hv::check("both ends", hv::eq(v[e][k], (e ? b : a)[k]));
        }
    hv::reach("done");
}
