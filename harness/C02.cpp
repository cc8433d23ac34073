// HV-ORACLE: for an arbitrary query point q: membership in the result iff membership in all inputs (intersection), resp. inside the outer and outside the open inner intervals (complement)
// HV-BOUND: intersection of up to 4 intervals (5 thorough); complement of up to 4 disjoint intervals (5 thorough) in one outer interval; end points arbitrary in [-100, 100]
// HV-OUTSIDE: longer lists, NaN end points, overlapping inner intervals and several outer intervals (callers pass unions and one intersection)
#include "intervals.hpp"
static void isect(int n) {
    auto in = mkIntervals("", n);
    std::vector<Interval> out;
    hv::guarded("intersection", [&] { out = Interval::intersects(in); });
    double x = hv::real("x");
    if (n == 0) {
        hv::check("intersection of nothing is empty", hv::F(out.empty()));
        return;
    }
    hv::check("intersection: at most one interval", hv::F(out.size() <= 1));
    for (auto& o : out) hv::check("intersection: ordered", hv::le(o.s(), o.e()));
    hv::check("intersection: nothing added", hv::implies(inside(out, x), insideAll(in, x)));
    hv::check("intersection: nothing lost", hv::implies(insideAll(in, x), inside(out, x)));
    hv::reach("intersection of " + std::to_string(n) + " gives " + std::to_string(out.size()));
}
static void comp(int n, int nOuter) {
    auto outer = mkIntervals("o", nOuter);
    auto inner = mkIntervals("i", n, true);
    std::vector<Interval> out;
    hv::guarded("complement", [&] { out = Interval::complements(outer, inner); });
    double x = hv::real("x");
    for (size_t i = 0; i < out.size(); ++i) {
        hv::check("complement: ordered", hv::le(out[i].s(), out[i].e()));
        if (i) hv::check("complement: sorted", hv::le(out[i - 1].e(), out[i].s()));
    }
    hv::check("complement: stays in the outer interval", hv::implies(inside(out, x), inside(outer, x)));
    hv::check("complement: avoids every inner interval", hv::implies(inside(out, x), !strictlyInside(inner, x)));
    hv::check("complement: keeps every free point", hv::implies(inside(outer, x) && !inside(inner, x), inside(out, x)));
    hv::reach("complement of " + std::to_string(n) + " gives " + std::to_string(out.size()));
}
HV_CASE_N(intersections, 5) { isect(shard); }
HV_CASE_N(complement, 5) { comp(shard, 1); }
HV_CASE(complementOfNothing) { comp(1, 0); }
HV_CASE_T(intersections5, 1) { isect(5); }
HV_CASE_T(complement5, 1) { comp(5, 1); }
