// HV-ORACLE: for an arbitrary query point q: q in some result interval iff q in some input interval; consecutive results strictly apart and sorted
// HV-BOUND: up to 4 intervals (5 thorough), each with arbitrary real end points lo <= hi in [-100, 100]; arbitrary query point
// HV-OUTSIDE: longer lists, NaN end points
#include "intervals.hpp"
static void run(int n) {
    auto in = mkIntervals("", n);
    std::vector<Interval> out;
    hv::guarded("union", [&] { out = Interval::unions(in); });
    for (size_t i = 0; i < out.size(); ++i) {
        hv::check("union: every interval is ordered", hv::le(out[i].s(), out[i].e()));
        if (i) hv::check("union: sorted and disjoint", hv::lt(out[i - 1].e(), out[i].s()));
    }
    double x = hv::real("x");
    hv::check("union: same point set (nothing lost)", hv::implies(inside(in, x), inside(out, x)));
    hv::check("union: same point set (nothing added)", hv::implies(inside(out, x), inside(in, x)));
    hv::reach("union of " + std::to_string(n) + " gives " + std::to_string(out.size()));
}
HV_CASE_N(unions, 5) { run(shard); }
HV_CASE_T(unions5, 1) { run(5); }
