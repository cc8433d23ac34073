#pragma once
#include "hrm/datastructure/Interval.h"
#include "hv.hpp"
#include <string>
#include <vector>
using hrm::Interval;
inline std::vector<Interval> mkIntervals(const std::string& n, int k, bool disjoint = false) {
    std::vector<Interval> v;
    for (int i = 0; i < k; ++i) {
        double a = hv::real(n + "l" + std::to_string(i), -100, 100);
        double b = hv::real(n + "u" + std::to_string(i), -100, 100);
        hv::assume(hv::le(a, b));
        if (disjoint)
            for (auto& o : v) hv::assume(hv::lt(o.e(), a) || hv::lt(b, o.s()));
        v.emplace_back(a, b);
    }
    return v;
}
inline hv::F inside(const std::vector<Interval>& v, const double& x) {
    hv::F f(false);
    for (auto& i : v) f = f || (hv::le(i.s(), x) && hv::le(x, i.e()));
    return f;
}
inline hv::F insideAll(const std::vector<Interval>& v, const double& x) {
    hv::F f(true);
    for (auto& i : v) f = f && (hv::le(i.s(), x) && hv::le(x, i.e()));
    return f;
}
inline hv::F strictlyInside(const std::vector<Interval>& v, const double& x) {
    hv::F f(false);
    for (auto& i : v) f = f || (hv::lt(i.s(), x) && hv::lt(x, i.e()));
    return f;
}
