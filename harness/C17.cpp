// HV-ORACLE: sum of squares; squared form of the triangle inequality
// HV-BOUND: 0 to 10, 12, 16, 17, 33 and 65 coordinates, each (from 8 on: the first, middle and last) any value in [-100, 100]
// HV-OUTSIDE: vectors of different lengths
#include "hrm/util/DistanceMetric.h"
#include "hv.hpp"
using namespace hrm;
HV_CASE_N(metric, 16) {
    static const int SIZE[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33, 65};
    std::vector<double> a, b;
    double sum(0);
    for (int k = 0; k < SIZE[shard]; ++k) {
        // long vectors: the first, the middle and the last coordinates are arbitrary
        const bool any = SIZE[shard] < 8 || k < 1 || k + 1 >= SIZE[shard] || k == SIZE[shard] / 2;
        a.push_back(any ? hv::real("a" + std::to_string(k), -100, 100) : double(0.25 * k));
        b.push_back(any ? hv::real("b" + std::to_string(k), -100, 100) : double(1.5 - 0.5 * k));
        sum = sum + (a[k] - b[k]) * (a[k] - b[k]);
    }
    double d(0), e(0), z(0);
    hv::guarded("distance", [&] { d = vectorEuclidean(a, b), e = vectorEuclidean(b, a), z = vectorEuclidean(a, a); });
    hv::check("square root of the summed squares", hv::near(d * d, sum, 1e-6));
    hv::check("not negative", hv::le(double(0), d));
    hv::check("symmetric", hv::near(d, e, 1e-9));
    hv::check("zero to itself", hv::eq(z, double(0)));
    hv::reach("done");
}
HV_CASE(triangle) {  // on a line and in the plane
    const double x = hv::real("x", -10, 10), y = hv::real("y", -10, 10), z = hv::real("z", -10, 10);
    const double ab = vectorEuclidean({x, double(0)}, {y, double(0)}), bc = vectorEuclidean({y, double(0)}, {z, double(0)}), ac = vectorEuclidean({x, double(0)}, {z, double(0)});
    hv::check("triangle inequality", hv::le(ac, ab + bc + double(1e-9)));
    hv::reach("done");
}
