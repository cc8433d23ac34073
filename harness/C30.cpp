// HV-ORACLE: membership by the sign of four determinants of each tetrahedron
// HV-BOUND: up to 2 tetrahedra with a symbolic corner, a symbolic edge length along skewed edge directions, any query point
// HV-OUTSIDE: tetrahedra with other edge directions; more tetrahedra
#include "hrm/datastructure/DataType.h"
#include "hrm/geometry/PointInPoly.h"
#include "hv.hpp"
using namespace hrm;
// corner o, edges l_k * E_k; E = [1 0 0], [1 1 0], [0 1 1]
HV_CASE_N(inside, 3) {
    const int n = shard;
    PolyCSpace poly;
    std::vector<double> p = {hv::real("px", -10, 10), hv::real("py", -10, 10), hv::real("pz", -10, 10)};
    hv::F in(false), strict(false);
    for (int t = 0; t < n; ++t) {
        const std::string s = std::to_string(t);
        const double o[3] = {hv::real("ox" + s, -10, 10), double(1), double(t ? -1 : 2)};
        const double l[3] = {hv::real("l0" + s, 0.5, 4), double(2), double(0.5)};
        // weights of the edges: the point is o + w0 l0 E0 + w1 l1 E1 + w2 l2 E2
        double m[4][4];
        for (int j = 0; j < 4; ++j) m[0][j] = double(j == 3);
        const double w[3][4] = {{double(1), double(-1), double(1), double(0)}, {double(0), double(1), double(-1), double(0)}, {double(0), double(0), double(1), double(0)}};
        for (int k = 0; k < 3; ++k)
            for (int j = 0; j < 4; ++j) m[k + 1][j] = (j < 3 ? w[k][j] : double(0) - w[k][0] * o[0] - w[k][1] * o[1] - w[k][2] * o[2]) / l[k];
        for (int j = 0; j < 4; ++j) m[0][j] = m[0][j] - m[1][j] - m[2][j] - m[3][j];
        std::vector<double> flat;
        for (int j = 0; j < 4; ++j)
            for (int i = 0; i < 4; ++i) flat.push_back(m[i][j]);
        poly.matrixInverse.push_back(flat);
        const double d[3] = {p[0] - o[0], p[1] - o[1], p[2] - o[2]};
        const double c2 = d[2], c1 = d[1] - d[2], c0 = d[0] - d[1] + d[2];  // lengths along the edges
        const double e(1e-6);
        const double rest = double(1) - c0 / l[0] - c1 / l[1] - c2 / l[2];
        in = in || (hv::le(-e, c0) && hv::le(-e, c1) && hv::le(-e, c2) && hv::le(-e, rest));
        strict = strict || (hv::le(e, c0) && hv::le(e, c1) && hv::le(e, c2) && hv::le(e, rest));
    }
    bool r = false;
    hv::guarded("query", [&] { r = isPtInPoly(poly, p); });
    if (r) hv::check("reported inside only when inside a tetrahedron", in), hv::reach("inside");
    else hv::check("reported outside only when outside every tetrahedron", !strict), hv::reach("outside");
}
