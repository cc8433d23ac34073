// Native replay: the environment's random quaternion comes from the replay file.
#pragma once
#include "hv.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
namespace Eigen {
template <>
inline Quaternion<double, 0> Quaternion<double, 0>::UnitRandom() {
    double q[4];
    hv::unitQuat("rnd:quat", q);
    return Quaternion<double, 0>(q[0], q[1], q[2], q[3]);
}
}  // namespace Eigen
