// rotations of the harnesses, independent of Eigen's conversions
#pragma once
#include "hv.hpp"
struct R3 { double m[3][3]; };
inline R3 rotOf(const double q[4]) {
    const double &w = q[0], &i = q[1], &j = q[2], &l = q[3];
    R3 r;
    r.m[0][0] = w * w + i * i - j * j - l * l, r.m[0][1] = 2.0 * (i * j - l * w), r.m[0][2] = 2.0 * (i * l + j * w);
    r.m[1][0] = 2.0 * (i * j + l * w), r.m[1][1] = w * w - i * i + j * j - l * l, r.m[1][2] = 2.0 * (j * l - i * w);
    r.m[2][0] = 2.0 * (i * l - j * w), r.m[2][1] = 2.0 * (j * l + i * w), r.m[2][2] = w * w - i * i - j * j + l * l;
    return r;
}
inline R3 operator*(const R3& a, const R3& b) {
    R3 r;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r.m[i][j] = a.m[i][0] * b.m[0][j] + a.m[i][1] * b.m[1][j] + a.m[i][2] * b.m[2][j];
    return r;
}
inline void apply(const R3& a, const double v[3], double o[3]) {
    for (int i = 0; i < 3; ++i) o[i] = a.m[i][0] * v[0] + a.m[i][1] * v[1] + a.m[i][2] * v[2];
}
inline void checkRot(const std::string& label, const R3& a, const R3& b, hv::K tol = 1e-6) {
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) hv::check(label, hv::near(a.m[i][j], b.m[i][j], tol));
}
// turned about one axis by any angle
inline void turn(const double& half, int axis, double q[4]) {
    q[0] = cos(half), q[1] = double(0), q[2] = double(0), q[3] = double(0);
    q[1 + axis] = sin(half);
}
