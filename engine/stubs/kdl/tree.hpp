// Stand-in for Orocos KDL: forward kinematics is an arbitrary function (body name, joint values) -> pose given by the
// harness; number of joints likewise.
#pragma once
#include <Eigen/Dense>
#include <functional>
#include <string>
#include <vector>
namespace KDL {
class JntArray {
  public:
    Eigen::VectorXd data;
    JntArray() {}
    explicit JntArray(unsigned int n) : data(Eigen::VectorXd::Zero(n)) {}
    unsigned int rows() const { return (unsigned int)data.rows(); }
    void resize(unsigned int n) { data.conservativeResize(n); }
    double& operator()(unsigned int i) { return data(i); }
    double operator()(unsigned int i) const { return data(i); }
};
class Vector {
  public:
    double data[3];
    Vector() : data{double(0), double(0), double(0)} {}
    Vector(double x, double y, double z) : data{x, y, z} {}
    double x() const { return data[0]; }
    double y() const { return data[1]; }
    double z() const { return data[2]; }
    double operator()(int i) const { return data[i]; }
    double operator[](int i) const { return data[i]; }
};
class Rotation {
  public:
    double q[4];  // x y z w
    Rotation() : q{double(0), double(0), double(0), double(1)} {}
    void GetQuaternion(double& x, double& y, double& z, double& w) const { x = q[0], y = q[1], z = q[2], w = q[3]; }
    double operator()(int i, int j) const {
        return Eigen::Quaterniond(q[3], q[0], q[1], q[2]).toRotationMatrix()(i, j);
    }
};
class Frame {
  public:
    Vector p;
    Rotation M;
};
class Tree {
  public:
    unsigned int joints = 0;
    unsigned int getNrOfJoints() const { return joints; }
    unsigned int getNrOfSegments() const { return joints; }
};
namespace stub {
inline unsigned int& numJoints() {
    static unsigned int n = 0;
    return n;
}
inline std::function<int(const std::vector<double>&, const std::string&, Frame&)>& fk() {
    static std::function<int(const std::vector<double>&, const std::string&, Frame&)> f;
    return f;
}
}  // namespace stub
}  // namespace KDL
