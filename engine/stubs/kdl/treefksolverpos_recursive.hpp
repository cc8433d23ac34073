#pragma once
#include "kdl/tree.hpp"
namespace KDL {
class TreeFkSolverPos_recursive {
  public:
    explicit TreeFkSolverPos_recursive(const Tree& t) : tree_(t) {}
    int JntToCart(const JntArray& q, Frame& out, std::string name) {
        if (q.rows() != tree_.getNrOfJoints()) return -1;
        std::vector<double> v;
        for (unsigned int i = 0; i < q.rows(); ++i) v.push_back(q.data(i));
        return stub::fk()(v, name, out);
    }

  private:
    const Tree tree_;
};
}  // namespace KDL
