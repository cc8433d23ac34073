#pragma once
#include <string>
#include "kdl/tree.hpp"
namespace kdl_parser {
inline bool treeFromFile(const std::string&, KDL::Tree& t) {
    t.joints = KDL::stub::numJoints();
    return true;
}
}  // namespace kdl_parser
