#pragma once
namespace CGAL {
struct Exact_predicates_inexact_constructions_kernel {};
}  // namespace CGAL
