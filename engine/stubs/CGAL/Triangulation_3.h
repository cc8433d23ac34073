// Stand-in for CGAL's 3D triangulation: vertices are the given points, cells are chosen by the harness.
#pragma once
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <vector>
namespace CGAL {
namespace stub {
inline std::function<std::vector<std::array<int, 4>>(int)>& cells() {
    static std::function<std::vector<std::array<int, 4>>(int)> f = [](int n) {
        std::vector<std::array<int, 4>> c;
        for (int i = 0; i + 3 < n; ++i) c.push_back({{i, i + 1, i + 2, i + 3}});
        return c;
    };
    return f;
}
}  // namespace stub
template <class K>
class Triangulation_3 {
  public:
    class Point {
      public:
        Point(double x, double y, double z) : c{x, y, z} {}
        double operator[](int i) const { return c[i]; }
        double x() const { return c[0]; }
        double y() const { return c[1]; }
        double z() const { return c[2]; }

      private:
        double c[3];
    };
    class Vertex {
      public:
        explicit Vertex(const Point& p) : p_(p) {}
        const Point& point() const { return p_; }

      private:
        Point p_;
    };
    typedef const Vertex* Vertex_handle;
    class Cell {
      public:
        Vertex_handle vertex(int i) const { return v[i]; }
        Vertex_handle v[4];
    };
    typedef const Cell* Cell_handle;
    template <class T>
    class It {
      public:
        It() : p_(nullptr) {}
        explicit It(const T* p) : p_(p) {}
        const T* operator->() const { return p_; }
        const T& operator*() const { return *p_; }
        const T* base() const { return p_; }
        operator const T*() const { return p_; }
        It& operator++() {
            ++p_;
            return *this;
        }
        It operator++(int) { return It(p_++); }
        bool operator==(const It& o) const { return p_ == o.p_; }
        bool operator!=(const It& o) const { return p_ != o.p_; }

      private:
        const T* p_;
    };
    typedef It<Vertex> Finite_vertices_iterator;
    typedef It<Cell> Finite_cells_iterator;
    template <class I>
    Triangulation_3(I b, I e) {
        for (; b != e; ++b) v_.emplace_back(*b);
        for (auto& c : stub::cells()((int)v_.size())) {
            Cell x;
            for (int i = 0; i < 4; ++i) x.v[i] = &v_[c[i]];
            c_.push_back(x);
        }
    }
    bool is_valid() const { return true; }
    std::size_t number_of_vertices() const { return v_.size(); }
    std::size_t number_of_finite_cells() const { return c_.size(); }
    Finite_vertices_iterator finite_vertices_begin() const { return Finite_vertices_iterator(v_.data()); }
    Finite_vertices_iterator finite_vertices_end() const { return Finite_vertices_iterator(v_.data() + v_.size()); }
    Finite_cells_iterator finite_cells_begin() const { return Finite_cells_iterator(c_.data()); }
    Finite_cells_iterator finite_cells_end() const { return Finite_cells_iterator(c_.data() + c_.size()); }

  private:
    std::vector<Vertex> v_;
    std::vector<Cell> c_;
};
}  // namespace CGAL
