// Stand-in for FCL: geometries and poses are recorded, `collide` asks the harness (the narrow phase is outside the
// encoding and is an arbitrary oracle).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <functional>
#include <memory>
#include <vector>
namespace fcl {
template <class S> using Vector3 = Eigen::Matrix<S, 3, 1>;
template <class S> using Matrix3 = Eigen::Matrix<S, 3, 3>;
template <class S> using Quaternion = Eigen::Quaternion<S>;
template <class S> using Transform3 = Eigen::Transform<S, 3, Eigen::Isometry>;

class Triangle {
  public:
    typedef std::size_t index_type;
    Triangle() : vids{0, 0, 0} {}
    Triangle(std::size_t a, std::size_t b, std::size_t c) : vids{a, b, c} {}
    std::size_t operator[](int i) const { return vids[i]; }
    std::size_t& operator[](int i) { return vids[i]; }
    void set(std::size_t a, std::size_t b, std::size_t c) { vids[0] = a, vids[1] = b, vids[2] = c; }

  private:
    std::size_t vids[3];
};
template <class S>
class CollisionGeometry {
  public:
    virtual ~CollisionGeometry() {}
    virtual void computeLocalAABB() {}
};
template <class S>
class ShapeBase : public CollisionGeometry<S> {};
template <class S>
class Ellipsoid : public ShapeBase<S> {
  public:
    Ellipsoid(S a, S b, S c) : radii(a, b, c) {}
    explicit Ellipsoid(const Vector3<S>& r) : radii(r) {}
    Vector3<S> radii;
};
template <class S>
class Sphere : public ShapeBase<S> {
  public:
    explicit Sphere(S r) : radius(r) {}
    S radius;
};
template <class S_>
class OBBRSS {
  public:
    typedef S_ S;
};
template <class BV>
class BVHModel : public CollisionGeometry<typename BV::S> {
  public:
    typedef typename BV::S S;
    int beginModel(int = 0, int = 0) { return 0; }
    int addSubModel(const std::vector<Vector3<S>>& v, const std::vector<Triangle>& t) {
        for (auto& x : t) tri_indices.emplace_back(x[0] + vertices.size(), x[1] + vertices.size(), x[2] + vertices.size());
        vertices.insert(vertices.end(), v.begin(), v.end());
        return 0;
    }
    int addTriangle(const Vector3<S>& a, const Vector3<S>& b, const Vector3<S>& c) {
        std::size_t n = vertices.size();
        vertices.push_back(a), vertices.push_back(b), vertices.push_back(c);
        tri_indices.emplace_back(n, n + 1, n + 2);
        return 0;
    }
    int endModel() { return 0; }
    std::vector<Vector3<S>> vertices;
    std::vector<Triangle> tri_indices;
};
template <class S>
class CollisionObject {
  public:
    CollisionObject(const std::shared_ptr<CollisionGeometry<S>>& g) : g_(g) { init(); }
    CollisionObject(const std::shared_ptr<CollisionGeometry<S>>& g, const Matrix3<S>& R, const Vector3<S>& t) : g_(g), R_(R), t_(t) {}
    void setTransform(const Matrix3<S>& R, const Vector3<S>& t) { R_ = R, t_ = t; }
    void setTransform(const Quaternion<S>& q, const Vector3<S>& t) { R_ = q.toRotationMatrix(), t_ = t; }
    void setTransform(const Transform3<S>& x) { R_ = x.linear(), t_ = x.translation(); }
    void setRotation(const Matrix3<S>& R) { R_ = R; }
    void setQuatRotation(const Quaternion<S>& q) { R_ = q.toRotationMatrix(); }
    void setTranslation(const Vector3<S>& t) { t_ = t; }
    const Matrix3<S> getRotation() const { return R_; }
    const Vector3<S> getTranslation() const { return t_; }
    void computeAABB() {}
    const std::shared_ptr<const CollisionGeometry<S>> collisionGeometry() const { return g_; }
    const CollisionGeometry<S>* geometry() const { return g_.get(); }

  private:
    void init() {
        for (int i = 0; i < 3; ++i) {
            t_(i) = S(0.0);
            for (int j = 0; j < 3; ++j) R_(i, j) = S(i == j ? 1.0 : 0.0);
        }
    }
    std::shared_ptr<CollisionGeometry<S>> g_;
    Matrix3<S> R_;
    Vector3<S> t_;
};
template <class S>
struct CollisionRequest {
    CollisionRequest(std::size_t n = 1, bool c = false) : num_max_contacts(n), enable_contact(c) {}
    std::size_t num_max_contacts;
    bool enable_contact;
};
template <class S>
struct CollisionResult {
    bool hit = false;
    bool isCollision() const { return hit; }
    std::size_t numContacts() const { return hit; }
    void clear() { hit = false; }
};
namespace stub {
template <class S>
std::function<bool(const CollisionObject<S>&, const CollisionObject<S>&)>& oracle() {
    static std::function<bool(const CollisionObject<S>&, const CollisionObject<S>&)> f;
    return f;
}
}  // namespace stub
template <class S>
std::size_t collide(const CollisionObject<S>* a, const CollisionObject<S>* b, const CollisionRequest<S>&, CollisionResult<S>& r) {
    r.hit = stub::oracle<S>()(*a, *b);
    return r.hit;
}
#ifndef HV_SYM
typedef Vector3<double> Vector3d;
typedef Matrix3<double> Matrix3d;
typedef Quaternion<double> Quaterniond;
typedef Transform3<double> Transform3d;
typedef Ellipsoid<double> Ellipsoidd;
typedef Sphere<double> Sphered;
typedef CollisionObject<double> CollisionObjectd;
typedef CollisionGeometry<double> CollisionGeometryd;
typedef CollisionRequest<double> CollisionRequestd;
typedef CollisionResult<double> CollisionResultd;
typedef OBBRSS<double> OBBRSSd;
#endif
}  // namespace fcl
