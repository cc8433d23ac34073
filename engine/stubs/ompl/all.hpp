// Stand-in for OMPL: state spaces, states and their conversions behave as documented; the planner, simplification and the
// sampled statistics are oracles of the harness (ompl::stub).
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define OMPL_INFORM(...) ((void)0)
#define OMPL_WARN(...) ((void)0)
#define OMPL_ERROR(...) ((void)0)
#define OMPL_DEBUG(...) ((void)0)
namespace ompl {
class Exception : public std::runtime_error {
  public:
    explicit Exception(const std::string& what) : std::runtime_error(what) {}
    Exception(const std::string& prefix, const std::string& what) : std::runtime_error(prefix + ": " + what) {}
};
namespace stub {
inline std::function<double(const double&, const double&)>& uniform() {
    static std::function<double(const double&, const double&)> f;
    return f;
}
}  // namespace stub
class RNG {
  public:
    RNG() {}
    double uniformReal(double lo, double hi) { return stub::uniform()(lo, hi); }
    double uniform01() { return stub::uniform()(double(0), double(1)); }
};
namespace base {
class State {
  public:
    State() = default;
    State(const State&) = delete;
    State& operator=(const State&) = delete;
    virtual ~State() {}
    template <class T> const T* as() const { return static_cast<const T*>(this); }
    template <class T> T* as() { return static_cast<T*>(this); }
};
class CompoundState : public State {
  public:
    template <class T> const T* as() const { return static_cast<const T*>(this); }
    template <class T> T* as() { return static_cast<T*>(this); }
    template <class T> const T* as(unsigned int i) const { return static_cast<const T*>(components[i]); }
    template <class T> T* as(unsigned int i) { return static_cast<T*>(components[i]); }
    State* operator[](unsigned int i) const { return components[i]; }
    State** components = nullptr;
};
class StateSpace;
typedef std::shared_ptr<StateSpace> StateSpacePtr;
class StateSpace {
  public:
    typedef State StateType;
    StateSpace() {
        static int n = 0;
        name_ = "space" + std::to_string(n++);
    }
    virtual ~StateSpace() {}
    template <class T> T* as() { return static_cast<T*>(this); }
    template <class T> const T* as() const { return static_cast<const T*>(this); }
    const std::string& getName() const { return name_; }
    void setName(const std::string& n) { name_ = n; }
    virtual bool isCompound() const { return false; }
    virtual bool plainCompound() const { return false; }
    virtual unsigned int getDimension() const = 0;
    virtual State* allocState() const = 0;
    virtual void freeState(State*) const = 0;
    virtual void copyState(State* to, const State* from) const = 0;
    virtual void enforceBounds(State*) const = 0;
    virtual void setup() {}

  private:
    std::string name_;
};
struct RealVectorBounds {
    RealVectorBounds(unsigned int dim) { resize(dim); }
    void setLow(double v) { for (auto& x : low) x = v; }
    void setHigh(double v) { for (auto& x : high) x = v; }
    void setLow(unsigned int i, double v) { low.at(i) = v; }
    void setHigh(unsigned int i, double v) { high.at(i) = v; }
    void resize(std::size_t n) { low.resize(n, double(0)), high.resize(n, double(0)); }
    std::vector<double> low, high;
};
class RealVectorStateSpace : public StateSpace {
  public:
    class StateType : public State {
      public:
        double operator[](unsigned int i) const { return values[i]; }
        double& operator[](unsigned int i) { return values[i]; }
        double* values = nullptr;
    };
    RealVectorStateSpace(unsigned int n = 0) : n_(n), b_(n) {}
    void setBounds(const RealVectorBounds& b) {
        if (b.low.size() != n_ || b.high.size() != n_) throw Exception("Bounds do not match dimension of state space");
        b_ = b;
    }
    const RealVectorBounds& getBounds() const { return b_; }
    unsigned int getDimension() const override { return n_; }
    State* allocState() const override {
        auto* s = new StateType();
        s->values = new double[n_ ? n_ : 1];
        for (unsigned i = 0; i < n_; ++i) s->values[i] = double(0);
        return s;
    }
    void freeState(State* s) const override {
        delete[] static_cast<StateType*>(s)->values;
        delete s;
    }
    void copyState(State* to, const State* from) const override {
        for (unsigned i = 0; i < n_; ++i) static_cast<StateType*>(to)->values[i] = static_cast<const StateType*>(from)->values[i];
    }
    void enforceBounds(State* s) const override {
        auto* v = static_cast<StateType*>(s)->values;
        for (unsigned i = 0; i < n_; ++i) {
            if (v[i] > b_.high[i]) v[i] = b_.high[i];
            else if (v[i] < b_.low[i]) v[i] = b_.low[i];
        }
    }

  private:
    unsigned int n_;
    RealVectorBounds b_;
};
class SO2StateSpace : public StateSpace {
  public:
    class StateType : public State {
      public:
        void setIdentity() { value = double(0); }
        double value = double(0);
    };
    unsigned int getDimension() const override { return 1; }
    State* allocState() const override { return new StateType(); }
    void freeState(State* s) const override { delete s; }
    void copyState(State* to, const State* from) const override { static_cast<StateType*>(to)->value = static_cast<const StateType*>(from)->value; }
    void enforceBounds(State* s) const override {
        double& v = static_cast<StateType*>(s)->value;
        const double pi = M_PI;
        for (int k = 0; k < 8 && v < -pi; ++k) v = v + double(2) * pi;
        for (int k = 0; k < 8 && v >= pi; ++k) v = v - double(2) * pi;
    }
};
class SO3StateSpace : public StateSpace {
  public:
    class StateType : public State {
      public:
        void setIdentity() { x = y = z = double(0), w = double(1); }
        double x = double(0), y = double(0), z = double(0), w = double(1);
    };
    unsigned int getDimension() const override { return 3; }
    State* allocState() const override { return new StateType(); }
    void freeState(State* s) const override { delete s; }
    void copyState(State* to, const State* from) const override {
        auto *a = static_cast<StateType*>(to);
        auto *b = static_cast<const StateType*>(from);
        a->x = b->x, a->y = b->y, a->z = b->z, a->w = b->w;
    }
    void enforceBounds(State* s) const override {
        auto* q = static_cast<StateType*>(s);
        const double n2 = q->x * q->x + q->y * q->y + q->z * q->z + q->w * q->w;
        const double d = n2 - double(1);
        if (d > double(1e-9) || d < double(-1e-9)) {
            using std::sqrt;
            const double n = sqrt(n2);
            if (n < double(1e-6)) q->setIdentity();
            else q->x = q->x / n, q->y = q->y / n, q->z = q->z / n, q->w = q->w / n;
        }
    }
};
class CompoundStateSpace : public StateSpace {
  public:
    typedef CompoundState StateType;
    CompoundStateSpace() {}
    CompoundStateSpace(const std::vector<StateSpacePtr>& c, const std::vector<double>& w) : sub_(c), weight_(w) {}
    template <class T> T* as() { return static_cast<T*>(this); }
    template <class T> const T* as() const { return static_cast<const T*>(this); }
    template <class T> T* as(unsigned int i) const { return static_cast<T*>(sub_.at(i).get()); }
    bool isCompound() const override { return true; }
    bool plainCompound() const override { return plain_; }
    void addSubspace(const StateSpacePtr& s, double w) { sub_.push_back(s), weight_.push_back(w); }
    unsigned int getSubspaceCount() const { return (unsigned int)sub_.size(); }
    const StateSpacePtr& getSubspace(unsigned int i) const { return sub_.at(i); }
    const std::vector<StateSpacePtr>& getSubspaces() const { return sub_; }
    const std::vector<double>& getSubspaceWeights() const { return weight_; }
    unsigned int getDimension() const override {
        unsigned n = 0;
        for (auto& s : sub_) n += s->getDimension();
        return n;
    }
    State* allocState() const override {
        auto* s = new CompoundState();
        fill(s);
        return s;
    }
    void freeState(State* s) const override {
        auto* c = static_cast<CompoundState*>(s);
        for (unsigned i = 0; i < sub_.size(); ++i) sub_[i]->freeState(c->components[i]);
        delete[] c->components;
        delete s;
    }
    void copyState(State* to, const State* from) const override {
        for (unsigned i = 0; i < sub_.size(); ++i) sub_[i]->copyState(static_cast<CompoundState*>(to)->components[i], static_cast<const CompoundState*>(from)->components[i]);
    }
    void enforceBounds(State* s) const override {
        for (unsigned i = 0; i < sub_.size(); ++i) sub_[i]->enforceBounds(static_cast<CompoundState*>(s)->components[i]);
    }

    bool plain_ = true;

    void fill(CompoundState* s) const {
        s->components = new State*[sub_.size() + 1];
        for (unsigned i = 0; i < sub_.size(); ++i) s->components[i] = sub_[i]->allocState();
    }

  private:
    std::vector<StateSpacePtr> sub_;
    std::vector<double> weight_;
};
class SE2StateSpace : public CompoundStateSpace {
  public:
    class StateType : public CompoundState {
      public:
        double getX() const { return as<RealVectorStateSpace::StateType>(0)->values[0]; }
        double getY() const { return as<RealVectorStateSpace::StateType>(0)->values[1]; }
        double getYaw() const { return as<SO2StateSpace::StateType>(1)->value; }
        void setX(double x) { as<RealVectorStateSpace::StateType>(0)->values[0] = x; }
        void setY(double y) { as<RealVectorStateSpace::StateType>(0)->values[1] = y; }
        void setXY(double x, double y) { setX(x), setY(y); }
        void setYaw(double v) { as<SO2StateSpace::StateType>(1)->value = v; }
    };
    SE2StateSpace() {
        addSubspace(std::make_shared<RealVectorStateSpace>(2), double(1));
        addSubspace(std::make_shared<SO2StateSpace>(), double(0.5));
        plain_ = false;
    }
    void setBounds(const RealVectorBounds& b) { as<RealVectorStateSpace>(0)->setBounds(b); }
    const RealVectorBounds& getBounds() const { return as<RealVectorStateSpace>(0)->getBounds(); }
    State* allocState() const override {
        auto* s = new StateType();
        fill(s);
        return s;
    }
};
class SE3StateSpace : public CompoundStateSpace {
  public:
    class StateType : public CompoundState {
      public:
        double getX() const { return as<RealVectorStateSpace::StateType>(0)->values[0]; }
        double getY() const { return as<RealVectorStateSpace::StateType>(0)->values[1]; }
        double getZ() const { return as<RealVectorStateSpace::StateType>(0)->values[2]; }
        const SO3StateSpace::StateType& rotation() const { return *as<SO3StateSpace::StateType>(1); }
        SO3StateSpace::StateType& rotation() { return *as<SO3StateSpace::StateType>(1); }
        void setX(double x) { as<RealVectorStateSpace::StateType>(0)->values[0] = x; }
        void setY(double y) { as<RealVectorStateSpace::StateType>(0)->values[1] = y; }
        void setZ(double z) { as<RealVectorStateSpace::StateType>(0)->values[2] = z; }
        void setXYZ(double x, double y, double z) { setX(x), setY(y), setZ(z); }
    };
    SE3StateSpace() {
        addSubspace(std::make_shared<RealVectorStateSpace>(3), double(1));
        addSubspace(std::make_shared<SO3StateSpace>(), double(1));
        plain_ = false;
    }
    void setBounds(const RealVectorBounds& b) { as<RealVectorStateSpace>(0)->setBounds(b); }
    const RealVectorBounds& getBounds() const { return as<RealVectorStateSpace>(0)->getBounds(); }
    State* allocState() const override {
        auto* s = new StateType();
        fill(s);
        return s;
    }
};
inline StateSpacePtr operator+(const StateSpacePtr& a, const StateSpacePtr& b) {
    auto r = std::make_shared<CompoundStateSpace>();
    for (auto& s : {a, b}) {
        if (s->plainCompound()) {
            auto* c = s->as<CompoundStateSpace>();
            for (unsigned i = 0; i < c->getSubspaceCount(); ++i) r->addSubspace(c->getSubspace(i), c->getSubspaceWeights()[i]);
        } else
            r->addSubspace(s, double(1));
    }
    return r;
}
// copies the parts that belong to the same space; false when there are none
inline bool copyStateData(const StateSpacePtr& ts, State* to, const StateSpacePtr& fs, const State* from) {
    if (ts->getName() == fs->getName()) {
        if (to != from) ts->copyState(to, from);
        return true;
    }
    bool any = false;
    if (ts->isCompound()) {
        auto* c = ts->as<CompoundStateSpace>();
        for (unsigned i = 0; i < c->getSubspaceCount(); ++i)
            any = copyStateData(c->getSubspace(i), static_cast<CompoundState*>(to)->components[i], fs, from) || any;
        if (any) return true;
    }
    if (fs->isCompound()) {
        auto* c = fs->as<CompoundStateSpace>();
        for (unsigned i = 0; i < c->getSubspaceCount(); ++i)
            any = copyStateData(ts, to, c->getSubspace(i), static_cast<const CompoundState*>(from)->components[i]) || any;
    }
    return any;
}
class SpaceInformation;
typedef std::shared_ptr<SpaceInformation> SpaceInformationPtr;
template <class T = StateSpace>
class ScopedState {
  public:
    typedef typename T::StateType StateType;
    explicit ScopedState(const StateSpacePtr& s) : space_(s), state_(s->allocState()) {}
    ScopedState(const StateSpacePtr& s, const State* x) : ScopedState(s) { s->copyState(state_, x); }
    explicit ScopedState(const SpaceInformationPtr& si);
    ScopedState(const ScopedState& o) : ScopedState(o.space_) { space_->copyState(state_, o.state_); }
    template <class O> ScopedState(const ScopedState<O>& o) : ScopedState(o.getSpace()) { space_->copyState(state_, o.state_); }
    ~ScopedState() { space_->freeState(state_); }
    ScopedState& operator=(const ScopedState& o) {
        if (&o != this) {
            space_->freeState(state_);
            space_ = o.space_;
            state_ = space_->allocState();
            space_->copyState(state_, o.state_);
        }
        return *this;
    }
    template <class O> ScopedState& operator=(const ScopedState<O>& o) {
        space_->freeState(state_);
        space_ = o.space_;
        state_ = space_->allocState();
        space_->copyState(state_, o.state_);
        return *this;
    }
    ScopedState& operator=(const State* o) {
        if (o != state_) space_->copyState(state_, o);
        return *this;
    }
    ScopedState& operator=(const State& o) { return *this = &o; }
    const StateSpacePtr& getSpace() const { return space_; }
    void enforceBounds() { space_->enforceBounds(state_); }
    StateType& operator*() { return *static_cast<StateType*>(state_); }
    const StateType& operator*() const { return *static_cast<const StateType*>(state_); }
    StateType* operator->() { return static_cast<StateType*>(state_); }
    const StateType* operator->() const { return static_cast<const StateType*>(state_); }
    StateType* get() { return static_cast<StateType*>(state_); }
    const StateType* get() const { return static_cast<const StateType*>(state_); }
    StateType* operator()() const { return static_cast<StateType*>(state_); }

    StateSpacePtr space_;
    State* state_;
};
template <class A, class B>
ScopedState<A>& operator<<(ScopedState<A>& to, const ScopedState<B>& from) {
    copyStateData(to.space_, to.state_, from.space_, from.state_);
    return to;
}
template <class A, class B>
const ScopedState<A>& operator>>(const ScopedState<A>& from, ScopedState<B>& to) {
    copyStateData(to.space_, to.state_, from.space_, from.state_);
    return from;
}
class ValidStateSampler {
  public:
    explicit ValidStateSampler(const SpaceInformation* si) : si_(si) {}
    virtual ~ValidStateSampler() {}
    const std::string& getName() const { return name_; }
    void setName(const std::string& n) { name_ = n; }
    void setNrAttempts(unsigned int n) { attempts_ = n; }

    const SpaceInformation* si_;
    std::string name_;
    unsigned int attempts_ = 10, improve_ = 3;
};
typedef std::shared_ptr<ValidStateSampler> ValidStateSamplerPtr;
typedef std::function<ValidStateSamplerPtr(const SpaceInformation*)> ValidStateSamplerAllocator;
#define HV_SAMPLER(C, N) \
    class C : public ValidStateSampler { \
      public: \
        explicit C(const SpaceInformation* si) : ValidStateSampler(si) { name_ = N; } \
        void setNrImproveAttempts(unsigned int n) { improve_ = n; } \
    };
HV_SAMPLER(UniformValidStateSampler, "uniform")
HV_SAMPLER(GaussianValidStateSampler, "gaussian")
HV_SAMPLER(ObstacleBasedValidStateSampler, "obstacle_based")
HV_SAMPLER(MaximizeClearanceValidStateSampler, "max_clearance")
HV_SAMPLER(BridgeTestValidStateSampler, "bridge_test")
#undef HV_SAMPLER
class MotionValidator {
  public:
    unsigned int getCheckedMotionCount() const { return valid_ + invalid_; }
    unsigned int getValidMotionCount() const { return valid_; }
    unsigned int getInvalidMotionCount() const { return invalid_; }
    unsigned int valid_ = 0, invalid_ = 0;
};
typedef std::shared_ptr<MotionValidator> MotionValidatorPtr;
typedef std::function<bool(const State*)> StateValidityCheckerFn;
class SpaceInformation {
  public:
    explicit SpaceInformation(const StateSpacePtr& s) : space_(s), validator_(std::make_shared<MotionValidator>()) {}
    const StateSpacePtr& getStateSpace() const { return space_; }
    void setStateValidityChecker(const StateValidityCheckerFn& f) { fn_ = f; }
    void setStateValidityCheckingResolution(double r) { resolution_ = r; }
    double getStateValidityCheckingResolution() const { return resolution_; }
    void setValidStateSamplerAllocator(const ValidStateSamplerAllocator& a) { alloc_ = a; }
    ValidStateSamplerPtr allocValidStateSampler() const { return alloc_ ? alloc_(this) : std::make_shared<UniformValidStateSampler>(this); }
    const MotionValidatorPtr& getMotionValidator() const { return validator_; }
    bool isValid(const State* s) const { return fn_(s); }
    double probabilityOfValidState(unsigned int) const { return probability_; }
    State* allocState() const { return space_->allocState(); }
    void freeState(State* s) const { space_->freeState(s); }
    void setup() { ready_ = true; }
    bool isSetup() const { return ready_; }

    StateSpacePtr space_;
    MotionValidatorPtr validator_;
    StateValidityCheckerFn fn_;
    ValidStateSamplerAllocator alloc_;
    double resolution_ = double(0.01), probability_ = double(0);
    bool ready_ = false;
};
template <class T>
ScopedState<T>::ScopedState(const SpaceInformationPtr& si) : ScopedState(si->getStateSpace()) {}
struct PlannerStatus {
    enum StatusType { UNKNOWN = 0, INVALID_START, INVALID_GOAL, UNRECOGNIZED_GOAL_TYPE, TIMEOUT, APPROXIMATE_SOLUTION, EXACT_SOLUTION, CRASH, ABORT, TYPE_COUNT };
    PlannerStatus(StatusType s = UNKNOWN) : s_(s) {}
    operator StatusType() const { return s_; }
    explicit operator bool() const { return s_ == APPROXIMATE_SOLUTION || s_ == EXACT_SOLUTION; }
    StatusType s_;
};
class Planner {
  public:
    Planner(const SpaceInformationPtr& si, const std::string& n) : si_(si), name_(n) {}
    virtual ~Planner() {}
    const std::string& getName() const { return name_; }
    const SpaceInformationPtr& getSpaceInformation() const { return si_; }
    SpaceInformationPtr si_;
    std::string name_;
};
typedef std::shared_ptr<Planner> PlannerPtr;
class PlannerDataVertex {
  public:
    explicit PlannerDataVertex(const State* s) : s_(s) {}
    const State* getState() const { return s_; }
    const State* s_;
};
class PlannerData {
  public:
    explicit PlannerData(const SpaceInformationPtr& si) : si_(si) {}
    unsigned int numVertices() const { return (unsigned int)v_.size(); }
    unsigned int numEdges() const { return e_.size(); }
    const PlannerDataVertex& getVertex(unsigned int i) const { return v_.at(i); }
    unsigned int getEdges(unsigned int i, std::vector<unsigned int>& out) const {
        out.clear();
        for (auto& e : e_)
            if (e.first == i) out.push_back(e.second);
        return (unsigned int)out.size();
    }
    unsigned int getIncomingEdges(unsigned int i, std::vector<unsigned int>& out) const {
        out.clear();
        for (auto& e : e_)
            if (e.second == i) out.push_back(e.first);
        return (unsigned int)out.size();
    }
    bool edgeExists(unsigned int a, unsigned int b) const {
        for (auto& e : e_)
            if (e.first == a && e.second == b) return true;
        return false;
    }
    const SpaceInformationPtr& getSpaceInformation() const { return si_; }
    SpaceInformationPtr si_;
    std::vector<PlannerDataVertex> v_;
    std::vector<std::pair<unsigned, unsigned>> e_;
};
}  // namespace base
namespace geometric {
class PathGeometric {
  public:
    explicit PathGeometric(const base::SpaceInformationPtr& si) : si_(si) {}
    PathGeometric(const PathGeometric& o) : si_(o.si_) { copy(o); }
    PathGeometric& operator=(const PathGeometric& o) {
        if (&o != this) {
            clear();
            si_ = o.si_;
            copy(o);
        }
        return *this;
    }
    ~PathGeometric() { clear(); }
    std::vector<base::State*>& getStates() { return s_; }
    const std::vector<base::State*>& getStates() const { return s_; }
    base::State* getState(unsigned int i) { return s_.at(i); }
    const base::State* getState(unsigned int i) const { return s_.at(i); }
    std::size_t getStateCount() const { return s_.size(); }
    void append(const base::State* x) {
        auto* n = si_->getStateSpace()->allocState();
        si_->getStateSpace()->copyState(n, x);
        s_.push_back(n);
    }
    void clear() {
        for (auto* x : s_) si_->getStateSpace()->freeState(x);
        s_.clear();
    }
    // states are inserted (here: repetitions of the state before) until there are n
    void interpolate(unsigned int n) {
        if (s_.size() < 2 || n <= s_.size()) return;
        std::vector<base::State*> old;
        old.swap(s_);
        const std::size_t extra = n - old.size(), gaps = old.size() - 1;
        for (std::size_t i = 0; i < old.size(); ++i) {
            s_.push_back(old[i]);
            if (i < gaps)
                for (std::size_t k = 0; k < extra / gaps + (i < extra % gaps ? 1 : 0); ++k) append(old[i]);
        }
    }
    void interpolate() { interpolate(2 * (unsigned int)s_.size()); }

  private:
    void copy(const PathGeometric& o) {
        for (auto* x : o.s_) append(x);
    }
    base::SpaceInformationPtr si_;
    std::vector<base::State*> s_;
};
#define HV_PLANNER(C) \
    class C : public base::Planner { \
      public: \
        explicit C(const base::SpaceInformationPtr& si) : Planner(si, #C) {} \
    };
HV_PLANNER(PRM)
HV_PLANNER(LazyPRM)
HV_PLANNER(RRT)
HV_PLANNER(RRTConnect)
HV_PLANNER(EST)
HV_PLANNER(SBL)
HV_PLANNER(KPIECE1)
#undef HV_PLANNER
class SimpleSetup;
typedef std::shared_ptr<SimpleSetup> SimpleSetupPtr;
}  // namespace geometric
namespace stub {
// oracles: solving (may set the path of the setup, its time and the roadmap), simplification of the path
inline std::function<base::PlannerStatus(geometric::SimpleSetup&, const double&)>& solve() {
    static std::function<base::PlannerStatus(geometric::SimpleSetup&, const double&)> f;
    return f;
}
inline std::function<void(geometric::SimpleSetup&)>& simplify() {
    static std::function<void(geometric::SimpleSetup&)> f;
    return f;
}
}  // namespace stub
namespace geometric {
class SimpleSetup {
  public:
    explicit SimpleSetup(const base::StateSpacePtr& s) : si_(std::make_shared<base::SpaceInformation>(s)), start_(s), goal_(s), data_(si_) {}
    explicit SimpleSetup(const base::SpaceInformationPtr& si) : si_(si), start_(si->getStateSpace()), goal_(si->getStateSpace()), data_(si) {}
    const base::SpaceInformationPtr& getSpaceInformation() const { return si_; }
    const base::StateSpacePtr& getStateSpace() const { return si_->getStateSpace(); }
    void setStateValidityChecker(const base::StateValidityCheckerFn& f) { si_->setStateValidityChecker(f); }
    void setPlanner(const base::PlannerPtr& p) { planner_ = p; }
    const base::PlannerPtr& getPlanner() const { return planner_; }
    void setup() {
        si_->setup();
        ready_ = true;
    }
    template <class T> void setStartState(const base::ScopedState<T>& s) { start_ = s, given_ = true; }
    template <class T> void setGoalState(const base::ScopedState<T>& s) { goal_ = s, given_ = true; }
    template <class A, class B> void setStartAndGoalStates(const base::ScopedState<A>& s, const base::ScopedState<B>& g) {
        start_ = s, goal_ = g, given_ = true;
    }
    base::PlannerStatus solve(double t = double(1)) {
        status_ = stub::solve()(*this, t);
        return status_;
    }
    base::PlannerStatus getLastPlannerStatus() const { return status_; }
    double getLastPlanComputationTime() const { return time_; }
    bool haveSolutionPath() const { return (bool)path_; }
    bool haveExactSolutionPath() const { return path_ && status_ == base::PlannerStatus::EXACT_SOLUTION; }
    PathGeometric& getSolutionPath() const {
        if (!path_) throw Exception("No solution path");
        return *path_;
    }
    void simplifySolution(double = double(0)) {
        if (path_ && stub::simplify()) stub::simplify()(*this);
    }
    void clear() { path_.reset(); }
    void getPlannerData(base::PlannerData& d) const { d = data_; }

    base::SpaceInformationPtr si_;
    base::PlannerPtr planner_;
    base::ScopedState<base::StateSpace> start_, goal_;
    bool given_ = false, ready_ = false;
    base::PlannerStatus status_;
    double time_ = double(0);
    std::shared_ptr<PathGeometric> path_;
    base::PlannerData data_;
};
}  // namespace geometric
}  // namespace ompl
