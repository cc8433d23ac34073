// HV-ORACLE: what the planning library is handed (space bounds, start, goal, validity function, algorithm, sampler) and what it answers (path, time, status, roadmap) against what was asked of the wrapper and what it reports
// HV-BOUND: plane, space and articulated (2 joints): every start and goal inside the bounds (headings beyond pi and quaternions of any length included), every bound, path states with arbitrary coordinates (2 to 3 states), arbitrary planning and allowed times and status, a roadmap of up to 3 vertices and 3 edges, all 7 algorithms and 5 samplers; a second planning run on the same object
// HV-OUTSIDE: the planning library itself; longer paths and larger roadmaps
#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"
#include "rot.hpp"
using namespace hrm;
namespace oi = planners::ompl_interface;
namespace ob = ompl::base;
namespace og = ompl::geometric;
typedef std::vector<double> V;
static std::unique_ptr<oi::OMPL2D> plane(const V& lo, const V& hi) {
    MultiBodyTree2D r(SuperEllipse({double(1), double(0.5)}, 1, {double(0), double(0)}, double(0), 5));
    return std::make_unique<oi::OMPL2D>(lo, hi, r, std::vector<SuperEllipse>{}, std::vector<SuperEllipse>{});
}
static MultiBodyTree3D robot() { return MultiBodyTree3D(SuperQuadrics({double(1), double(0.5), double(0.25)}, {1, 1}, {double(0), double(0), double(0)}, Eigen::Quaterniond(1, 0, 0, 0), 4)); }
static std::unique_ptr<oi::OMPL3D> space(const V& lo, const V& hi) {
    return std::make_unique<oi::OMPL3D>(lo, hi, robot(), std::vector<SuperQuadrics>{}, std::vector<SuperQuadrics>{}, std::vector<Mesh>{});
}
static std::unique_ptr<oi::OMPL3DArticulated> joints(const V& lo, const V& hi) {
    KDL::stub::numJoints() = 2;
    return std::make_unique<oi::OMPL3DArticulated>(lo, hi, robot(), "robot.urdf", std::vector<SuperQuadrics>{}, std::vector<SuperQuadrics>{}, std::vector<Mesh>{});
}
// coordinates of a state of one of the three spaces, in the order of the library's own components: positions, rotation, joints
static V flat(const ob::StateSpacePtr& s, const ob::State* x) {
    V v;
    if (s->isCompound()) {
        auto* c = static_cast<const ob::CompoundStateSpace*>(s.get());
        for (unsigned i = 0; i < c->getSubspaceCount(); ++i)
            for (auto& e : flat(c->getSubspace(i), static_cast<const ob::CompoundState*>(x)->components[i])) v.push_back(e);
    } else if (auto* r = dynamic_cast<const ob::RealVectorStateSpace*>(s.get())) {
        for (unsigned i = 0; i < r->getDimension(); ++i) v.push_back(static_cast<const ob::RealVectorStateSpace::StateType*>(x)->values[i]);
    } else if (dynamic_cast<const ob::SO2StateSpace*>(s.get())) {
        v.push_back(static_cast<const ob::SO2StateSpace::StateType*>(x)->value);
    } else {
        auto* q = static_cast<const ob::SO3StateSpace::StateType*>(x);
        v.push_back(q->w), v.push_back(q->x), v.push_back(q->y), v.push_back(q->z);
    }
    return v;
}
static size_t put(const ob::StateSpacePtr& s, ob::State* x, const V& v, size_t at = 0) {
    if (s->isCompound()) {
        auto* c = static_cast<const ob::CompoundStateSpace*>(s.get());
        for (unsigned i = 0; i < c->getSubspaceCount(); ++i) at = put(c->getSubspace(i), static_cast<ob::CompoundState*>(x)->components[i], v, at);
    } else if (auto* r = dynamic_cast<const ob::RealVectorStateSpace*>(s.get())) {
        for (unsigned i = 0; i < r->getDimension(); ++i) static_cast<ob::RealVectorStateSpace::StateType*>(x)->values[i] = v.at(at++);
    } else if (dynamic_cast<const ob::SO2StateSpace*>(s.get())) {
        static_cast<ob::SO2StateSpace::StateType*>(x)->value = v.at(at++);
    } else {
        auto* q = static_cast<ob::SO3StateSpace::StateType*>(x);
        q->w = v.at(at++), q->x = v.at(at++), q->y = v.at(at++), q->z = v.at(at++);
    }
    return at;
}
static void same(const std::string& label, const V& a, const V& b) {
    hv::F f(a.size() == b.size());
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) f = f && hv::near(a[i], b[i], 1e-9);
    hv::check(label, f);
}
static std::vector<std::pair<V, V>> posed;  // start and goal of every request
static std::vector<double> allowed;
static std::vector<V> given(const og::SimpleSetup& s) { return {flat(s.getStateSpace(), s.start_.get()), flat(s.getStateSpace(), s.goal_.get())}; }
static std::function<ob::PlannerStatus(og::SimpleSetup&, const double&)> none() {
    return [](og::SimpleSetup& s, const double& t) {
        const auto g = given(s);
        posed.push_back({g[0], g[1]});
        allowed.push_back(t);
        s.time_ = t;
        return ob::PlannerStatus(ob::PlannerStatus::TIMEOUT);
    };
}
template <class P>
static void ask(P& p, const V& a, const V& b, const V& wa, const V& wb) {
    posed.clear(), allowed.clear();
    ompl::stub::solve() = none();
    const double limit = hv::real("limit", 0, 100);
    hv::guarded("planning", [&] {
        p.setup(3, 0);
        p.plan(a, b, limit);
    });
    if (posed.size() != 1) {
        hv::fail("the problem is posed once");
        return;
    }
    same("the planner starts at the start asked for", posed[0].first, wa);
    same("the planner aims at the goal asked for", posed[0].second, wb);
    hv::check("the planner may use the time allowed", hv::eq(allowed[0], limit));
    hv::check("not solved without a solution", hv::F(!p.isSolved() && p.getSolutionPath().empty() && p.getInterpolatedSolutionPath().empty()));
    hv::reach("posed");
}
HV_CASE_N(problemPlane, 2) {
    const V lo{double(-50), double(-20)}, hi{double(50), double(30)};
    auto p = plane(lo, hi);
    // headings beyond half a turn are the same as those within it
    const double th = shard ? hv::real("th", 3.15, 9.4) : hv::real("th", -3.14, 3.14), two = double(2) * M_PI;
    const V a{hv::real("x", -50, 50), hv::real("y", -20, 30), th}, b{hv::real("gx", -50, 50), double(3), shard ? double(-4) : double(2)};
    ask(*p, a, b, {a[0], a[1], shard ? th - two : th}, {b[0], b[1], shard ? b[2] + two : b[2]});
}
HV_CASE_N(problemSpace, 3) {
    const V lo{double(-50), double(-20), double(-5)}, hi{double(50), double(30), double(60)};
    auto p = space(lo, hi);
    double q[4];
    turn(hv::angle("half"), shard, q);
    const double k = shard == 1 ? double(2) : double(1);  // any length
    const V a{hv::real("x", -50, 50), hv::real("y", -20, 30), hv::real("z", -5, 60), q[0] * k, q[1] * k, q[2] * k, q[3] * k};
    const V b{double(1), hv::real("gy", -20, 30), double(3), double(0.5), double(-0.5), double(0.5), double(-0.5)};
    ask(*p, a, b, {a[0], a[1], a[2], q[0], q[1], q[2], q[3]}, b);
}
HV_CASE_N(problemJoints, 2) {
    const V lo{double(-50), double(-20), double(-5)}, hi{double(50), double(30), double(60)};
    auto p = joints(lo, hi);
    double q[4];
    turn(hv::angle("half"), shard, q);
    const V a{hv::real("x", -50, 50), double(2), double(3), q[0], q[1], q[2], q[3], hv::real("j0", -1.57, 1.57), double(0.5)};
    const V b{double(1), double(2), hv::real("gz", -5, 60), double(0.5), double(-0.5), double(0.5), double(-0.5), double(-1), hv::real("gj", -1.57, 1.57)};
    ask(*p, a, b, a, b);
}
// ------------------------------------------------------------------------------------ result
struct Run {
    bool answer = false;  // the library reports success
    double time = double(0);
    std::vector<V> path;  // after simplification
    std::vector<V> vertex;
    std::vector<std::pair<unsigned, unsigned>> edge;
    unsigned valid = 0, invalid = 0;
    double fraction = double(0);
};
static void expect(const Run& r, const double& limit, bool solved, const std::vector<V>& path, const std::vector<V>& inter, size_t wanted) {
    const bool in = hv::decide(r.time < limit);
    hv::check("solved exactly when the library found a path in time", hv::F(solved == (r.answer && in)));
    if (!solved) {
        hv::check("no path is reported when there is none", hv::F(path.empty() && inter.empty()));
        return;
    }
    hv::check("the path of the library is reported", hv::F(path.size() == r.path.size()));
    for (size_t i = 0; i < path.size() && i < r.path.size(); ++i) same("the path of the library is reported", path[i], r.path[i]);
    hv::check("the interpolated path has its number of states", hv::F(inter.size() == wanted));
    size_t k = 0;
    for (auto& v : inter) {  // passes through the states of the path in order
        if (k >= r.path.size()) break;
        hv::F f(v.size() == r.path[k].size());
        for (size_t i = 0; i < v.size() && i < r.path[k].size(); ++i) f = f && hv::near(v[i], r.path[k][i], 1e-9);
        if (hv::decide(f)) ++k;
    }
    hv::check("the interpolated path passes through the path", hv::F(k == r.path.size()));
    if (!inter.empty()) {
        same("the interpolated path begins with the path", inter.front(), r.path.front());
        same("the interpolated path ends with the path", inter.back(), r.path.back());
    }
}
template <class P>
static void results(P& p, const std::vector<Run>& runs, const V& pose, size_t wanted) {
    size_t at = 0;
    std::vector<std::vector<ob::State*>> keep(runs.size());
    ompl::stub::solve() = [&](og::SimpleSetup& s, const double&) {
        const Run& r = runs.at(at);
        s.time_ = r.time;
        s.getSpaceInformation()->probability_ = r.fraction;
        s.path_.reset();
        s.data_.v_.clear(), s.data_.e_ = r.edge;
        for (auto& v : r.vertex) {
            auto* x = s.getStateSpace()->allocState();
            put(s.getStateSpace(), x, v);
            keep[at].push_back(x);
            s.data_.v_.emplace_back(x);
        }
        s.getSpaceInformation()->getMotionValidator()->valid_ = r.valid;
        s.getSpaceInformation()->getMotionValidator()->invalid_ = r.invalid;
        if (!r.answer) return ob::PlannerStatus(ob::PlannerStatus::TIMEOUT);
        // the raw path has a detour that simplification removes
        s.path_ = std::make_shared<og::PathGeometric>(s.getSpaceInformation());
        auto* x = s.getStateSpace()->allocState();
        for (size_t i = 0; i < r.path.size(); ++i) {
            put(s.getStateSpace(), x, r.path[i]);
            s.path_->append(x);
            if (!i) {
                V d = r.path[i];
                d[0] = d[0] + double(100);
                put(s.getStateSpace(), x, d);
                s.path_->append(x);
            }
        }
        s.getStateSpace()->freeState(x);
        return ob::PlannerStatus(ob::PlannerStatus::EXACT_SOLUTION);
    };
    ompl::stub::simplify() = [&](og::SimpleSetup& s) {
        auto& st = s.path_->getStates();
        if (st.size() == runs.at(at).path.size() + 1) {
            s.getStateSpace()->freeState(st[1]);
            st.erase(st.begin() + 1);
        }
    };
    hv::guarded("setup", [&] { p.setup(3, 0); });
    for (; at < runs.size(); ++at) {
        const Run& r = runs[at];
        const double limit = hv::real("limit" + std::to_string(at), 0, 100);
        hv::guarded("planning", [&] { p.plan(pose, pose, limit); });
        expect(r, limit, p.isSolved(), p.getSolutionPath(), p.getInterpolatedSolutionPath(), wanted);
        hv::check("the length is that of the reported path", hv::F(p.getPathLength() == p.getSolutionPath().size()));
        hv::check("the valid fraction is that of the library", hv::eq(p.getValidStatePercent(), r.fraction));
        hv::check("the planning time is that of the library", hv::eq(p.getPlanningTime(), r.time));
        hv::check("the roadmap has the library's size", hv::F(p.getNumVertex() == r.vertex.size() && p.getNumEdges() == r.edge.size()));
        hv::check("the vertices are those of the library", hv::F(p.getVertices().size() == r.vertex.size()));
        for (size_t i = 0; i < r.vertex.size() && i < p.getVertices().size(); ++i) same("the vertices are those of the library", p.getVertices()[i], r.vertex[i]);
        std::multiset<std::pair<size_t, size_t>> got, want;
        for (auto& e : p.getEdges()) got.insert({e.first, e.second});
        for (auto& e : r.edge) want.insert({e.first, e.second});
        hv::check("the edges are those of the library", hv::F(got == want));
        hv::check("checked motions are counted", hv::F(p.getNumCollisionChecks() == r.valid + r.invalid && p.getNumValidStates() == r.valid));
    }
    hv::reach("reported");
    for (auto& k : keep)
        for (auto* x : k) p.ss_->getStateSpace()->freeState(x);
}
// first run solved (arbitrary numbers), second run not or with another path
static std::vector<Run> history(const V& base, int shard) {
    std::vector<Run> h(2);
    auto with = [&](int i, const double& d) {
        V v = base;
        v.at(i) = d;
        return v;
    };
    h[0].answer = shard != 1, h[0].time = hv::real("t0", 0, 100), h[0].valid = 5, h[0].invalid = 2, h[0].fraction = double(0.5);
    h[0].path = {base, with(0, hv::real("p0", -9, 9)), with(1, hv::real("p1", -9, 9))};
    h[0].vertex = {with(0, hv::real("v0", -9, 9)), base, with(int(base.size()) - 1, hv::real("v1", -1, 1))};
    h[0].edge = {{0, 1}, {0, 2}, {2, 1}};
    h[1].answer = shard != 0, h[1].time = hv::real("t1", 0, 100), h[1].valid = 1, h[1].invalid = 4, h[1].fraction = hv::real("fraction", 0, 1);
    h[1].path = {with(1, hv::real("r0", -9, 9)), base};
    h[1].vertex = {with(1, double(4)), base};
    h[1].edge = {{1, 0}};
    return h;
}
HV_CASE_N(resultPlane, 3) {
    const V lo{double(-50), double(-20)}, hi{double(50), double(30)}, pose{double(1), double(2), double(0.5)};
    auto p = plane(lo, hi);
    results(*p, history(pose, shard), pose, 200);
}
HV_CASE_N(resultSpace, 3) {
    const V lo{double(-50), double(-20), double(-5)}, hi{double(50), double(30), double(60)}, pose{double(1), double(2), double(3), double(0.5), double(-0.5), double(0.5), double(-0.5)};
    auto p = space(lo, hi);
    results(*p, history(pose, shard), pose, 50);
}
HV_CASE_N(resultJoints, 3) {
    const V lo{double(-50), double(-20), double(-5)}, hi{double(50), double(30), double(60)}, pose{double(1), double(2), double(3), double(0.5), double(-0.5), double(0.5), double(-0.5), double(0.25), double(-0.75)};
    auto p = joints(lo, hi);
    results(*p, history(pose, shard), pose, 50);
}
// ------------------------------------------------------------------------------------ settings
template <class P>
static void settings(P& p, const V& lo, const V& hi, int shard) {
    const char* algorithm[7] = {"PRM", "LazyPRM", "RRT", "RRTConnect", "EST", "SBL", "KPIECE1"};
    const char* sampler[5] = {"uniform", "gaussian", "obstacle_based", "max_clearance", "bridge_test"};
    for (int k = 0; k < 7; ++k) {
        const int j = (k + shard) % 5;
        std::string a, s;
        hv::guarded("setup", [&] {
            p.setup(k, j);
            a = p.ss_->getPlanner() ? p.ss_->getPlanner()->getName() : "";
            s = p.ss_->getSpaceInformation()->allocValidStateSampler()->getName();
        });
        hv::check("the algorithm asked for is used", hv::F(a == algorithm[k]));
        hv::check("the sampler asked for is used", hv::F(s == sampler[j]));
        hv::check("the planner belongs to the problem", hv::F(p.ss_->getPlanner()->getSpaceInformation() == p.ss_->getSpaceInformation()));
        hv::check("the setup is complete", hv::F(p.ss_->ready_));
        hv::check("motions are checked in steps of at most a hundredth", hv::lt(0.0, p.ss_->getSpaceInformation()->getStateValidityCheckingResolution()) && hv::le(p.ss_->getSpaceInformation()->getStateValidityCheckingResolution(), double(0.01) + double(1e-9)));
    }
    // the bounds of the positions
    auto* c = p.ss_->getStateSpace()->template as<ob::CompoundStateSpace>();
    const ob::StateSpace* first = c->getSubspace(0).get();
    if (first->isCompound()) first = static_cast<const ob::CompoundStateSpace*>(first)->getSubspace(0).get();
    auto* r = dynamic_cast<const ob::RealVectorStateSpace*>(first);
    if (!r || r->getDimension() != lo.size()) {
        hv::fail("positions have their own bounds");
        return;
    }
    for (size_t i = 0; i < lo.size(); ++i)
        hv::check("positions are sampled within the bounds asked for", hv::eq(r->getBounds().low[i], lo[i]) && hv::eq(r->getBounds().high[i], hi[i]));
    hv::reach("set");
}
HV_CASE(settingsPlane) {
    const V lo{hv::real("lx", -50, 0), hv::real("ly", -50, 0)}, hi{hv::real("hx", 1, 50), hv::real("hy", 1, 50)};
    auto p = plane(lo, hi);
    settings(*p, lo, hi, 0);
}
HV_CASE(settingsSpace) {
    const V lo{hv::real("lx", -50, 0), hv::real("ly", -50, 0), hv::real("lz", -50, 0)}, hi{hv::real("hx", 1, 50), hv::real("hy", 1, 50), hv::real("hz", 1, 50)};
    auto p = space(lo, hi);
    settings(*p, lo, hi, 1);
}
HV_CASE(settingsJoints) {
    const V lo{hv::real("lx", -50, 0), hv::real("ly", -50, 0), hv::real("lz", -50, 0)}, hi{hv::real("hx", 1, 50), hv::real("hy", 1, 50), hv::real("hz", 1, 50)};
    auto p = joints(lo, hi);
    settings(*p, lo, hi, 2);
    auto* r = p->ss_->getStateSpace()->as<ob::CompoundStateSpace>()->getSubspace(1)->as<ob::RealVectorStateSpace>();
    for (int i = 0; i < 2; ++i)
        hv::check("joints may turn half a turn", hv::near(r->getBounds().low[i], -M_PI / double(2), 1e-6) && hv::near(r->getBounds().high[i], M_PI / double(2), 1e-6));
}
