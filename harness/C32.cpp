// HV-ORACLE: time stamps taken from the same arbitrary non-decreasing clock before, inside and after every building step and search; whether a roadmap is solved is an arbitrary choice per slice
// HV-BOUND: planar roadmap planner with 1 to 3 slices, refined up to 4 times (thorough: 6); Prob-HRM with up to 5 slices (thorough: 8), and 60 to 62 slices including the refinement after the 60th; every time limit, every clock, every slice at which a solution appears
// HV-OUTSIDE: what building and searching do (C18 to C25, C33); the time taken to return the path; clocks that go backwards
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/ProbHRM3D.h"
#include "hv.hpp"
using namespace hrm;
using planners::Vertex;
typedef std::vector<double> V;
struct Log {
    double build = double(0), search = double(0);  // time that certainly is building, searching
    int slices = 0, stopAt = 0, quietFor = 0;
    bool roadmap = false;  // the first roadmap is complete
    bool solvable = false;
    double limit = double(0);
    static double now() { return hv::Clock::nowSeconds(); }
};
template <class Base>
struct Timed : Base {
    using Base::Base;
    Log log;
    void sampleOrientations() override {}
    void enter() {
        if (log.roadmap) {
            hv::check("nothing more is built once solved", hv::F(!this->res_.solved));
            hv::check("nothing more is built when the time is up", hv::le(this->res_.planningTime.totalTime, log.limit));
        }
    }
    void constructOneSlice(const Index) override {
        enter();
        ++log.slices;
        const bool quiet = log.slices <= log.quietFor;
        const double t = quiet ? double(0) : Log::now();
        this->numVertex_.startId = this->res_.graphStructure.vertex.size();
        this->res_.graphStructure.vertex.push_back(V(9, double(log.slices)));
        if (log.slices == 1) this->res_.graphStructure.vertex.push_back(V(9, double(0.5)));
        if (!quiet && !log.solvable && (log.slices >= log.stopAt || hv::coin("solved"))) {
            log.solvable = true;
            this->res_.graphStructure.edge.push_back({0, 1});
            this->res_.graphStructure.weight.push_back(double(1));
        }
        if (!quiet) log.build = log.build + (Log::now() - t);
    }
    void connectMultiSlice() override { building(); }
    void connectExistSlice(const Index) override { building(); }
    void building() {
        if (log.slices <= log.quietFor) return;
        const double t = Log::now();
        log.build = log.build + (Log::now() - t);
    }
    std::vector<Vertex> getNearestNeighborsOnGraph(const V& v, const Index, const double) override {
        if (log.slices > log.quietFor) {
            const double t = Log::now();
            log.search = log.search + (Log::now() - t);
        }
        log.roadmap = true;
        return {Vertex(hv::decide(hv::near(v.at(0), 0.0, 1e-9)) ? 0 : 1)};
    }
    std::vector<V> getInterpolatedSolutionPath(const unsigned int) override { return {}; }
};
template <class P>
static void run(P& p, int& ends) {
    p.log.limit = hv::real("limit", 0, 1000);
    const double t0 = Log::now();
    hv::guarded("planning", [&] { p.plan(p.log.limit); });
    const double t1 = Log::now();
    const auto& t = p.res_.planningTime;
    hv::check("building and searching make up the total time", hv::near(t.totalTime, t.buildTime + t.searchTime, 1e-9));
    hv::check("no more time is reported than has passed", hv::le(t.totalTime, t1 - t0 + 1e-9));
    hv::check("all building is reported as such", hv::le(p.log.build, t.buildTime + 1e-9));
    hv::check("all searching is reported as such", hv::le(p.log.search, t.searchTime + 1e-9));
    hv::check("no time spent building is reported as search", hv::le(t.searchTime, t1 - t0 - p.log.build + 1e-9));
    hv::check("a solution is reported when there is one", hv::F(p.res_.solved == p.log.solvable));
    if (!p.res_.solved) hv::check("planning goes on until solved or out of time", hv::le(p.log.limit, t.totalTime));
    hv::check("a path comes with a solution only", hv::F(p.res_.solved == !p.res_.solutionPath.solvedPath.empty()));
    hv::reach(p.res_.solved ? "solved" : "out of time");
    ++ends;
}
HV_CASE_N(roadmap, 3) {
    PlanningRequest r;
    r.parameters.numSlice = 1 + shard;
    r.parameters.numLineY = 2;
    r.parameters.boundaryLimits = {-8.0, 8.0, -2.0, 2.0};
    r.start = {double(0), double(0), double(0)}, r.goal = {double(1), double(0), double(0)};
    const std::vector<SuperEllipse> body{SuperEllipse({1.0, 1.0}, 1, {0.0, 0.0}, 0.0, 4)};
    Timed<planners::HRM2D> p(MultiBodyTree2D(body[0]), body, body, r);
    p.log.stopAt = (1 + shard) * (hv::thorough() ? 7 : 5) - 1;
    int ends = 0;
    run(p, ends);
}
static void prob(int quiet, int stop) {
    PlanningRequest r;
    r.parameters.numLineX = 1, r.parameters.numLineY = 1;
    r.parameters.boundaryLimits = {0.0, 8.0, 0.0, 4.0, -3.0, 3.0};
    r.isRobotRigid = false;
    r.start = V(9, double(0)), r.goal = V(9, double(1));
    KDL::stub::numJoints() = 2;
    const Eigen::Quaterniond I(1, 0, 0, 0);
    const std::vector<SuperQuadrics> body{SuperQuadrics({double(2), double(1), double(3)}, {1, 1}, {double(0), double(0), double(0)}, I, 4)};
    Timed<planners::ProbHRM3D> p(MultiBodyTree3D(body[0]), "robot.urdf", body, body, r);
    p.log.stopAt = stop, p.log.quietFor = quiet;
    int ends = 0;
    run(p, ends);
}
HV_CASE(probSlices) { prob(0, hv::thorough() ? 8 : 5); }
HV_CASE(probRefined) { prob(58, hv::thorough() ? 125 : 63); }
