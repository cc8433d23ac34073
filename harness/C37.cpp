// HV-ORACLE: values written to the scene files by the harness; rotations by Rodrigues' formula; limits from the definition of the margins; stored files read back independently
// HV-BOUND: scenes of 1 arena, 2 obstacles, robots of up to 3 bodies, start and goal of rigid, snake and tree robots; every position, size, rotation angle (axes: arbitrary length, two directions and coordinate axes) and joint value; graphs of 3 vertices and 2 edges, paths of 2 states
// HV-OUTSIDE: decimal formatting and rounding to float (values are compared to 1e-3, quaternions to 1e-4); malformed numbers other than text
#include "hrm/config.h"
#include "hrm/test/util/DisplayPlanningData.h"
#include "hrm/test/util/ParsePlanningSettings.h"
#include "rot.hpp"
#include <fstream>
#include <iomanip>
#include <sys/stat.h>
#include <unistd.h>
using namespace hrm;
// every process works in a directory of its own below the scratch directory of the check
struct Dir {
    char old[4096];
    Dir() {
        if (!getcwd(old, sizeof old)) throw "no working directory";
        const std::string d = "files-" + std::to_string(getpid());
        for (const std::string& s : {d, d + "/resources", d + "/resources/2D", d + "/resources/3D", d + "/config", d + "/result", d + "/result/details"})
            mkdir(s.c_str(), 0755);
        if (chdir(d.c_str())) throw "no scratch directory";
    }
    ~Dir() {
        if (chdir(old)) std::abort();
    }
};
typedef std::vector<std::vector<double>> Rows;
static void put(const std::string& name, const Rows& rows, bool comment = false) {
    std::ofstream f(name);
    f << std::setprecision(17);
    if (comment) f << "# a,comment,line\n";
    for (auto& r : rows) {
        for (size_t i = 0; i < r.size(); ++i) f << (i ? "," : "") << r[i];
        f << "\n";
    }
}
static Rows get(const std::string& name) {
    Rows r;
    std::ifstream f(name);
    std::string l;
    while (std::getline(f, l)) {
        std::istringstream ss(l);
        std::string t;
        r.push_back({});
        while (std::getline(ss, t, ',')) {
            double v;
            std::istringstream(t) >> v;
            r.back().push_back(v);
        }
    }
    return r;
}
static void sameQuat(const std::string& label, const double q[4], const double axis[3], double len, double th) {
    const double c = cos(th), s = sin(th), n[3] = {axis[0] / len, axis[1] / len, axis[2] / len};
    const R3 r = rotOf(q);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            const int k = 3 - i - j;
            const double cross = i == j ? double(0) : ((j - i + 3) % 3 == 1 ? -n[k] : n[k]) * s;
            hv::check(label, hv::near(r.m[i][j], (i == j ? c : double(0)) + n[i] * n[j] * (1 - c) + cross, 1e-4));
        }
}
static void sameAt(const std::string& label, const std::vector<double>& got, const std::vector<double>& want) {
    if (got.size() != want.size()) {
        hv::fail(label);
        return;
    }
    for (size_t i = 0; i < got.size(); ++i) hv::check(label, hv::near(got[i], want[i], 1e-3));
}
static void axisOf(int kind, double a[3], double& len) {
    const double s = hv::real("axis length", 0.5, 4);
    const double dirs[4][3] = {{double(0), double(0), double(1)}, {double(1), double(2), double(2)}, {double(-2), double(3), double(6)}, {double(0), double(-1), double(0)}};
    const double l[4] = {double(1), double(3), double(7), double(1)};
    for (int i = 0; i < 3; ++i) a[i] = dirs[kind][i] * s;
    len = l[kind] * s;
}
static double quat(const SuperQuadrics& b, int i) {
    const auto q = b.getQuaternion();
    return i == 0 ? q.w() : i == 1 ? q.x() : i == 2 ? q.y() : q.z();
}
static void same3D(const std::string& label, const SuperQuadrics& b, const std::vector<double>& row, const double a[3], double len, double th) {
    sameAt(label, {b.getSemiAxis().at(0), b.getSemiAxis().at(1), b.getSemiAxis().at(2), b.getEpsilon().at(0), b.getEpsilon().at(1), b.getPosition().at(0), b.getPosition().at(1), b.getPosition().at(2)},
           std::vector<double>(row.begin(), row.begin() + 8));
    const double q[4] = {quat(b, 0), quat(b, 1), quat(b, 2), quat(b, 3)};
    sameQuat(label, q, a, len, th);
}
HV_CASE_N(scene3D, 8) {
    Dir dir;
    const int which = shard % 2;  // the arbitrary rotation is that of an obstacle or of a robot body
    double a[3], len;
    axisOf(shard / 2, a, len);
    const double th = hv::angle("angle"), x = hv::real("x", -50, 50), y = hv::real("y", -50, 50), e = hv::real("exponent", 0.1, 1.9), s = hv::real("size", 1, 20);
    const std::vector<double> arena{double(70), double(40), double(30), double(0.125), double(0.25), double(1), double(2), double(3), double(0), double(1), double(0), double(0)};
    std::vector<double> o1{s, double(2), double(3), e, double(1), x, y, double(-4), a[0], a[1], a[2], th}, o2{double(4), double(5), double(6), double(0.5), double(1.5), double(-1), double(-2), double(-3), double(1), double(0), double(0), double(0)};
    const std::vector<double> base{double(3), double(2), double(1), double(1), double(1), double(0), double(0), double(0), double(0), double(0), double(1), double(0)};
    put("resources/3D/env_T_E_3D_arena.csv", {arena}, true);
    put("resources/3D/env_T_E_3D_obstacle.csv", which ? Rows{o2, o2} : Rows{o2, o1});
    put("resources/3D/robot_R_3D.csv", which ? Rows{base, o1, o2} : Rows{base, o2, o2});
    put("resources/3D/setting_T_E_3D.csv", {{x, y, double(5), double(0), double(0), double(1), double(0)}, {double(1), double(2), double(3), double(0), double(1), double(0), double(0)}});
    PlannerSetting3D env(5);
    MultiBodyTree3D* robot = nullptr;
    hv::guarded("the scene loads", [&] {
        parsePlanningConfig("T", "E", "R", "3D");
        env.loadEnvironment("config/");
        robot = new MultiBodyTree3D(loadRobotMultiBody3D("config/", "0", 5));
    });
    if (env.getArena().size() != 1 || env.getObstacle().size() != 2 || !robot || robot->getNumLinks() != 2 || env.getEndPoints().size() != 2) {
        hv::fail("every body and both end points are loaded");
        return;
    }
    const double zero[3] = {double(0), double(0), double(1)};
    same3D("arena", env.getArena()[0], arena, zero, double(1), double(0));
    same3D("obstacle", env.getObstacle()[0], o2, zero, double(1), double(0));
    if (which)
        same3D("obstacle", env.getObstacle()[1], o2, zero, double(1), double(0));
    else
        same3D("obstacle", env.getObstacle()[1], o1, a, len, th);
    same3D("robot base", robot->getBase(), base, zero, double(1), double(0));
    if (which)
        same3D("robot link", robot->getLinks().at(0), o1, a, len, th);
    else
        same3D("robot link", robot->getLinks().at(0), o2, zero, double(1), double(0));
    same3D("robot link", robot->getLinks().at(1), o2, zero, double(1), double(0));
    for (auto* b : {&env.getArena()[0], &env.getObstacle()[1], &robot->getBase(), &robot->getLinks()[1]})
        if (b->getNum() != env.getObstacle()[0].getNum()) hv::fail("resolution of the boundaries");
    sameAt("start", env.getEndPoints()[0], {x, y, double(5), double(1), double(0), double(0), double(0)});
    hv::reach("done");
}
HV_CASE_N(endpoints3D, 12) {
    Dir dir;
    const char* type[3] = {"rabbit", "snake", "tree"};
    const int n[3] = {0, 3, 6}, t = shard % 3;
    double a[3], len;
    axisOf(shard / 3, a, len);
    const double th = hv::angle("angle"), p[3] = {hv::real("x", -50, 50), hv::real("y", -50, 50), hv::real("z", -50, 50)};
    std::vector<double> start{p[0], p[1], p[2], a[0], a[1], a[2], th}, goal{double(1), double(2), double(3), double(0), double(0), double(2), double(0)};
    for (int i = 0; i < n[t]; ++i) {
        start.push_back(hv::real("joint", -3, 3));
        goal.push_back(double(i) / 8);
    }
    put("in.csv", {start, goal}, shard == 4);
    Rows got;
    hv::guarded("end points load", [&] {
        parseStartGoalConfig(type[t], "3D", "in.csv", "out.csv");
        got = parse2DCsvFile("out.csv");
    });
    if (got.size() != 2 || got[0].size() != size_t(7 + n[t]) || got[1].size() != size_t(7 + n[t])) {
        hv::fail("pose and joints of start and goal");
        return;
    }
    const double q[4] = {got[0][3], got[0][4], got[0][5], got[0][6]};
    sameQuat("rotation of the start", q, a, len, th);
    for (int i = 0; i < 3; ++i) hv::check("position of the start", hv::near(got[0][i], p[i], 1e-3));
    for (int i = 0; i < n[t]; ++i) {
        hv::check("joints of the start", hv::near(got[0][7 + i], start[7 + i], 1e-3));
        hv::check("joints of the goal", hv::near(got[1][7 + i], goal[7 + i], 1e-3));
    }
    sameAt("pose of the goal", std::vector<double>(got[1].begin(), got[1].begin() + 7), {double(1), double(2), double(3), double(1), double(0), double(0), double(0)});
    hv::reach("done");
}
static void same2D(const std::string& label, const SuperEllipse& b, const std::vector<double>& row) {
    sameAt(label, {b.getSemiAxis().at(0), b.getSemiAxis().at(1), b.getEpsilon(), b.getPosition().at(0), b.getPosition().at(1), b.getAngle()}, row);
}
HV_CASE(scene2D) {
    Dir dir;
    std::vector<std::vector<double>> rows;
    for (int i = 0; i < 4; ++i)
        rows.push_back({hv::real("a", 1, 20), hv::real("b", 1, 20), hv::real("exponent", 0.1, 1.9), hv::real("x", -50, 50), hv::real("y", -50, 50), hv::real("angle", -3, 3)});
    const std::vector<double> start{hv::real("start x", -50, 50), hv::real("start y", -50, 50), hv::real("start angle", -3, 3)}, goal{hv::real("goal x", -50, 50), hv::real("goal y", -50, 50), hv::real("goal angle", -3, 3)};
    put("resources/2D/env_T_E_2D_arena.csv", {rows[0]});
    put("resources/2D/env_T_E_2D_obstacle.csv", {rows[1], rows[2]}, true);
    put("resources/2D/robot_R_2D.csv", {rows[3], rows[2], rows[1]});
    put("resources/2D/setting_T_E_2D.csv", {start, goal});
    PlannerSetting2D env(20);
    MultiBodyTree2D* robot = nullptr;
    hv::guarded("the scene loads", [&] {
        parsePlanningConfig("T", "E", "R", "2D");
        env.loadEnvironment("config/");
        robot = new MultiBodyTree2D(loadRobotMultiBody2D("config/", 20));
    });
    if (env.getArena().size() != 1 || env.getObstacle().size() != 2 || !robot || robot->getNumLinks() != 2 || env.getEndPoints().size() != 2) {
        hv::fail("every body and both end points are loaded");
        return;
    }
    same2D("arena", env.getArena()[0], rows[0]);
    same2D("obstacle", env.getObstacle()[0], rows[1]);
    same2D("obstacle", env.getObstacle()[1], rows[2]);
    same2D("robot base", robot->getBase(), rows[3]);
    same2D("robot link", robot->getLinks().at(0), rows[2]);
    same2D("robot link", robot->getLinks().at(1), rows[1]);
    if (env.getArena()[0].getNum() != 20 || env.getObstacle()[1].getNum() != 20 || robot->getBase().getNum() != 20) hv::fail("resolution of the boundaries");
    sameAt("start", env.getEndPoints()[0], start);
    sameAt("goal", env.getEndPoints()[1], goal);
    hv::reach("done");
}
HV_CASE(orientations) {
    Dir dir;
    Rows q;
    for (int i = 0; i < 3; ++i) q.push_back({hv::real("x", -1, 1), hv::real("y", -1, 1), hv::real("z", -1, 1), hv::real("w", -1, 1)});
    put("q.csv", q, true);
    SuperQuadrics b({double(3), double(2), double(1)}, {double(1), double(1)}, {double(0), double(0), double(0)}, Eigen::Quaterniond(1, 0, 0, 0), 5);
    std::vector<Eigen::Quaterniond> got;
    hv::guarded("orientations load", [&] {
        loadPreDefinedQuaternions("q.csv", b);
        got = b.getQuatSamples();
    });
    if (got.size() != 3) {
        hv::fail("every orientation");
        return;
    }
    for (int i = 0; i < 3; ++i) sameAt("orientation", {got[i].x(), got[i].y(), got[i].z(), got[i].w()}, q[i]);
    hv::reach("done");
}
// limits are centred in the arena and stay away from its border by a multiple of the robot's first semi-axis
HV_CASE(limits2D) {
    const double ax = hv::real("arena a", 20, 100), ay = hv::real("arena b", 20, 50), x = hv::real("x", -10, 10), y = hv::real("y", -10, 10), r = hv::real("robot", 0.5, 5);
    PlannerSetting2D env(20);
    env.setArena({SuperEllipse({ax, ay}, double(0.5), {x, y}, double(0), 20)});
    env.setObstacle({SuperEllipse({double(9), double(8)}, double(1), {x, y}, double(0), 20), SuperEllipse({double(7), double(4)}, double(1), {x, y}, double(0), 20), SuperEllipse({double(8), double(5)}, double(1), {x, y}, double(0), 20)});
    PlannerParameter p;
    const int lines = hv::choice("lines", 2) * 7;
    p.numLineY = lines;
    hv::guarded("parameters", [&] { defineParameters(MultiBodyTree2D(SuperEllipse({r, double(0.25)}, double(1), {double(0), double(0)}, double(0), 20)), env, p); });
    const double bx = ax - 1.5 * r, by = ay - 1.5 * r;
    sameAt("limits", p.boundaryLimits, {x - bx, x + bx, y - by, y + by});
    if (lines)
        hv::check("the requested number of lines is kept", p.numLineY == 7);
    else
        hv::check("lines as dense as the smallest obstacle", hv::slt(by / 4 - 1, double(p.numLineY), 1e-6) && hv::sle(double(p.numLineY), by / 4));
    hv::reach("done");
}
HV_CASE(limits3D) {
    const double ax = hv::real("arena a", 20, 100), ay = hv::real("arena b", 20, 60), az = hv::real("arena c", 20, 100), x = hv::real("x", -10, 10), y = hv::real("y", -10, 10), z = hv::real("z", -10, 10), r = hv::real("robot", 0.5, 5);
    const Eigen::Quaterniond id(1, 0, 0, 0);
    auto sq = [&](double a, double b, double c) { return SuperQuadrics({a, b, c}, {double(1), double(1)}, {x, y, z}, id, 5); };
    PlannerSetting3D env(5);
    env.setArena({sq(ax, ay, az)});
    env.setObstacle({sq(double(9), double(16), double(10)), sq(double(10), double(9), double(8)), sq(double(12), double(13), double(14))});
    PlannerParameter p;
    const int lines = hv::choice("lines", 2);
    p.numLineX = lines * 3, p.numLineY = lines * 5;
    SuperQuadrics base({r, double(0.25), double(0.5)}, {double(1), double(1)}, {double(0), double(0), double(0)}, id, 5);
    base.setQuatSamples({id, id, id, id});
    hv::guarded("parameters", [&] { defineParameters(MultiBodyTree3D(base), env, p); });
    const double bx = ax - 1.2 * r, by = ay - 1.2 * r, bz = az - 1.2 * r;
    sameAt("limits", p.boundaryLimits, {x - bx, x + bx, y - by, y + by, z - bz, z + bz});
    hv::check("one slice per orientation", p.numSlice == 4);
    if (lines)
        hv::check("the requested number of lines is kept", p.numLineX == 3 && p.numLineY == 5);
    else {
        hv::check("lines as dense as the smallest obstacle", hv::slt(bx / 8 - 1, double(p.numLineX), 1e-6) && hv::sle(double(p.numLineX), bx / 8));
        hv::check("lines as dense as the smallest obstacle", hv::slt(by / 8 - 1, double(p.numLineY), 1e-6) && hv::sle(double(p.numLineY), by / 8));
    }
    hv::reach("done");
}
HV_CASE_N(results, 2) {
    Dir dir;
    const int d = shard ? 7 : 3;
    Graph g;
    SolutionPathInfo s;
    auto state = [&](const char* n) {
        std::vector<double> v;
        for (int i = 0; i < d; ++i) v.push_back(hv::real(n, -50, 50));
        return v;
    };
    for (int i = 0; i < 3; ++i) g.vertex.push_back(state("vertex"));
    g.edge = {{0, 2}, {2, 1}};
    s.PathId = {0, 2, 1};
    s.solvedPath = {state("solved"), state("solved")};
    s.interpolatedPath = {state("interpolated"), state("interpolated"), state("interpolated")};
    hv::guarded("results are stored", [&] {
        storeGraphInfo(g, "3D");
        storePathInfo(s, "3D");
    });
    const std::string p = SOLUTION_DETAILS_PATH "/";
    const Rows v = get(p + "vertex_3D.csv"), e = get(p + "edge_3D.csv"), id = get(p + "path_id_3D.csv"), sp = get(p + "solution_path_3D.csv"), ip = get(p + "interpolated_path_3D.csv");
    auto rows = [&](const char* label, const Rows& got, const Rows& want) {
        if (got.size() != want.size()) {
            hv::fail(label);
            return;
        }
        for (size_t i = 0; i < got.size(); ++i) sameAt(label, got[i], want[i]);
    };
    rows("stored vertices", v, g.vertex);
    rows("stored edges", e, {{double(0), double(2)}, {double(2), double(1)}});
    rows("stored path indices", id, {{double(0), double(2), double(1)}});
    rows("stored path", sp, s.solvedPath);
    rows("stored interpolated path", ip, s.interpolatedPath);
    Rows back;
    hv::guarded("stored results read back", [&] { back = parse2DCsvFile(p + "vertex_3D.csv"); });
    rows("stored results read back", back, g.vertex);
    hv::reach("done");
}
HV_CASE(csv) {
    Dir dir;
    const double x = hv::real("x", -50, 50), y = hv::real("y", -50, 50), z = hv::real("z", -50, 50);
    {
        std::ofstream f("t.csv");
        f << std::setprecision(17) << "# header, 1, 2\n" << x << ", " << y << ",3\n\n#" << z << "\n" << z << "\nname," << x << "\n\n" << y << "," << z;
    }
    Rows r;
    hv::guarded("parse", [&] { r = parse2DCsvFile("t.csv"); });
    if (r.size() != 4) {
        hv::fail("one row per line that is neither blank nor a comment");
        return;
    }
    sameAt("numbers of a row", r[0], {x, y, double(3)});
    sameAt("numbers of a row", r[1], {z});
    sameAt("fields that are no numbers are left out", r[2], {x});
    sameAt("the last line needs no line end", r[3], {y, z});
    bool thrown = false;
    try {
        parse2DCsvFile("missing.csv");
    } catch (const std::exception&) {
        thrown = true;
    }
    hv::check("a missing file is reported", thrown);
    hv::reach("done");
}
