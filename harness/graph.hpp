#pragma once
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/planners/HighwayRoadMap.h"
using namespace hrm;
using planners::Vertex;
// A user-defined planner: slices, transitions and neighbourhoods are given, the roadmap logic is the library's.
struct Given : planners::HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
    using HighwayRoadMap<MultiBodyTree2D, SuperEllipse>::HighwayRoadMap;
    std::function<void(Index)> slice = [](Index) {}, exist = [](Index) {};
    std::function<void()> multi = [] {};
    std::function<bool(const std::vector<Coordinate>&, const std::vector<Coordinate>&)> free;
    std::function<std::vector<Vertex>(const std::vector<Coordinate>&)> nearest;
    void constructOneSlice(const Index i) override { slice(i); }
    void sampleOrientations() override {}
    void sweepLineProcess() override {}
    void generateVertices(const Coordinate, const FreeSegment2D&) override {}
    void connectMultiSlice() override { multi(); }
    void connectExistSlice(const Index i) override { exist(i); }
    void bridgeSlice() override {}
    bool isSameSliceTransitionFree(const std::vector<Coordinate>& a, const std::vector<Coordinate>& b) override { return free(a, b); }
    bool isMultiSliceTransitionFree(const std::vector<Coordinate>& a, const std::vector<Coordinate>& b) override { return free(a, b); }
    bool isPtInCFree(const Index, const std::vector<Coordinate>&) override { return true; }
    std::vector<Vertex> getNearestNeighborsOnGraph(const std::vector<Coordinate>& v, const Index, const double) override { return nearest(v); }
    void setTransform(const std::vector<Coordinate>&) override {}
    void add(int a, int b, const double& w) {
        res_.graphStructure.edge.push_back(std::make_pair(Index(a), Index(b)));
        res_.graphStructure.weight.push_back(w);
    }
    void build() { buildRoadmap(); }
    void find() { search(); }
    void refine(const double t) { refineExistRoadmap(t); }
    Graph& graph() { return res_.graphStructure; }
    PlanningResult& result() { return res_; }
    planners::VertexIdx& current() { return numVertex_; }
};
inline MultiBodyTree2D oneBody2D() { return MultiBodyTree2D(SuperEllipse({1.0, 0.5}, 1, {0.0, 0.0}, 0.0, 4)); }
