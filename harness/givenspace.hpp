#pragma once
#include "hrm/datastructure/FreeSpace.h"
#include "hrm/datastructure/FreeSpace2D.h"
#include "intervals.hpp"
using namespace hrm;
// A user-defined free space: the intersections are given, the segments come from the library.
struct Given : FreeSpaceComputator<MultiBodyTree2D, SuperEllipse> {
    using FreeSpaceComputator<MultiBodyTree2D, SuperEllipse>::FreeSpaceComputator;
    std::vector<std::vector<Interval>> arenas, obstacles;
    void computeIntersectionInterval(const std::vector<std::vector<Coordinate>>& tLine) override {
        for (size_t i = 0; i < tLine.at(0).size(); ++i) {
            for (size_t j = 0; j < arenas[i].size(); ++j) {
                intersect_.arenaLow.at(i).at(j) = arenas[i][j].s();
                intersect_.arenaUpp.at(i).at(j) = arenas[i][j].e();
            }
            for (size_t j = 0; j < obstacles[i].size(); ++j) {
                intersect_.obstacleLow.at(i).at(j) = obstacles[i][j].s();
                intersect_.obstacleUpp.at(i).at(j) = obstacles[i][j].e();
            }
        }
    }
};
inline MultiBodyTree2D oneBody2D() { return MultiBodyTree2D(SuperEllipse({1.0, 0.5}, 1, {0.0, 0.0}, 0.0, 4)); }
