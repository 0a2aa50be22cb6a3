PROPERTY = "C10"
EDITS = [("planner/src/state_validator/obstacle.cpp", "c.col >= 0 && c.col < map.Columns()", "c.col >= 0 && c.col < map.Rows()")]
NEEDS = "a map that is not square, wider than it is tall, with an obstacle in its far part"
BREAKS = "cells inside the map are dropped from the outline"
DEMO = r'''
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/occupancy_map.h"
#include "utils/grid.h"
using namespace Planner;
struct M : OccupancyMap { using OccupancyMap::OccupancyMap; bool IsOccupied(const GridCellPosition&) override { return false; } };
int main()
{
	M m(1.0f);
	m.InitializeSize(10, 40);
	RectangleShape s(2, 2);
	std::vector<GridCellPosition> c;
	s.GetGridCellsPosition(m, Pose2d(0.2, 15.2, 0), c);
	return c.size() >= 8 ? 0 : 1;
}
'''
