PROPERTY = "C10"
EDITS = [("planner/src/state_validator/obstacle.cpp", "			if (err < 0) {", "			if (err <= 0) {")]
NEEDS = "a segment spanning an odd number of cells along its longer axis with a slope that makes the error term exactly zero"
BREAKS = "the rasterised segment steps aside too early and misses its end cell"
DEMO = r'''
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/occupancy_map.h"
#include "utils/grid.h"
using namespace Planner;
struct M : OccupancyMap { using OccupancyMap::OccupancyMap; bool IsOccupied(const GridCellPosition&) override { return false; } };
int main()
{
	M m(1.0f);
	m.InitializeSize(20, 20);
	PolygonShape s(std::vector<Point2d> { { 0.5, 0.5 }, { 3.5, 1.5 } });
	std::vector<GridCellPosition> c;
	s.GetGridCellsPosition(m, Pose2d(0, 0, 0), c);
	for (auto& x : c) {
		int t = x.row - 10, k = x.col - 10;
		if (2 * std::abs(3 * k - t) > 3)
			return 1;
	}
	return 0;
}
'''
