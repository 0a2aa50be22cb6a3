PROPERTY = "C21"
EDITS = [("planner/src/algo/heuristics.cpp", "				m_explored[r][c] = false;\n", "				if (m_map->IsOccupied({ r, c }))\n					m_explored[r][c] = false;\n")]
NEEDS = "two updates of one heuristic, for different goals or obstacles"
BREAKS = "cells explored for an earlier goal are not searched again: they keep no route, and their value is infinite"
DEMO = r'''
#include "core/base.h"
#include "algo/heuristics.h"
#include "state_validator/occupancy_map.h"
#include <cmath>
using namespace Planner;
struct M : OccupancyMap {
	std::vector<std::vector<int>> g;
	M() : OccupancyMap(1.0f) { }
	bool IsOccupied(const GridCellPosition& c) override { return g[c.row][c.col]; }
};
struct OH : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	using ObstaclesHeuristic::SetGoal;
};
int main()
{
	auto m = makeRef<M>();
	m->InitializeSize(4, 4);
	m->g.assign(4, std::vector<int>(4, 0));
	OH h(m, 1, 1);
	Pose2d g1(m->GridCellToWorldPosition(0, 0) + Point2d(.5, .5), 0), g2(m->GridCellToWorldPosition(3, 3) + Point2d(.5, .5), 0);
	h.Update(g1);
	h.SetGoal(g1);
	h.Update(g2);
	h.SetGoal(g2);
	double v = h.GetHeuristicValue(g1);
	return std::abs(v - 3 * std::sqrt(2.0)) < 1e-3 ? 0 : 1;
}
'''
