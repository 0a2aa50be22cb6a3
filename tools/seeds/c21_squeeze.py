PROPERTY = "C21"
EDITS = [("planner/src/algo/heuristics.cpp", "					if (m_map->IsOccupied({ n.row, cell.col }) && m_map->IsOccupied({ cell.row, n.col }))", "					if (m_map->IsOccupied({ n.row, cell.col }) && m_map->IsOccupied({ n.row, n.col }))")]
NEEDS = "a route that would squeeze between two diagonal obstacles"
BREAKS = "cells that can only be reached between two touching obstacles are given a finite route"
DEMO = r'''
#include "core/base.h"
#include "algo/heuristics.h"
#include "state_validator/occupancy_map.h"
#include <cmath>
using namespace Planner;
struct M : OccupancyMap {
	std::vector<std::vector<int>> g;
	M() : OccupancyMap(1.0f) { }
	bool IsOccupied(const GridCellPosition& c) override { return g[c.row][c.col]; }
};
struct OH : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	using ObstaclesHeuristic::SetGoal;
};
int main()
{
	auto m = makeRef<M>();
	m->InitializeSize(3, 3);
	m->g = { { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, 0 } };
	OH h(m, 1, 1);
	Pose2d g(m->GridCellToWorldPosition(2, 2) + Point2d(.5, .5), 0), s(m->GridCellToWorldPosition(0, 0) + Point2d(.5, .5), 0);
	OH far(m, 3, 3);
	far.Update(g);
	far.SetGoal(g);
	return std::abs(far.GetHeuristicValue(s) - 2 * std::sqrt(2.0)) < 1e-3 ? 0 : 1;
}
'''
