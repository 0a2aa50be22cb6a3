PROPERTY = "C05"
EDITS = [("planner/src/algo/a_star_n2.cpp", "m_map->IsOccupied({ n.row, cell.col }) && m_map->IsOccupied({ cell.row, n.col })",
          "m_map->IsOccupied({ n.row, cell.col }) && m_map->IsOccupied({ n.row, n.col })")]
NEEDS = "a diagonal move between two cells that are both occupied"
BREAKS = "the grid search may squeeze diagonally between two occupied cells"
DEMO = r'''
#include "core/base.h"
#include "algo/a_star_n2.h"
#include "state_validator/occupancy_map.h"
#include <cstdio>
using namespace Planner;
struct M : OccupancyMap {
	M() : OccupancyMap(1.0f) { InitializeSize(3, 3); }
	bool IsOccupied(const GridCellPosition& p) override { return (p.row == 0 && p.col == 1) || (p.row == 1 && p.col == 0); }
};
int main()
{
	Ref<OccupancyMap> m = makeRef<M>();
	AStarStatePropagatorFcnN2 prop(m, [](const GridCellPosition&, const GridCellPosition&) { return 1.0; });
	auto l = prop.GetNeighborStates(GridCellPosition(0, 0));
	printf("%zu moves out of an enclosed corner\n", l.size());
	return l.empty() ? 0 : 1;
}
'''
