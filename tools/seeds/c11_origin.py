PROPERTY = "C11"
EDITS = [("planner/src/state_validator/occupancy_map.h", "		return m_worldGridOrigin + GridCellToGridPosition(cell);", "		return m_localGridOrigin + GridCellToGridPosition(cell) - m_localOrigin;")]
NEEDS = "a map that is not placed at the world origin"
BREAKS = "cells are converted to world positions on the wrong side of the map's position"
DEMO = r'''
#include "core/base.h"
#include "state_validator/occupancy_map.h"
#include <cstdio>
using namespace Planner;
struct M : OccupancyMap { using OccupancyMap::OccupancyMap; bool IsOccupied(const GridCellPosition&) override { return false; } };
int main()
{
	M m(0.5f);
	m.SetPosition({ 3, -7 });
	m.InitializeSize(10, 10);
	auto p = m.GridCellToWorldPosition(4, 6);
	auto c = m.WorldPositionToGridCell(p.x() + 0.1, p.y() + 0.1);
	return c.row == 4 && c.col == 6 ? 0 : 1;
}
'''
