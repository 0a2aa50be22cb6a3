PROPERTY = "C12"
NEEDS = "a cell more than one step away from its nearest obstacle"
BREAKS = "distances are summed along the wave instead of measured to the obstacle"
EDITS = [("planner/src/state_validator/gvd.cpp", "						auto d = SquaredDistance(m_obstacle[s.row][s.col], n);\n						if (d < m_distance[n.row][n.col]) {\n							m_distance[n.row][n.col] = d;\n							m_obstacle[n.row][n.col]", "						auto d = m_distance[s.row][s.col] + SquaredDistance(s, n);\n						if (d < m_distance[n.row][n.col]) {\n							m_distance[n.row][n.col] = d;\n							m_obstacle[n.row][n.col]")]
SETUP = '''
#include "core/base.h"
#include "state_validator/gvd.h"
#include <cstdio>
using namespace Planner;
static double Dist(const GridCellPosition& o, int r, int c) { return std::sqrt(double((o.row - r) * (o.row - r) + (o.col - c) * (o.col - c))); }
'''
DEMO = SETUP + '''
int main()
{
	auto occ = makeRef<Grid<int>>(8, 8, -1);
	GVD::ObstacleDistanceMap m(occ, 1.0f);
	(*occ)[1][1] = 0;
	m.SetObstacle({ 1, 1 });
	m.Update();
	for (int r = 0; r < 8; r++)
		for (int c = 0; c < 8; c++)
			if (std::abs(m.GetDistanceToNearestObstacle(r, c) - Dist(m.GetNearestObstacleCell(r, c), r, c)) > 1e-4)
				return 1;
	return 0;
}
'''
