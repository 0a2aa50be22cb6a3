import runpy, os
SETUP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c12_chamfer.py"))["SETUP"]
PROPERTY = "C12"
NEEDS = "an obstacle removed after an update, with cells around it whose nearest obstacle it was"
BREAKS = "cells around a removed obstacle name no obstacle but keep the distance they had to it, so that nothing else can take their place"
EDITS = [("planner/src/state_validator/gvd.cpp", "						if (!IsOccupied(m_obstacle[n.row][n.col])) {\n							m_distance[n.row][n.col] = std::numeric_limits<int>::max();\n							m_obstacle[n.row][n.col] =", "						if (!IsOccupied(m_obstacle[n.row][n.col])) {\n							m_obstacle[n.row][n.col] =")]
DEMO = SETUP + '''
int main()
{
	auto occ = makeRef<Grid<int>>(8, 8, -1);
	GVD::ObstacleDistanceMap m(occ, 1.0f);
	for (int k : { 1, 6 }) {
		(*occ)[k][k] = k;
		m.SetObstacle({ k, k });
	}
	m.Update();
	(*occ)[1][1] = -1;
	m.UnsetObstacle({ 1, 1 });
	m.Update();
	for (int r = 0; r < 8; r++)
		for (int c = 0; c < 8; c++) {
			auto o = m.GetNearestObstacleCell(r, c);
			double d = m.GetDistanceToNearestObstacle(r, c);
			if (o.row < 0 ? d < 1000 : std::abs(d - Dist(o, r, c)) > 1e-4)
				return 1;
		}
	return 0;
}
'''
