import runpy, os
SETUP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c12_chamfer.py"))["SETUP"]
PROPERTY = "C12"
NEEDS = "an obstacle that appears, after an update, on a cell that was a Voronoi edge"
BREAKS = "the cell stays an edge although it is an obstacle, and its potential is zero divided by zero"
EDITS = [("planner/src/state_validator/gvd.cpp", "				if (m_voronoiMap)\n					m_voronoiMap->UnsetEdge(s);", "				if (m_voronoiMap && m_voro[s.row][s.col])\n					m_voronoiMap->UnsetEdge(s);")]
DEMO = SETUP + '''
int main()
{
	auto occ = makeRef<Grid<int>>(9, 9, -1);
	GVD::ObstacleDistanceMap m(occ, 1.0f);
	auto v = m.GetVoronoiDistanceMap();
	for (int k = 0; k < 9; k++) {
		(*occ)[k][0] = 0;
		(*occ)[k][8] = 1;
		m.SetObstacle({ k, 0 });
		m.SetObstacle({ k, 8 });
	}
	m.Update();
	v->Update();
	for (int k = 1; k < 8; k++) {
		(*occ)[4][k] = 2;
		m.SetObstacle({ 4, k });
	}
	m.Update();
	v->Update();
	for (int r = 0; r < 9; r++)
		for (int c = 0; c < 9; c++)
			if (m.GetDistanceToNearestObstacle(r, c) == 0 && v->GetDistanceToNearestVoronoiEdge(r, c) == 0)
				return 1;
	return 0;
}
'''
