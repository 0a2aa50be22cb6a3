import runpy, os
SETUP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c20_again.py"))["SETUP"]
PROPERTY = "C20"
NEEDS = "a smoothing run that ends in a collision"
BREAKS = "the rejected smoothed path is returned instead of the path of the graph search"
EDITS = [("planner/src/algo/hybrid_a_star.cpp", "			m_path = graphSearchPath;\n			return m_stats.graphSearchStatus;", "			m_path = m_smoother.GetPath();\n			return m_stats.graphSearchStatus;")]
DEMO = SETUP + '''
int main()
{
	auto v = Free(5, true);
	HybridAStar h;
	if (!h.Initialize(v))
		return 0;
	auto p = h.GetSmootherParameters();
	p.learningRate = 20.f;
	p.maxIterations = 5;
	h.SetSmootherParameters(p);
	h.SetInitState(Pose2d(-2.5, 0, 0));
	h.SetGoalState(Pose2d(2.5, 0.5, 0));
	bool seen = false;
	for (int k = 0; k < 10; k++) {
		if (h.SearchPath() < 0 || h.GetStats().smoothingStatus >= 0)
			continue;
		seen = true;
		auto path = h.GetPath();
		for (size_t i = 0; i + 1 < path.size(); i++)
			if ((path[i].position - path[i + 1].position).norm() > 2 * h.pathInterpolation + 1e-3)
				return 1;
		for (auto& q : path)
			if (!v->IsStateValid(q))
				return 1;
	}
	printf("%d\\n", seen);
	return 0;
}
'''
