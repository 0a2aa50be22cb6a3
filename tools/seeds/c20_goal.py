import runpy, os
SETUP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c20_again.py"))["SETUP"]
PROPERTY = "C20"
NEEDS = "two searches on one planner whose goals are different poses in the same cell of the search"
BREAKS = "the goal of the earlier search is kept, and the path ends there instead of at the goal that was asked for"
EDITS = [("planner/src/algo/hybrid_a_star.h", "				m_goalState = CreateStateFromPose(goal);\n				return m_goalState;", "				State state = CreateStateFromPose(goal);\n				if (!State::Equal()(state, m_goalState))\n					m_goalState = state;\n				return m_goalState;")]
DEMO = SETUP + '''
int main()
{
	HybridAStar h;
	if (!h.Initialize(Free(5)))
		return 0;
	h.SetInitState(Pose2d(-2, 0, 0));
	for (Pose2d g : { Pose2d(2.2, 1.3, 0.01), Pose2d(2.6, 1.5, 0.02) }) {
		h.SetGoalState(g);
		if (h.SearchPath() < 0)
			continue;
		auto p = h.GetPath();
		if (p.empty() || (p.back().position - g.position).norm() > 2e-3)
			return 1;
	}
	return 0;
}
'''
