import runpy, os
SETUP = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c20_again.py"))["SETUP"]
PROPERTY = "C20"
NEEDS = "a goal whose cell is reached by a motion before the goal pose itself"
BREAKS = "the search stops as soon as the cell of the goal is reached, and the path ends next to the goal pose"
EDITS = [("planner/src/algo/hybrid_a_star.h", "				return IdenticalPoses((*node)->state.continuousPose, this->m_goal.continuousPose);", "				return State::Equal()((*node)->state, this->m_goal);")]
DEMO = SETUP + '''
int main()
{
	HybridAStar h;
	if (!h.Initialize(Free(5)))
		return 0;
	for (int i = 0; i < 40; i++) {
		Pose2d s(-2, 0, 0), g(-1.9 + 0.1 * i, 0.35, 0.03);
		h.SetInitState(s);
		h.SetGoalState(g);
		if (h.SearchPath() < 0)
			continue;
		auto p = h.GetPath();
		if (p.empty() || (p.back().position - g.position).norm() > 2e-3)
			return 1;
	}
	return 0;
}
'''
