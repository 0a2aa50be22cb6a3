PROPERTY = "C04"
EDITS = [("planner/src/algo/a_star.h", """			while (!m_frontier.Empty()) {
				auto node = m_frontier.Pop();
				if (IsSolution(node)) {
					m_solutionNode = node;
					return Status::Success;
				}
				Expand(node);
			}
""", """			while (!m_frontier.Empty()) {
				auto node = m_frontier.Pop();
				if (IsSolution(node)) {
					m_solutionNode = node;
					return Status::Success;
				}
				Expand(node);
				// Stop early when a successor is a solution
				for (auto& open : m_frontier) {
					if (IsSolution(open) && open->GetParent() == node) {
						m_solutionNode = open;
						return Status::Success;
					}
				}
			}
""")]
NEEDS = "a goal that is first reached over a dear transition while a cheaper detour is still open"
BREAKS = "the search stops when the goal is first seen, not when it is the cheapest open state"
DEMO = r'''
#include "core/base.h"
#include "algo/a_star.h"
using namespace Planner;
struct P : AStarStatePropagator<int, int> {
	std::vector<std::tuple<int, int, double>> GetNeighborStates(const int& s) override
	{
		if (s == 0) return { { 1, 0, 1.0 }, { 3, 1, 9.0 } };
		if (s == 1) return { { 2, 2, 1.0 } };
		if (s == 2) return { { 3, 3, 1.0 } };
		return {};
	}
};
struct Z : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int&) override { return 0; }
};
int main()
{
	AStar<int, int> a;
	a.Initialize(makeRef<P>(), makeRef<Z>());
	a.SetInitState(0);
	a.SetGoalState(3);
	if (a.SearchPath() != Status::Success) return 2;
	return a.GetOptimalCost() == 3 ? 0 : 1;
}
'''
