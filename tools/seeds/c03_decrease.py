PROPERTY = "C03"
EDITS = [("planner/src/algo/a_star.h", """				m_frontier.Remove(frontierNode);
				m_frontier.Push(child);
				node->AddChild(std::move(childScope));
""", """				// Lower the price of the node that is already in the frontier
				m_frontier.Remove(frontierNode);
				(*frontierNode)->pathCost = (*child)->pathCost;
				(*frontierNode)->totalCost = (*child)->totalCost;
				m_frontier.Push(frontierNode);
""")]
NEEDS = "a state that is in the frontier when a cheaper way to it is found"
BREAKS = "the cheaper cost is recorded but the old parent is kept: the reported cost is not that of the returned path"
DEMO = r'''
#include "core/base.h"
#include "algo/a_star.h"
using namespace Planner;
struct P : AStarStatePropagator<int, int> {
	std::vector<std::tuple<int, int, double>> GetNeighborStates(const int& s) override
	{
		if (s == 0) return { { 1, 0, 1.0 }, { 2, 1, 9.0 } };
		if (s == 1) return { { 2, 2, 1.0 } };
		if (s == 2) return { { 3, 3, 1.0 } };
		return {};
	}
};
struct Z : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int&) override { return 0; }
};
int main()
{
	AStar<int, int> a;
	a.Initialize(makeRef<P>(), makeRef<Z>());
	a.SetInitState(0);
	a.SetGoalState(3);
	if (a.SearchPath() != Status::Success) return 2;
	auto p = a.GetPath();
	double cost[4] = { 1, 9, 1, 1 }, sum = 0;
	for (int e : a.GetActions()) sum += cost[e];
	return sum == a.GetOptimalCost() && p.size() == 4 ? 0 : 1;
}
'''
