PROPERTY = "C04"
EDITS = [("planner/src/algo/a_star.h", "				return (*lhs)->totalCost > (*rhs)->totalCost;", "				return (*lhs)->pathCost > (*rhs)->pathCost || ((*lhs)->pathCost == (*rhs)->pathCost && (*lhs)->totalCost > (*rhs)->totalCost);"),
         ("planner/src/algo/a_star.h", "			if ((*frontierNode)->totalCost > (*child)->totalCost) {", "			if ((*frontierNode)->totalCost >= (*child)->totalCost + (*child)->pathCost) {")]
NEEDS = "a state in the frontier for which a way is found that is cheaper, but not by half"
BREAKS = "a modest improvement of an open state is ignored: the path found is not the cheapest"
DEMO = r'''
#include "core/base.h"
#include "algo/a_star.h"
using namespace Planner;
struct P : AStarStatePropagator<int, int> {
	std::vector<std::tuple<int, int, double>> GetNeighborStates(const int& s) override
	{
		if (s == 0) return { { 1, 0, 4.0 }, { 2, 1, 6.0 } };
		if (s == 1) return { { 2, 2, 1.0 } };
		if (s == 2) return { { 3, 3, 1.0 } };
		return {};
	}
};
struct Z : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int&) override { return 0; }
};
int main()
{
	AStar<int, int> a;
	a.Initialize(makeRef<P>(), makeRef<Z>());
	a.SetInitState(0);
	a.SetGoalState(3);
	if (a.SearchPath() != Status::Success) return 2;
	return a.GetOptimalCost() == 6 ? 0 : 1;
}
'''
