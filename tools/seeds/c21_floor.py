PROPERTY = "C21"
EDITS = [("planner/src/algo/a_star.h", "			double value = -std::numeric_limits<double>::infinity();\n			for (auto& h : m_heuristics) {", "			double value = std::numeric_limits<double>::min();\n			for (auto& h : m_heuristics) {")]
NEEDS = "a state for which every member returns a negative value, or zero"
BREAKS = "the combined value is larger than each of its members"
DEMO = r'''
#include "core/base.h"
#include "algo/a_star.h"
using namespace Planner;
struct H : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int& s) override { return s; }
};
int main()
{
	AStarCombinedHeuristic<int> c;
	c.Add(makeRef<H>());
	c.Add(makeRef<H>());
	return c.GetHeuristicValue(-2) == -2 && c.GetHeuristicValue(3) == 3 && c.GetHeuristicValue(0) == 0 ? 0 : 1;
}
'''
