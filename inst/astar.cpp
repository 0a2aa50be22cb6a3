#include "core/base.h"
#include "algo/a_star.h"
// Any states and actions (named by numbers); the propagator and the heuristic are the abstract interfaces.
template class Planner::AStar<int, int>;
template class Planner::AStarCombinedHeuristic<int>;
struct Project {
	int operator()(const int& state) const;
};
template class Planner::AStarHeuristicAdapter<int, int, Project>;
struct Estimate {
	double operator()(const int& state, const int& goal) const;
};
template class Planner::AStarConcreteHeuristicFcn<int, Estimate>;
