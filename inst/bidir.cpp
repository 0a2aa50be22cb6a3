#include "core/base.h"
#include "algo/bidirectional_a_star.h"
// Any states and actions (named by numbers); the propagators and the heuristics are the abstract interfaces.
template class Planner::BidirectionalAStar<int, int>;
template class Planner::AverageHeuristic<int>;
