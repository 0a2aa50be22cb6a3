PROPERTY = "C06"
EDITS = [("planner/src/geometry/reeds_shepp.cpp", "				if (length == std::numeric_limits<double>::infinity())\n					continue;", "				if (!(length * minTurningRadius < optimalCost))\n					continue;")]
NEEDS = "a cost multiplier below 1, so that a path longer than the cheapest price so far can still be cheaper"
BREAKS = "words are pruned by comparing their length with a price: the optimal path is not the cheapest word"
DEMO = r'''
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include <cstdio>
#include <cmath>
using namespace Planner;
int main()
{
	int bad = 0;
	for (int i = 0; i < 400; i++) {
		Pose2d g(-4 + 0.02 * i, 1.3, 0.7);
		auto s = ReedsShepp::Solver::GetShortestPath(Pose2d(0, 0, 0), g, 1.0);
		auto o = ReedsShepp::Solver::GetOptimalPath(Pose2d(0, 0, 0), g, 1.0, 0.3f, 0.3f, 0.5f);
		auto b = ReedsShepp::Solver::GetOptimalPath(Pose2d(0, 0, 0), g, 1.0, 3.0f, 3.0f, 5.0f);
		// the same prices up to a factor: the same cheapest path
		bad += o.ComputeCost(1.0, 0.3f, 0.3f, 0.5f) > b.ComputeCost(1.0, 0.3f, 0.3f, 0.5f) + 1e-3;
	}
	printf("%d\n", bad);
	return bad ? 1 : 0;
}
'''
