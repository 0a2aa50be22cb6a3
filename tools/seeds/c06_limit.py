PROPERTY = "C06"
EDITS = [("planner/src/geometry/reeds_shepp.cpp", "				if (u1 > 6)\n					return std::numeric_limits<double>::infinity();", "				if (u1 > 4)\n					return std::numeric_limits<double>::infinity();")]
NEEDS = "a request whose turn centres are between 4 and sqrt(20) radii apart and for which C|CuCu|C is the shortest word"
BREAKS = "the word is not considered, so a longer path is returned as the shortest"
DEMO = r'''
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include <cstdio>
#include <cmath>
using namespace Planner;
// length of the word L+ R- L- R+ with middle turns u, when it ends at the goal
int main()
{
	int bad = 0;
	for (int i = 1; i < 40; i++)
		for (int j = 1; j < 40; j++)
			for (int k = 1; k < 40; k++) {
				double t = i * 0.04, u = 1.2 + j * 0.0125, v = k * 0.04;
				ReedsShepp::PathSegment s;
				s.AddMotion(Steer::Left, Direction::Forward, t);
				s.AddMotion(Steer::Right, Direction::Backward, u);
				s.AddMotion(Steer::Left, Direction::Backward, u);
				s.AddMotion(Steer::Right, Direction::Forward, v);
				if (u >= M_PI_2)
					continue;
				PathReedsShepp r(Pose2d(0, 0, 0), s, 1.0);
				bad += ReedsShepp::Solver::GetShortestDistance(Pose2d(0, 0, 0), r.GetFinalState(), 1.0) > t + 2 * u + v + 1e-6;
			}
	printf("%d\n", bad);
	return bad ? 1 : 0;
}
'''
