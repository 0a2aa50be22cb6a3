PROPERTY = "C06"
EDITS = [("planner/src/geometry/reeds_shepp.cpp", "				if (motion.direction != prevDirection)\n					motionCost += directionSwitchingCost;\n\n				prevDirection = motion.direction;", "				if (motion.length == 0)\n					continue;\n				if (motion.direction != prevDirection)\n					motionCost += directionSwitchingCost;\n\n				if (motion.direction == Direction::Backward)\n					prevDirection = motion.direction;")]
NEEDS = "a path with two changes of direction that starts forward (forward, backward, forward)"
BREAKS = "the change back to forward is charged, and every later forward motion is charged again as a change of direction"
DEMO = r'''
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include <cstdio>
#include <cmath>
using namespace Planner;
int main()
{
	ReedsShepp::PathSegment s;
	s.AddMotion(Steer::Left, Direction::Backward, 1);
	s.AddMotion(Steer::Right, Direction::Forward, 1);
	s.AddMotion(Steer::Straight, Direction::Forward, 1);
	float c = s.ComputeCost(1.0, 1.0f, 1.0f, 10.0f);
	printf("%g\n", c);
	return std::abs(c - 13) < 1e-4 ? 0 : 1;
}
'''
