PROPERTY = "C17"
EDITS = [("planner/src/models/kinematic_bicycle_model.cpp", "		dist = dist / cosBeta;", "		if (direction != Direction::Backward)\n			dist = dist / cosBeta;")]
NEEDS = "a reference point ahead of the rear axle and a backward motion"
BREAKS = "driving a motion backwards from its end does not return to its start"
DEMO = r'''
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include <cstdio>
using namespace Planner;
int main()
{
	KinematicBicycleModel m(2.6, 1.3);
	Pose2d a(1, 2, 0.5), b = m.ConstantSteer(a, 0.4, 3.0, Direction::Forward), c = m.ConstantSteer(b, 0.4, 3.0, Direction::Backward);
	printf("%g %g %g\n", c.x(), c.y(), c.theta);
	return (c.position - a.position).norm() < 1e-6 && std::abs(c.theta - a.theta) < 1e-6 ? 0 : 1;
}
'''
