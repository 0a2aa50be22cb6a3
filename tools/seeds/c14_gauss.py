PROPERTY = "C14"
EDITS = [("planner/src/state_space/state_space_se2.cpp", "		state.theta = std::clamp(state.theta, lb.theta, ub.theta);\n", "		if (state.theta > lb.theta)\n			state.theta = std::min(state.theta, ub.theta);\n")]
NEEDS = "a state whose heading lies below the lower bound"
BREAKS = "headings below the lower bound are left out of bounds, so Gaussian samples may leave the space"
DEMO = r'''
#include "core/base.h"
#include "state_space/state_space_se2.h"
#include <cstdio>
using namespace Planner;
int main()
{
	StateSpaceSE2 sp(Pose2d(-1, -1, -0.5), Pose2d(1, 1, 0.5));
	Pose2d p(0, 0, -1);
	sp.EnforceBounds(p);
	if (!sp.ValidateBounds(p)) {
		printf("heading %g after enforcing [-0.5, 0.5]\n", p.theta);
		return 1;
	}
	return 0;
}
'''
