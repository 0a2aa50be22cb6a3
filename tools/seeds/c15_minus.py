PROPERTY = "C15"
EDITS = [("planner/src/geometry/2dplane.h", "			lhs.theta - rhs.theta);\n\n		out.theta = out.WrapTheta();", "			lhs.theta);\n\n		out.theta -= rhs.theta;")]
NEEDS = "two poses whose headings differ by more than pi"
BREAKS = "the difference of two poses may have an unnormalised heading"
DEMO = r'''
#include "core/base.h"
#include "geometry/2dplane.h"
#include <cstdio>
using namespace Planner;
int main()
{
	Pose2d a(0, 0, 3), b(0, 0, -3);
	Pose2d d = a - b;
	if (d.theta < -M_PI || d.theta > M_PI) {
		printf("heading %g\n", d.theta);
		return 1;
	}
	return 0;
}
'''
