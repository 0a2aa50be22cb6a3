PROPERTY = "C15"
EDITS = [("planner/src/geometry/2dplane.h", "		while (t < -M_PI)\n", "		if (t < -M_PI)\n")]
NEEDS = "an angle below -3 pi"
BREAKS = "a pose built with a heading of several negative turns keeps an unnormalised heading"
DEMO = r'''
#include "core/base.h"
#include "geometry/2dplane.h"
#include <cstdio>
using namespace Planner;
int main()
{
	for (double t : { -10.0, -15.7, -25.0, 12.0 }) {
		Pose2d p(0, 0, t);
		if (p.theta < -M_PI - 1e-9 || p.theta > M_PI + 1e-9) {
			printf("heading %g for %g\n", p.theta, t);
			return 1;
		}
	}
	return 0;
}
'''
