PROPERTY = "C13"
EDITS = [("planner/src/state_validator/state_validator_occupancy_map.cpp", "			lastValidLength = length;\n", ""),
 ("planner/src/state_validator/state_validator_occupancy_map.cpp", "			length += std::max(deltaLength, minPathInterpolationDistance);", "			length += std::max(deltaLength, minPathInterpolationDistance);\n			lastValidLength = std::min(length, pathLength);")]
NEEDS = "a path that is rejected in its middle or at its end, whose reported ratio is used"
BREAKS = "the reported ratio is that of the rejected state"
DEMO = r'''
#include "core/base.h"
#include "state_space/state_space_se2.h"
#include "paths/path_se2.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include <cstdio>
using namespace Planner;
int main()
{
	std::array<Pose2d, 2> bounds = { Pose2d(-5, -5, -M_PI), Pose2d(5, 5, M_PI) };
	auto space = makeRef<StateSpaceSE2>(bounds);
	auto map = makeRef<ObstacleListOccupancyMap>(0.1f);
	StateValidatorOccupancyMap v(space, map);
	v.minSafeRadius = 0.1f;
	map->Update();
	PathSE2 p(Pose2d(0, 0, 0), Pose2d(7, 0.3, 0));
	float last = -1;
	bool ok = v.IsPathValid(p, &last);
	bool good = v.IsStateValid(p.Interpolate(last));
	printf("%d %g %d\n", ok, last, good);
	return !ok && good ? 0 : 1;
}
'''
