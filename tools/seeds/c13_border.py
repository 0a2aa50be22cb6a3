PROPERTY = "C13"
EDITS = [("planner/src/state_validator/state_validator_occupancy_map.cpp", "			deltaLength = std::min(deltaLength, distToMapBorder);\n", "			if (distToMapBorder <= minSafeRadius)\n				deltaLength = std::min(deltaLength, distToMapBorder);\n")]
NEEDS = "a path that leaves the map over its upper border between two samples and comes back"
BREAKS = "a path that leaves the map is accepted"
DEMO = r'''
#include "core/base.h"
#include "state_space/state_space_se2.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include <cstdio>
using namespace Planner;
struct Arc : PathSE2Base {
	Arc() : PathSE2Base(Pose2d(-0.8, 4.8, 0), 0.8 * M_PI) { m_final = Interpolate(1); }
	Pose2d Interpolate(double r) const override { return Pose2d(-0.8 * std::cos(M_PI * r), 4.8 + 0.8 * std::sin(M_PI * r), 0); }
	void Truncate(double) override { }
};
int main()
{
	std::array<Pose2d, 2> bounds = { Pose2d(-5, -5, -M_PI), Pose2d(5, 5, M_PI) };
	auto space = makeRef<StateSpaceSE2>(bounds);
	auto map = makeRef<ObstacleListOccupancyMap>(0.1f);
	StateValidatorOccupancyMap v(space, map);
	v.minSafeRadius = 0.1f;
	map->Update();
	bool ok = v.IsPathValid(Arc());
	printf("%d\n", ok);
	return ok ? 1 : 0;
}
'''
