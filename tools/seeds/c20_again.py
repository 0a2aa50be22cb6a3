PROPERTY = "C20"
NEEDS = "a planner that was initialised successfully and is then initialised again without a usable validator"
BREAKS = "Initialize reports false but leaves the planner in its earlier state, so that the next search succeeds on the old map instead of failing"
EDITS = [("planner/src/algo/hybrid_a_star.cpp", "		if (!validator || !validator->GetStateSpace())\n			return isInitialized = false;\n", "		if (!validator || !validator->GetStateSpace())\n			return false;\n")]
SETUP = '''
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "state_space/state_space_se2.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include <cstdio>
using namespace Planner;
static Ref<StateValidatorOccupancyMap> Free(double half, bool wall = false)
{
	std::array<Pose2d, 2> bounds = { Pose2d(-half, -half, -M_PI), Pose2d(half, half, M_PI) };
	auto space = makeRef<StateSpaceSE2>(bounds);
	auto map = makeRef<ObstacleListOccupancyMap>(0.1f);
	auto v = makeRef<StateValidatorOccupancyMap>(space, map);
	v->minSafeRadius = 0.3f;
	if (wall) {
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<RectangleShape>(1.0, 3.0));
		o->SetPose(Pose2d(0, 0, 0));
		map->AddObstacle(o);
	}
	map->Update();
	return v;
}
'''
DEMO = SETUP + '''
int main()
{
	HybridAStar h;
	if (!h.Initialize(Free(5)))
		return 0;
	h.SetInitState(Pose2d(-2, 0, 0));
	h.SetGoalState(Pose2d(2, 1, 0));
	h.SearchPath();
	if (h.Initialize(nullptr))
		return 1;
	return h.SearchPath() == Status::Failure && h.GetPath().empty() ? 0 : 1;
}
'''
