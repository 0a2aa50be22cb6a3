PROPERTY = "C16"
EDITS = [("planner/src/algo/smoother.cpp", """			if (cuspIndices.find(i + 1) != cuspIndices.end()) {
				continue;
			}
			if (cuspIndices.find(i) != cuspIndices.end()) {
				continue;
			}
""", """			// The point before the window only matters for the second difference
			if (cuspIndices.find(i) != cuspIndices.end()) {
				continue;
			}
""")]
NEEDS = "a cusp right next to the start of the path or to another cusp, and a curvature above the limit at the point after it"
BREAKS = "the curvature term of the point next to a cusp moves the cusp"
DEMO = r'''
#include "core/base.h"
#include "algo/smoother.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
using namespace Planner;
int main()
{
	std::array<Pose2d, 2> bounds = { Pose2d(-10, -10, -M_PI), Pose2d(10, 10, M_PI) };
	auto space = makeRef<StateSpaceSE2>(bounds);
	auto map = makeRef<ObstacleListOccupancyMap>(0.5f);
	auto val = makeRef<StateValidatorOccupancyMap>(space, map);
	auto o = makeRef<Obstacle>();
	o->SetShape(makeRef<RectangleShape>(1, 1));
	o->SetPose(Pose2d(8, 8, 0));
	map->AddObstacle(o);
	map->Update();
	auto gvd = makeRef<GVD>(map);
	gvd->Update();
	Smoother s;
	s.Initialize(val, gvd, 0.2f);
	std::vector<Pose2d> path = { Pose2d(0, 0, 0), Pose2d(1, 0, 0), Pose2d(1, 0.5, 0), Pose2d(0.4, 0.9, 0), Pose2d(0, 2, 0), Pose2d(1, 3, 0), Pose2d(2, 3, 0) };
	auto st = s.Smooth(path, { 1 });
	auto out = s.GetPath();
	if (out.size() != path.size()) return 2;
	return out[1].x() == path[1].x() && out[1].y() == path[1].y() && out[0].x() == 0 ? 0 : 1;
}
'''
