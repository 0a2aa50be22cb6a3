PROPERTY = "C16"
EDITS = [("planner/src/algo/smoother.cpp", """		for (auto& pose : m_currentPath) {
			if (!m_validator->IsStateValid(pose)) {
				return false;
			}
		}
""", """		// The first and last poses are those of the input, only what was moved needs a check
		for (size_t i = 1; i + 1 < m_currentPath.size(); i++) {
			if (!m_validator->IsStateValid(m_currentPath[i])) {
				return false;
			}
		}
""")]
NEEDS = "an input path whose first or last pose is not valid"
BREAKS = "smoothing reports success for a path whose last pose is inside an obstacle"
DEMO = r'''
#include "core/base.h"
#include "algo/smoother.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
using namespace Planner;
int main()
{
	std::array<Pose2d, 2> bounds = { Pose2d(-10, -10, -M_PI), Pose2d(10, 10, M_PI) };
	auto space = makeRef<StateSpaceSE2>(bounds);
	auto map = makeRef<ObstacleListOccupancyMap>(0.5f);
	auto val = makeRef<StateValidatorOccupancyMap>(space, map);
	val->minSafeRadius = 0.6f;
	auto o = makeRef<Obstacle>();
	o->SetShape(makeRef<RectangleShape>(1, 1));
	o->SetPose(Pose2d(6, 0, 0));
	map->AddObstacle(o);
	map->Update();
	auto gvd = makeRef<GVD>(map);
	gvd->Update();
	Smoother s;
	s.Initialize(val, gvd, 0.2f);
	std::vector<Pose2d> path;
	for (int i = 0; i < 7; i++)
		path.push_back(Pose2d(i, 0, 0));
	path[5] = Pose2d(4.2, 0, 0);
	auto st = s.Smooth(path);
	for (auto& p : s.GetPath())
		if (!val->IsStateValid(p))
			return st == Smoother::Status::Failure ? 0 : 1;
	return 2;
}
'''
