PROPERTY = "C09"
EDITS = [("planner/src/state_validator/obstacle_list_occupancy_map.cpp", "				return *res + 1;", "				return IDs.size();")]
NEEDS = "an obstacle that is not the first or the last is removed and another one is added"
BREAKS = "the identifier of a new obstacle is already taken by one that is in the map"
DEMO = r'''
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include <set>
#include <vector>
using namespace Planner;
int main()
{
	ObstacleListOccupancyMap m(1.0f);
	m.InitializeSize(40, 40);
	std::vector<Ref<Obstacle>> os;
	for (int i = 0; i < 5; i++) {
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<RectangleShape>(2.0, 2.0));
		o->SetPose(Pose2d(-15.3 + 6 * i, 0.3, 0));
		os.push_back(o);
		if (i < 4)
			m.AddObstacle(o);
	}
	m.RemoveObstacle(os[1]);
	m.AddObstacle(os[4]);
	std::set<int> ids;
	for (int i : { 0, 2, 3, 4 }) {
		auto c = os[i]->GetBoundaryGridCellPosition(m)[0];
		ids.insert(m.GetOccupancyValue(c));
	}
	return ids.size() == 4 ? 0 : 1;
}
'''
