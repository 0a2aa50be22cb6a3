PROPERTY = "C17"
EDITS = [("planner/src/algo/hybrid_a_star.cpp", "			pathCost = m_param.reverseCostMultiplier * action.path->GetLength();", "			pathCost = m_param.reverseCostMultiplier * m_param.spatialResolution * 1.5;")]
NEEDS = "a path with a reverse motion of which only a part was accepted by the validator"
BREAKS = "a shortened reverse motion is charged for its full length"
DEMO = r'''
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "paths/path_constant_steer.h"
#include "state_space/state_space_se2.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "utils/random.h"
#include <cstdio>
#include <random>
using namespace Planner;
int main()
{
	Random<double>::Init();
	std::mt19937 g(3);
	std::uniform_real_distribution<double> u(-3.8, 3.8), a(-3, 3);
	int n = 0, bad = 0, cut = 0;
	for (int k = 0; k < 120 && !bad; k++) {
		std::array<Pose2d, 2> bounds = { Pose2d(-4, -4, -M_PI), Pose2d(4, 4, M_PI) };
		auto space = makeRef<StateSpaceSE2>(bounds);
		auto map = makeRef<ObstacleListOccupancyMap>(0.25f);
		auto val = makeRef<StateValidatorOccupancyMap>(space, map);
		val->minSafeRadius = 0.3f;
		for (int i = 0; i < 6; i++) {
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<RectangleShape>(1.5, 0.5));
			o->SetPose(Pose2d(u(g), u(g), a(g)));
			map->AddObstacle(o);
		}
		map->Update();
		HybridAStar h(HybridAStar::SearchParameters(2.0, 0.0, 1.0, 3.0, 0.0, 5, 1.0, 0.3));
		h.Initialize(val);
		Pose2d s(u(g), u(g), a(g)), e(u(g), u(g), a(g));
		if (!val->IsStateValid(s) || !val->IsStateValid(e))
			continue;
		h.SetInitState(s);
		h.SetGoalState(e);
		if (h.SearchPath() < 0)
			continue;
		double cost = 0;
		for (auto& p : h.GetGraphSearchPath()) {
			double from = 0;
			auto cusps = p->GetCuspPointRatios();
			cusps.insert(1.0);
			for (double c : cusps) {
				cost += (p->GetDirection((from + c) / 2) == Direction::Forward ? 3.0 : 1.0) * (c - from) * p->GetLength();
				from = c;
			}
			cut += std::dynamic_pointer_cast<PathConstantSteer>(p) && p->GetDirection(0) == Direction::Backward && p->GetLength() < 1.49;
		}
		n++;
		if (std::abs(cost - h.GetGraphSearchOptimalCost()) > 1e-3 * (1 + cost)) {
			printf("%g instead of %g\n", h.GetGraphSearchOptimalCost(), cost);
			bad = 1;
		}
	}
	printf("%d searches, %d shortened reverse motions\n", n, cut);
	return bad;
}
'''
