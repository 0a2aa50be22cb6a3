// Random planning problems for the vehicle planner (public interface only).
#pragma once
#include "common.h"
#include "core/base.h"
#include "algo/hybrid_a_star.h"
#include "geometry/2dplane.h"
#include "paths/path_constant_steer.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "utils/random.h"

struct World {
	Planner::Ref<Planner::StateSpaceSE2> space;
	Planner::Ref<Planner::ObstacleListOccupancyMap> map;
	Planner::Ref<Planner::StateValidatorOccupancyMap> validator;
	std::vector<Planner::Ref<Planner::Obstacle>> obstacles;
	std::string desc;
	double half;
	Planner::Point2d origin { 0, 0 };

	World(double half, int nobs, float safe, bool moved = false, double tlo = -M_PI, double thi = M_PI) :
		half(half)
	{
		using namespace Planner;
		char b[160];
		std::array<Pose2d, 2> bounds = { Pose2d(-half, -half, tlo), Pose2d(half, half, thi) };
		space = makeRef<StateSpaceSE2>(bounds);
		float res = H::Coin() ? 0.25f : H::Coin(0.7) ? 0.4f : 0.1f;
		map = makeRef<ObstacleListOccupancyMap>(res);
		validator = makeRef<StateValidatorOccupancyMap>(space, map);
		validator->minSafeRadius = safe;
		if (moved) {
			origin = Point2d(H::RandInt(-3, 3), H::RandInt(-3, 3));
			map->SetPosition(origin);
		}
		snprintf(b, sizeof b, "bounds +-%g resolution %g safe %g origin (%g,%g) obstacles", half, res, safe, origin.x(), origin.y());
		desc = b;
		for (int i = 0; i < nobs; i++) {
			auto o = makeRef<Obstacle>();
			double w = H::Rand(0.3, 1.5), h = H::Rand(0.3, 1.5), x = origin.x() + H::Rand(-half, half), y = origin.y() + H::Rand(-half, half), t = H::Rand(-3, 3);
			o->SetShape(makeRef<RectangleShape>(w, h));
			o->SetPose(Pose2d(x, y, t));
			map->AddObstacle(o);
			obstacles.push_back(o);
			snprintf(b, sizeof b, " rect(%.17g x %.17g at %.17g,%.17g,%.17g)", w, h, x, y, t);
			desc += b;
		}
		map->Update();
	}
	Planner::Pose2d FreePose()
	{
		for (int i = 0; i < 200; i++) {
			Planner::Pose2d p(origin.x() + H::Rand(-half, half), origin.y() + H::Rand(-half, half), H::Coin(0.3) ? H::RandInt(-2, 2) * M_PI / 2 : H::Rand(-M_PI, M_PI));
			if (validator->IsStateValid(p))
				return p;
		}
		return Planner::Pose2d(origin.x(), origin.y(), 0);
	}
};
inline std::string PoseText(const Planner::Pose2d& p)
{
	char b[120];
	snprintf(b, sizeof b, "(%.17g,%.17g,%.17g)", p.x(), p.y(), p.theta);
	return b;
}
