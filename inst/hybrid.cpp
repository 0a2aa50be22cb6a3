#include "core/base.h"
#include "geometry/2dplane.cpp"
#include "models/kinematic_bicycle_model.cpp"
#include "paths/path_constant_steer.cpp"
#include "paths/path_reeds_shepp.cpp"
#include "algo/hybrid_a_star.cpp"
namespace Planner {
	template struct Pose2<double>;
	template struct Pose2<int>;
}
namespace PlannerSpec {
	using namespace Planner;
	Pose2d ThereAndBack(KinematicBicycleModel& m, const Pose2d& from, double steering, double dist)
	{
		Pose2d to = m.ConstantSteer(from, steering, dist, Direction::Forward);
		return m.ConstantSteer(to, steering, dist, Direction::Backward);
	}
	Pose2d BackAndThere(KinematicBicycleModel& m, const Pose2d& from, double steering, double dist)
	{
		Pose2d to = m.ConstantSteer(from, steering, dist, Direction::Backward);
		return m.ConstantSteer(to, steering, dist, Direction::Forward);
	}
}
