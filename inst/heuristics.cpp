#include "core/base.h"
#include "utils/grid.cpp"
#include "geometry/2dplane.cpp"
#include "state_validator/occupancy_map.cpp"
#include "algo/heuristics.cpp"
namespace Planner {
	template struct Pose2<double>;
}
