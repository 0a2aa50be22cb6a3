#include "core/base.h"
#include "geometry/2dplane.h"
#include "state_space/state_space_se2.cpp"
#include "state_validator/occupancy_map.cpp"
#include "state_validator/state_validator_occupancy_map.cpp"
#include "state_validator/state_validator_free.h"
namespace Planner {
	template struct Pose2<double>;
	template class StateValidatorFree<Pose2d, 3, double>;
	template class StateValidator<Pose2d, 3, double>;
}
