#include "core/base.h"
#include "geometry/2dplane.cpp"
#include "geometry/reeds_shepp.cpp"
namespace Planner {
	template struct Pose2<double>;
	template Pose2<double> operator-(const Pose2<double>&, const Pose2<double>&);
}
