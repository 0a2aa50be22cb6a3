#include "core/base.h"
#include "geometry/2dplane.cpp"
#include "paths/path_composite.cpp"
namespace Planner {
	template struct Pose2<double>;
	template class PathComposite<Pose2d, PathNonHolonomicSE2Base>;
}
