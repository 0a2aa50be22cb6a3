#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/random.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
template class Planner::RRT<Planner::Point2d, 2>;
template class Planner::RRTStar<Planner::Point2d, 2>;
