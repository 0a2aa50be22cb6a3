#include "core/base.h"
#include "geometry/2dplane.h"
#include "state_space/state_space_r2.cpp"
#include "state_space/state_space_se2.cpp"
namespace Planner {
	template class Random<double>;
	template std::vector<Point2d> StateSpace<Point2d, 2, double>::SampleUniform(unsigned int);
	template std::vector<Point2d> StateSpace<Point2d, 2, double>::SampleGaussian(const Point2d&, const Point2d&, unsigned int);
	template std::vector<Pose2d> StateSpace<Pose2d, 3, double>::SampleUniform(unsigned int);
	template std::vector<Pose2d> StateSpace<Pose2d, 3, double>::SampleGaussian(const Pose2d&, const Pose2d&, unsigned int);
}
