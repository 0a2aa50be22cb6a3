PROPERTY = "C07"
EDITS = [("planner/src/paths/path_reeds_shepp.cpp", "			if (motionLength == 0)\n				continue;\n\n			double motionRatio = (ratio * totalLength - length) / motionLength;\n			motionRatio = std::min(motionRatio, 1.0);\n\n			// clang-format off\n			switch (motion.steer) {\n				case Steer::Straight: interp", "			if (motionLength == 0)\n				break;\n\n			double motionRatio = (ratio * totalLength - length) / motionLength;\n			motionRatio = std::min(motionRatio, 1.0);\n\n			// clang-format off\n			switch (motion.steer) {\n				case Steer::Straight: interp")]
NEEDS = "a Reeds-Shepp path with an empty motion between two others"
BREAKS = "interpolation stops at an empty motion, so ratio 1 and every later ratio give the pose at that motion"
DEMO = r'''
#include "core/base.h"
#include "paths/path_reeds_shepp.h"
#include <cstdio>
using namespace Planner;
int main()
{
	ReedsShepp::PathSegment s;
	s.AddMotion(Steer::Left, Direction::Forward, 0.5);
	s.AddMotion(Steer::Straight, Direction::Forward, 0.0);
	s.AddMotion(Steer::Left, Direction::Forward, 0.5);
	PathReedsShepp p(Pose2d(0, 0, 0), s, 2.0);
	Pose2d f = p.GetFinalState();
	printf("%g\n", f.theta);
	return std::abs(f.theta - 1.0) < 1e-9 ? 0 : 1;
}
'''
