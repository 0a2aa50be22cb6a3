PROPERTY = "C07"
EDITS = [("planner/src/paths/path_constant_steer.cpp", "		m_final = Interpolate(ratio);\n		m_length *= ratio;", "		m_length *= ratio;\n		m_final = Interpolate(ratio);")]
NEEDS = "truncating a constant-steering path strictly inside"
BREAKS = "the final state of a truncated path is the one at the square of the ratio"
DEMO = r'''
#include "core/base.h"
#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
#include <cstdio>
using namespace Planner;
int main()
{
	auto m = makeRef<KinematicBicycleModel>(2.6, 0.0);
	PathConstantSteer p(m, Pose2d(0, 0, 0), 0.3, 4.0, Direction::Backward);
	Pose2d at = p.Interpolate(0.5);
	p.Truncate(0.5);
	return (p.GetFinalState().position - at.position).norm() < 1e-9 ? 0 : 1;
}
'''
