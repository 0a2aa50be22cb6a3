PROPERTY = "C08"
EDITS = [("planner/src/paths/path_composite.h", "m_paths.erase(std::next(it), m_paths.end());", "if (pathRatio > 0.0)\n				m_paths.erase(std::next(it), m_paths.end());")]
NEEDS = "truncating a composite path exactly at the start of a piece and then appending another one"
BREAKS = "the pieces after the cut survive a truncation that falls on a junction"
DEMO = r'''
#include "core/base.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "models/kinematic_bicycle_model.h"
#include <cstdio>
using namespace Planner;
int main()
{
	auto m = makeRef<KinematicBicycleModel>(2.6, 0.0);
	PathSE2CompositeNonHolonomic c;
	Pose2d at(0, 0, 0);
	for (int i = 0; i < 4; i++) {
		auto p = makeRef<PathConstantSteer>(m, at, 0.0, 1.0, Direction::Forward);
		c.PushBack(p);
		at = p->GetFinalState();
	}
	c.Truncate(0.5);
	auto q = makeRef<PathConstantSteer>(m, c.GetFinalState(), 0.0, 2.0, Direction::Backward);
	c.PushBack(q);
	Pose2d x = c.Interpolate(0.75);
	printf("%g %zu\n", x.x(), c.Size());
	return std::abs(x.x() - 1.0) < 1e-9 ? 0 : 1;
}
'''
