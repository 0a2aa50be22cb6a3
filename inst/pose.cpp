#include "core/base.h"
#include "geometry/2dplane.cpp"
#include "utils/grid.cpp"
namespace Planner {
	template struct Pose2<double>;
	template struct Pose2<int>;
	template Pose2<double> operator+(const Pose2<double>&, const Pose2<double>&);
	template Pose2<double> operator-(const Pose2<double>&, const Pose2<double>&);
	template bool operator==(const Pose2<double>&, const Pose2<double>&);
	template bool operator!=(const Pose2<double>&, const Pose2<double>&);
}
// Specification drivers: what the property relates, computed by the real code.
namespace PlannerSpec {
	using namespace Planner;
	Pose2d RoundTrip(const Pose2d& a, const Pose2d& b) { return a + (b - a); }
	Pose2d LeftIdentity(const Pose2d& a) { return Pose2d(0.0, 0.0, 0.0) + a; }
	Pose2d RightIdentity(const Pose2d& a) { return a + Pose2d(0.0, 0.0, 0.0); }
	Pose2i MakeInt(int x, int y, int t) { return Pose2i(x, y, t); }
	Pose2i MakeIntP(const Point2i& p, int t) { return Pose2i(p, t); }
	Pose2d Make(double x, double y, double t) { return Pose2d(x, y, t); }
	Pose2d MakeP(const Point2d& p, double t) { return Pose2d(p, t); }
}
