#include "core/base.h"
#include "geometry/2dplane.cpp"
#include "geometry/reeds_shepp.cpp"
#include "models/kinematic_bicycle_model.cpp"
#include "paths/path_r2.cpp"
#include "paths/path_se2.cpp"
#include "paths/path_constant_steer.cpp"
#include "paths/path_reeds_shepp.cpp"
namespace Planner {
	template struct Pose2<double>;
	template std::vector<Point2d> Path<Point2d>::Interpolate(const std::vector<double>&) const;
	template std::vector<Pose2d> Path<Pose2d>::Interpolate(const std::vector<double>&) const;
}
namespace PlannerSpec {
	using namespace Planner;
	using Segment = ReedsShepp::PathSegment;
	using Model = Ref<KinematicBicycleModel>;

	Point2d R2At(const Point2d& a, const Point2d& b, double s) { PathR2 p(a, b); return p.Interpolate(s); }
	Point2d R2Cut(const Point2d& a, const Point2d& b, double r, double s) { PathR2 p(a, b); p.Truncate(r); return p.Interpolate(s); }
	Point2d R2Init(const Point2d& a, const Point2d& b, double r) { PathR2 p(a, b); p.Truncate(r); return p.GetInitialState(); }
	Point2d R2Final(const Point2d& a, const Point2d& b) { PathR2 p(a, b); return p.GetFinalState(); }
	Point2d R2CutFinal(const Point2d& a, const Point2d& b, double r) { PathR2 p(a, b); p.Truncate(r); return p.GetFinalState(); }
	double R2Length(const Point2d& a, const Point2d& b) { PathR2 p(a, b); return p.GetLength(); }
	double R2CutLength(const Point2d& a, const Point2d& b, double r) { PathR2 p(a, b); p.Truncate(r); return p.GetLength(); }

	Pose2d SE2At(const Pose2d& a, const Pose2d& b, double s) { PathSE2 p(a, b); return p.Interpolate(s); }
	Pose2d SE2Cut(const Pose2d& a, const Pose2d& b, double r, double s) { PathSE2 p(a, b); p.Truncate(r); return p.Interpolate(s); }
	double SE2CutTheta(const Pose2d& a, const Pose2d& b, double r, double s) { PathSE2 p(a, b), q(a, b); p.Truncate(r); return p.Interpolate(s).theta - q.Interpolate(r * s).theta; }
	Pose2d SE2Init(const Pose2d& a, const Pose2d& b, double r) { PathSE2 p(a, b); p.Truncate(r); return p.GetInitialState(); }
	Pose2d SE2Final(const Pose2d& a, const Pose2d& b) { PathSE2 p(a, b); return p.GetFinalState(); }
	bool SE2CutFinal(const Pose2d& a, const Pose2d& b, double r) { PathSE2 p(a, b), q(a, b); p.Truncate(r); return p.GetFinalState() == q.Interpolate(r); }
	double SE2Length(const Pose2d& a, const Pose2d& b) { PathSE2 p(a, b); return p.GetLength(); }
	double SE2CutLength(const Pose2d& a, const Pose2d& b, double r) { PathSE2 p(a, b); p.Truncate(r); return p.GetLength(); }

	Pose2d CSAt0(const Model& m, const Pose2d& a, double d, double l, Direction dir) { PathConstantSteer p(m, a, d, l, dir); return p.Interpolate(0.0); }
	bool CSAt1(const Model& m, const Pose2d& a, double d, double l, Direction dir) { PathConstantSteer p(m, a, d, l, dir); return p.Interpolate(1.0) == p.GetFinalState(); }
	bool CSCut(const Model& m, const Pose2d& a, double d, double l, Direction dir, double r, double s)
	{
		PathConstantSteer p(m, a, d, l, dir), q(m, a, d, l, dir);
		p.Truncate(r);
		return p.Interpolate(s) == q.Interpolate(r * s) && p.GetFinalState() == q.Interpolate(r) && p.GetInitialState() == q.GetInitialState() && p.GetDirection(s) == q.GetDirection(r * s);
	}
	double CSLength(const Model& m, const Pose2d& a, double d, double l, Direction dir) { PathConstantSteer p(m, a, d, l, dir); return p.GetLength(); }
	double CSCutLength(const Model& m, const Pose2d& a, double d, double l, Direction dir, double r) { PathConstantSteer p(m, a, d, l, dir); p.Truncate(r); return p.GetLength(); }
	Pose2d CSInit(const Model& m, const Pose2d& a, double d, double l, Direction dir) { PathConstantSteer p(m, a, d, l, dir); return p.GetInitialState(); }
	Direction CSDirection(const Model& m, const Pose2d& a, double d, double l, Direction dir, double s) { PathConstantSteer p(m, a, d, l, dir); return p.GetDirection(s); }

	Pose2d RSAt(const Pose2d& a, const Segment& g, double R, double s) { PathReedsShepp p(a, g, R); return p.Interpolate(s); }
	bool RSAt1(const Pose2d& a, const Segment& g, double R) { PathReedsShepp p(a, g, R); return p.Interpolate(1.0) == p.GetFinalState(); }
	double RSLength(const Pose2d& a, const Segment& g, double R) { PathReedsShepp p(a, g, R); return p.GetLength(); }
	double RSCutLength(const Pose2d& a, const Segment& g, double R, double r) { PathReedsShepp p(a, g, R); p.Truncate(r); return p.GetLength(); }
	bool RSCutEnds(const Pose2d& a, const Segment& g, double R, double r)
	{
		PathReedsShepp p(a, g, R), q(a, g, R);
		p.Truncate(r);
		return p.GetFinalState() == q.Interpolate(r) && p.GetInitialState() == q.GetInitialState();
	}
	Direction RSDirection(const Pose2d& a, const Segment& g, double R, double s) { PathReedsShepp p(a, g, R); return p.GetDirection(s); }
	bool RSCutDirection(const Pose2d& a, const Segment& g, double R, double r, double s)
	{
		PathReedsShepp p(a, g, R), q(a, g, R);
		p.Truncate(r);
		return p.GetDirection(s) == q.GetDirection(r * s);
	}
	bool RSCut(const Pose2d& a, const Segment& g, double R, double r, double s)
	{
		PathReedsShepp p(a, g, R), q(a, g, R);
		p.Truncate(r);
		return p.Interpolate(s) == q.Interpolate(r * s);
	}
	std::set<double> RSCusps(const Pose2d& a, const Segment& g, double R) { PathReedsShepp p(a, g, R); return p.GetCuspPointRatios(); }
	std::set<double> RSCutCusps(const Pose2d& a, const Segment& g, double R, double r) { PathReedsShepp p(a, g, R); p.Truncate(r); return p.GetCuspPointRatios(); }
}
