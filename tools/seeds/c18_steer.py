PROPERTY = "C18"
EDITS = [("planner/src/algo/rrt.h", """			if (path->GetLength() > 0) {
""", """			// Do not leave a leftover too short for a step of its own
			if (path->GetLength() > 1.5 * distance) {
""")]
NEEDS = 'a sample between one and one and a half connection distances away from its nearest node'
BREAKS = 'a step toward a sample is longer than the connection distance'
DEMO = r'''
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include <set>
#include <array>
#include <deque>
using namespace Planner;
static double worst = 0;
static std::set<std::array<double, 4>> accepted;
static std::deque<Point2d> draws;
struct Space : StateSpace<Point2d, 2, double> {
	Space() : StateSpace(std::array<Point2d, 2>({ Point2d(-9, -9), Point2d(9, 9) })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override
	{
		if (draws.size() > 1) draws.pop_front();
		return draws.front();
	}
	Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
};
struct Line : PathR2Base {
	Line(const Point2d& f, const Point2d& t) : Path(f, (t - f).norm()) { m_final = t; }
	Point2d Interpolate(double r) const override { return m_init + r * (m_final - m_init); }
	void Truncate(double r) override { m_final = r == 1 ? m_final : Interpolate(r); m_length *= r; }
};
struct Connection : PathConnection<Point2d> {
	Ref<PathR2Base> Connect(const Point2d& f, const Point2d& t) override { return makeRef<Line>(f, t); }
};
static bool closed = false;
static std::function<bool(const Point2d&, const Point2d&)> rule;
struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator::StateValidator;
	bool IsStateValid(const Point2d&) override { return true; }
	bool IsPathValid(const Path<Point2d>& p, float*) override
	{
		worst = std::max(worst, p.GetLength());
		auto f = p.GetInitialState(), t = p.GetFinalState();
		if (closed || (rule && !rule(f, t))) return false;
		accepted.insert({ f.x(), f.y(), t.x(), t.y() });
		return true;
	}
};
int main()
{
	auto sp = makeRef<Space>();
	draws = { Point2d(0, 0), Point2d(1.3, 0), Point2d(2.6, 0), Point2d(9, 0) };
	RRTR2 rrt(sp, makeRef<Validator>(sp), makeRef<Connection>());
	RRTParameters p;
	p.maxConnectionDistance = 1;
	p.goalBias = 0;
	p.maxIteration = 50;
	rrt.SetParameters(p);
	rrt.SetInitState(Point2d(0, 0));
	rrt.SetGoalState(Point2d(8, 0));
	rrt.SearchPath();
	return worst <= 1 + 1e-9 ? 0 : 1;
}
'''
