PROPERTY = "C18"
EDITS = [("planner/src/algo/rrt.h", """			Clear();

			m_tree.CreateRootNode(this->m_init);
""", """			m_tree.Clear();

			m_tree.CreateRootNode(this->m_init);
			if (m_parameters.maxIteration > 0 && !m_solutionNode)
				m_solutionNode = nullptr;
"""), ("planner/src/algo/rrt.h", """			auto node = m_solutionNode;
			if (!node)
				return path;
""", """			auto node = m_tree.Size() > 0 ? m_solutionNode : nullptr;
			if (!node)
				return path;
""")]
NEEDS = 'a search that fails after one that succeeded'
BREAKS = 'the solution of the previous search (a node that was deleted) is followed after a failure'
DEMO = r'''
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include <set>
#include <array>
#include <deque>
using namespace Planner;
static double worst = 0;
static std::set<std::array<double, 4>> accepted;
static std::deque<Point2d> draws;
struct Space : StateSpace<Point2d, 2, double> {
	Space() : StateSpace(std::array<Point2d, 2>({ Point2d(-9, -9), Point2d(9, 9) })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override
	{
		if (draws.size() > 1) draws.pop_front();
		return draws.front();
	}
	Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
};
struct Line : PathR2Base {
	Line(const Point2d& f, const Point2d& t) : Path(f, (t - f).norm()) { m_final = t; }
	Point2d Interpolate(double r) const override { return m_init + r * (m_final - m_init); }
	void Truncate(double r) override { m_final = r == 1 ? m_final : Interpolate(r); m_length *= r; }
};
struct Connection : PathConnection<Point2d> {
	Ref<PathR2Base> Connect(const Point2d& f, const Point2d& t) override { return makeRef<Line>(f, t); }
};
static bool closed = false;
static std::function<bool(const Point2d&, const Point2d&)> rule;
struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator::StateValidator;
	bool IsStateValid(const Point2d&) override { return true; }
	bool IsPathValid(const Path<Point2d>& p, float*) override
	{
		worst = std::max(worst, p.GetLength());
		auto f = p.GetInitialState(), t = p.GetFinalState();
		if (closed || (rule && !rule(f, t))) return false;
		accepted.insert({ f.x(), f.y(), t.x(), t.y() });
		return true;
	}
};
int main()
{
	auto sp = makeRef<Space>();
	draws = { Point2d(0, 0), Point2d(3, 0) };
	RRTR2 rrt(sp, makeRef<Validator>(sp), makeRef<Connection>());
	RRTParameters p;
	p.maxConnectionDistance = 1;
	p.goalBias = 0.5;
	p.maxIteration = 200;
	rrt.SetParameters(p);
	rrt.SetInitState(Point2d(0, 0));
	rrt.SetGoalState(Point2d(3, 0));
	if (rrt.SearchPath() != Status::Success || rrt.GetPath().empty()) return 2;
	closed = true;
	if (rrt.SearchPath() != Status::Failure) return 3;
	return rrt.GetPath().empty() ? 0 : 1;
}
'''
