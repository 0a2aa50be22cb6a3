PROPERTY = "C18"
EDITS = [("planner/src/utils/tree.h", """			source = source ? source : GetNearestNode(target);
""", """			// Connect to the closest node of the tree
			if (Node* nearest = GetNearestNode(target))
				source = nearest;
""")]
NEEDS = "connections that are not straight, so that a step may land closer to a node other than the one it was taken from, and a validator that rejects the connection from that node"
BREAKS = 'the new state hangs on a node from which no connection was accepted'
DEMO = r'''
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include <set>
#include <array>
#include <deque>
using namespace Planner;
static double worst = 0;
static std::set<std::array<double, 4>> accepted;
static std::deque<Point2d> draws;
struct Space : StateSpace<Point2d, 2, double> {
	Space() : StateSpace(std::array<Point2d, 2>({ Point2d(-9, -9), Point2d(9, 9) })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override
	{
		if (draws.size() > 1) draws.pop_front();
		return draws.front();
	}
	Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
};
struct Line : PathR2Base {
	Line(const Point2d& f, const Point2d& t) : Path(f, std::abs((t - f).x()) + std::abs((t - f).y())) { m_final = t; }
	Point2d Interpolate(double r) const override 
	{
		Point2d d = m_final - m_init;
		double dx = std::abs(d.x()), dy = std::abs(d.y()), s = r * (dx + dy);
		if (s <= dx) return Point2d(dx > 0 ? m_init.x() + d.x() * s / dx : m_init.x(), m_init.y());
		return Point2d(m_final.x(), m_init.y() + d.y() * (s - dx) / dy);
	}
	void Truncate(double r) override { m_final = r == 1 ? m_final : Interpolate(r); m_length *= r; }
};
struct Connection : PathConnection<Point2d> {
	Ref<PathR2Base> Connect(const Point2d& f, const Point2d& t) override { return makeRef<Line>(f, t); }
};
static bool closed = false;
static std::function<bool(const Point2d&, const Point2d&)> rule;
struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator::StateValidator;
	bool IsStateValid(const Point2d&) override { return true; }
	bool IsPathValid(const Path<Point2d>& p, float*) override
	{
		worst = std::max(worst, p.GetLength());
		auto f = p.GetInitialState(), t = p.GetFinalState();
		if (closed || (rule && !rule(f, t))) return false;
		accepted.insert({ f.x(), f.y(), t.x(), t.y() });
		return true;
	}
};
int main()
{
	// (0,2) is reached from (0,1); (0.2,1.9) is next to (0,2) but may only be reached from (0,1)
	auto sp = makeRef<Space>();
	int bad = 0;
	for (int seed = 0; seed < 30; seed++) {
		accepted.clear();
		draws = { Point2d(0, 0) };
		for (int i = 0; i < 3000; i++) draws.push_back(Point2d(((i * 37 + i * i * 7 + seed) % 1009) / 500.0 - 1, ((i * 53 + i * i * 3 + seed) % 2003) / 600.0 - 1));
		rule = [&](const Point2d& f, const Point2d& t) { long h = (long)(f.x() * 4049 + f.y() * 7919 + t.x() * 1237 + t.y() * 331 + seed); return (h ^ (h >> 7)) % 2 != 0; };
		RRTR2 rrt(sp, makeRef<Validator>(sp), makeRef<Connection>());
		RRTParameters p;
		p.maxConnectionDistance = 0.15;
		p.goalBias = 0.01;
		p.maxIteration = 3000;
		rrt.SetParameters(p);
		rrt.SetInitState(Point2d(0, 0));
		rrt.SetGoalState(Point2d(1.8, 2.6));
		if (rrt.SearchPath() != Status::Success) continue;
		auto path = rrt.GetPath();
		for (size_t i = 1; i < path.size(); i++)
			bad += !accepted.count({ path[i - 1].x(), path[i - 1].y(), path[i].x(), path[i].y() });
	}
	return bad ? 1 : 0;
}
'''
