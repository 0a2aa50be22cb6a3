// C18: sampling-based planners return only validated connected paths.
#include "common.h"
#include "core/base.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "state_space/state_space_r2.h"
using namespace Planner;

struct Log {
	Point2d lastSample { NAN, NAN }, goal;
	std::set<std::array<double, 4>> accepted;
	long samples = 0, connects = 0, checks = 0;
	double maxStep = 0;
	bool star = false, lattice = false, pending = false, corner = false;
	int mode = 0; // validator
	double a = 0, b = 0, p = 0;
	unsigned long salt = 0;
};
static Log* L;

struct Space : StateSpace<Point2d, 2, double> {
	Space() :
		StateSpace(std::array<Point2d, 2>({ Point2d(-5, -5), Point2d(5, 5) })) { }
	void EnforceBounds(Point2d&) override { }
	bool ValidateBounds(const Point2d&) override { return true; }
	Point2d SampleUniform() override
	{
		L->samples++;
		L->pending = true;
		L->lastSample = L->lattice ? Point2d(H::RandInt(-5, 5), H::RandInt(-5, 5)) : Point2d(H::Rand(-5, 5), H::Rand(-5, 5));
		return L->lastSample;
	}
	Point2d SampleGaussian(const Point2d& m, const Point2d&) override { return m; }
};
struct Line : PathR2Base {
	Point2d to;
	bool big = false, steer = false; // steer: the first connection after a sample leads toward it
	Line(const Point2d& f, const Point2d& t, double stretch) :
		Path(f, (t - f).norm() * stretch), to(t) { m_final = t; }
	bool corner = false; // first along x, then along y
	Point2d Interpolate(double r) const override
	{
		if (!corner)
			return m_init + r * (m_final - m_init);
		Point2d d = m_final - m_init;
		double dx = std::abs(d.x()), dy = std::abs(d.y()), s = r * (dx + dy);
		if (s <= dx)
			return Point2d(dx > 0 ? m_init.x() + d.x() * s / dx : m_init.x(), m_init.y());
		return Point2d(m_final.x(), dy > 0 ? m_init.y() + d.y() * (s - dx) / dy : m_final.y());
	}
	void Truncate(double r) override
	{
		m_final = r == 1 ? m_final : Interpolate(r);
		m_length *= r;
		if (r < 0 || r > 1)
			big = true;
	}
};
struct Connection : PathConnection<Point2d> {
	Ref<PathR2Base> Connect(const Point2d& f, const Point2d& t) override
	{
		L->connects++;
		auto l = makeRef<Line>(f, t, L->p > 0 ? 1 + L->p * std::abs(std::sin(f.x() * 3 + t.y())) : 1);
		if (L->corner) {
			l = makeRef<Line>(f, t, (t - f).norm() > 0 ? (std::abs((t - f).x()) + std::abs((t - f).y())) / (t - f).norm() : 1);
			l->corner = true;
		}
		l->steer = L->pending;
		L->pending = false;
		return l;
	}
};
struct Validator : StateValidator<Point2d, 2, double> {
	using StateValidator::StateValidator;
	bool Ok(const Point2d& s) { return L->mode != 1 || !(std::abs(s.x() - L->a) < 0.6 && std::abs(s.y()) < L->b); }
	bool IsStateValid(const Point2d& s) override { return Ok(s); }
	bool IsPathValid(const Path<Point2d>& path, float* last) override
	{
		L->checks++;
		auto& l = static_cast<const Line&>(path);
		Point2d f = path.GetInitialState(), t = path.GetFinalState();
		if (!L->star || l.steer)
			CHECK(path.GetLength() <= L->maxStep * (1 + 1e-9) + 1e-12, "step", "a step of length %.9g from (%.17g,%.17g) toward (%.17g,%.17g) was taken, the connection distance is %.9g", path.GetLength(), f.x(), f.y(), l.to.x(), l.to.y(), L->maxStep);
		CHECK(!l.big, "truncate", "a path was truncated at a ratio outside 0..1");
		bool ok = true;
		if (L->mode == 1)
			for (int i = 0; i <= 40 && ok; i++)
				ok = Ok(path.Interpolate(i / 40.0));
		else if (L->mode == 2) {
			size_t h = std::hash<double>()(f.x() * 1.7 + f.y() * 2.3 + t.x() * 0.9 - t.y() * 3.1 + L->salt);
			ok = (h ^ (h >> 20)) % 100 < (size_t)L->a;
		}
		if (ok)
			L->accepted.insert({ f.x(), f.y(), t.x(), t.y() });
		if (last)
			*last = ok ? 1 : 0;
		return ok;
	}
};

template <typename P, typename Par>
void Run(bool star)
{
	Log log;
	L = &log;
	log.star = star;
	log.lattice = H::Coin(0.3);
	log.corner = H::Coin(0.4);
	log.p = H::Coin(0.3) ? H::Rand(0, 2) : 0;
	auto sp = makeRef<Space>();
	P planner(sp, makeRef<Validator>(sp), makeRef<Connection>());
	for (int round = 0; round < 3; round++) {
		log.accepted.clear();
		log.samples = log.connects = log.checks = 0;
		log.mode = H::RandInt(0, 2);
		log.a = log.mode == 1 ? H::Rand(-2, 2) : H::RandInt(0, 100);
		log.b = H::Rand(1, 7);
		log.salt = H::RandInt(0, 1000000);
		Par par;
		par.maxIteration = H::Coin(0.1) ? H::RandInt(0, 3) : H::RandInt(20, 400);
		par.maxNumberTreeNode = H::Coin(0.2) ? H::RandInt(0, 20) : 100000;
		par.maxConnectionDistance = log.lattice && H::Coin() ? 1.0 : H::Coin(0.2) ? 20 : H::Rand(0.2, 3);
		par.goalBias = H::Coin(0.2) ? H::RandInt(0, 1) : H::Rand(0, 0.6);
		planner.SetParameters(par);
		log.maxStep = par.maxConnectionDistance;
		auto pt = [&] { return log.lattice ? Point2d(H::RandInt(-4, 4), H::RandInt(-4, 4)) : Point2d(H::Rand(-4, 4), H::Rand(-4, 4)); };
		Point2d init = pt(), goal = H::Coin(0.1) ? init : pt();
		log.goal = goal;
		log.lastSample = goal;
		planner.SetInitState(init);
		planner.SetGoalState(goal);
		H::Case(30, "%s from (%.17g,%.17g) to (%.17g,%.17g), distance %.17g, %u iterations, %u nodes, bias %g, validator %d (%g,%g), round %d", star ? "RRT*" : "RRT", init.x(), init.y(), goal.x(), goal.y(), par.maxConnectionDistance, par.maxIteration, par.maxNumberTreeNode, par.goalBias, log.mode, log.a, log.b, round);
		Status st = planner.SearchPath();
		auto path = planner.GetPath();
		CHECK(log.samples <= (long)par.maxIteration + 1, "limit", "%ld samples were drawn", log.samples);
		CHECK(log.accepted.size() <= (size_t)par.maxNumberTreeNode * (star ? 1000 : 1) + 1 || log.lattice || star, "nodes", "%zu connections were added", log.accepted.size());
		if (st != Status::Success) {
			CHECK(path.empty(), "stale", "the search failed and a path of %zu states is returned", path.size());
			continue;
		}
		if (!CHECK(!path.empty(), "empty", "success without a path"))
			continue;
		CHECK(path[0] == init, "init", "the path starts at (%.17g,%.17g)", path[0].x(), path[0].y());
		CHECK(star ? path.back() == goal : (path.back() - goal).norm() < 1, "goal", "the path ends at (%.17g,%.17g)", path.back().x(), path.back().y());
		for (size_t i = 1; i < path.size(); i++) {
			auto &f = path[i - 1], &t = path[i];
			CHECK(log.accepted.count({ f.x(), f.y(), t.x(), t.y() }), "unvalidated", "step %zu from (%.17g,%.17g) to (%.17g,%.17g) was never accepted by the validator", i, f.x(), f.y(), t.x(), t.y());
			if (!star)
				CHECK((t - f).norm() <= par.maxConnectionDistance * (1 + 1e-9) + 1e-12, "long", "step %zu is %.9g long", i, (t - f).norm());
		}
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	while (H::More()) {
		Run<RRTR2, RRTParameters>(false);
		Run<RRTStarR2, RRTStarParameters>(true);
	}
	return H::Done();
}
