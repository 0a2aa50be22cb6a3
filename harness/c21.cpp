// C21: heuristics: grid routes, lookup table, combination, adaptation.
#include "common.h"
#include "core/base.h"
#include "algo/heuristics.h"
#include "geometry/reeds_shepp.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

struct BitMap : OccupancyMap {
	std::vector<char> occ;
	long outside = 0;
	BitMap(float res) :
		OccupancyMap(res) { }
	bool IsOccupied(const GridCellPosition& c) override
	{
		if (c.row < 0 || c.col < 0 || c.row >= Rows() || c.col >= Columns()) {
			outside++;
			return true;
		}
		return occ[c.row * Columns() + c.col];
	}
};
struct OH : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	using ObstaclesHeuristic::SetGoal;
};
template <typename S>
struct Combined : AStarCombinedHeuristic<S> {
	using AStarCombinedHeuristic<S>::SetGoal;
};
struct Member : AStarHeuristic<int> {
	int goal = -1, sets = 0;
	std::vector<double> table;
	double GetHeuristicValue(const int& s) override { return table[s] + 100 * goal; }
	void SetGoal(const int& g) override
	{
		goal = g;
		sets++;
	}
};

// the shortest legal routes to the goal cell
std::vector<double> Routes(BitMap& m, int gr, int gc)
{
	int R = m.Rows(), C = m.Columns();
	std::vector<double> d(R * C, INFINITY);
	auto occ = [&](int r, int c) { return (bool)m.occ[r * C + c]; };
	std::set<std::pair<double, int>> q;
	d[gr * C + gc] = 0;
	q.insert({ 0, gr * C + gc });
	while (!q.empty()) {
		int u = q.begin()->second, r = u / C, c = u % C;
		q.erase(q.begin());
		for (int a = -1; a <= 1; a++)
			for (int b = -1; b <= 1; b++) {
				int x = r + a, y = c + b;
				if ((!a && !b) || x < 0 || y < 0 || x >= R || y >= C || occ(x, y))
					continue;
				if (a && b && occ(x, c) && occ(r, y))
					continue;
				double w = d[u] + (a && b ? std::sqrt(2.0) : 1.0);
				if (w < d[x * C + y] - 1e-12) {
					q.erase({ d[x * C + y], x * C + y });
					d[x * C + y] = w;
					q.insert({ w, x * C + y });
				}
			}
	}
	return d;
}

void Obstacles()
{
	float res = H::Coin() ? 0.5f : H::Coin() ? 1.0f : 0.25f;
	int R = H::RandInt(1, 14), C = H::RandInt(1, 14);
	auto m = makeRef<BitMap>(res);
	m->InitializeSize(R * res, C * res);
	R = m->Rows(), C = m->Columns();
	Point2d o(0, 0);
	if (H::Coin(0.4)) {
		o = Point2d(H::RandInt(-5, 5), H::RandInt(-5, 5));
		m->SetPosition(o);
	}
	double rev = H::Coin(0.3) ? 1 : H::Rand(0.3, 3), fwd = H::Coin(0.3) ? 1 : H::Rand(0.3, 3);
	OH h(m, rev, fwd);
	double mult = std::min(rev, fwd);
	for (int round = 0; round < 3; round++) {
		double dens = H::Coin(0.2) ? 0 : H::Rand(0.05, 0.5);
		m->occ.assign(R * C, 0);
		std::string s = "occupied";
		for (int i = 0; i < R * C; i++)
			if (H::Coin(dens)) {
				m->occ[i] = 1;
				s += " " + std::to_string(i / C) + "," + std::to_string(i % C);
			}
		bool off = H::Coin(0.1);
		int gr = H::RandInt(0, R - 1), gc = H::RandInt(0, C - 1);
		if (H::Coin(0.8))
			m->occ[gr * C + gc] = 0;
		Point2d gp = m->GridCellToWorldPosition(gr, gc) + Point2d(H::Rand(0.01, 0.99) * res, H::Rand(0.01, 0.99) * res);
		if (off)
			gp = o + Point2d((R + 1.5) * res, H::Rand(-3, 3));
		Pose2d goal(gp, H::Rand(-3, 3));
		H::Case(20, "obstacle heuristic on %d x %d cells of %g, multipliers %g %g, goal (%.17g,%.17g) round %d, %s", R, C, res, rev, fwd, gp.x(), gp.y(), round, s.c_str());
		h.Update(goal);
		h.SetGoal(goal);
		std::vector<double> d = off ? std::vector<double>(R * C, INFINITY) : Routes(*m, gr, gc);
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				Pose2d p(m->GridCellToWorldPosition(r, c) + Point2d(H::Rand(0.01, 0.99) * res, H::Rand(0.01, 0.99) * res), H::Rand(-4, 4));
				double e = (p.position - gp).norm(), v = d[r * C + c];
				double want = std::isinf(v) ? e : std::max(e, v * mult * res - std::sqrt(2.0) * res), got = h.GetHeuristicValue(p);
				CHECK(H::Near(got, want, 1e-3 + 1e-4 * want), "route", "cell %d,%d (%.17g,%.17g): value %.9g, expected %.9g (route %.9g cells)", r, c, p.x(), p.y(), got, want, v);
			}
		for (int k = 0; k < 10; k++) {
			Pose2d p(o.x() + (H::Coin() ? 1 : -1) * (R * res + H::Rand(0.1, 5)), o.y() + (H::Coin() ? 1 : -1) * (C * res + H::Rand(0.1, 5)), H::Rand(-4, 4));
			if (H::Coin())
				p.position.x() = o.x() + H::Rand(-R, R) * res * 0.4;
			CHECK(H::Near(h.GetHeuristicValue(p), (p.position - gp).norm(), 1e-6), "offmap", "off the map (%.17g,%.17g): %.9g instead of the distance", p.x(), p.y(), h.GetHeuristicValue(p));
		}
		CHECK(m->outside == 0, "outside", "the occupancy of a cell outside the grid was asked");
	}
}

void Table()
{
	double sres = H::Rand(0.4, 1.2), ares = H::Coin(0.3) ? 2 * M_PI / H::RandInt(3, 12) : H::Rand(0.3, 2.2), radius = H::Rand(0.6, 2.5);
	double rev = H::Coin(0.3) ? 1 : H::Rand(0.5, 3), fwd = H::Coin(0.3) ? 1 : H::Rand(0.5, 3), sw = H::Coin(0.4) ? 0 : H::Rand(0, 4);
	double sx = H::Rand(0.5, 6), sy = H::Rand(0.5, 6);
	H::Case(60, "table %.17g x %.17g by %.17g, heading %.17g, radius %.17g, prices %.17g %.17g %.17g", sx, sy, sres, ares, radius, rev, fwd, sw);
	auto t = NonHolonomicHeuristic::Build({ Pose2d(0, 0, 0), Pose2d(sx, sy, 0) }, sres, ares, radius, rev, fwd, sw);
	Combined<Pose2d> c;
	c.Add(t);
	CHECK(t->numSpatialX * sres >= sx - 1e-9 && t->numSpatialY * sres >= sy - 1e-9 && t->numAngular * ares >= 2 * M_PI - 1e-9, "size", "the table does not cover the bounds");
	std::string d0 = H::g_case;
	for (int k = 0; k < 150; k++) {
		Pose2d s(H::Rand(-4, 4), H::Rand(-4, 4), H::Rand(-M_PI, M_PI));
		int i = H::RandInt(-2, t->numSpatialX + 1), j = H::RandInt(-2, t->numSpatialY + 1), a = H::RandInt(-1, t->numAngular);
		double f = H::Coin() ? 0.02 : 0.45;
		double rx = (i + H::Rand(-f, f)) * sres - t->offsetX, ry = (j + H::Rand(-f, f)) * sres - t->offsetY, ra = (a + H::Rand(-f, f)) * ares;
		if (H::Coin(0.1))
			ra = (H::Coin() ? 1 : -1) * (M_PI - H::Rand(0, 1e-6));
		Pose2d goal = s + Pose2d(rx, ry, ra);
		H::Case(10, "%s | state (%.17g,%.17g,%.17g) goal (%.17g,%.17g,%.17g)", d0.c_str(), s.x(), s.y(), s.theta, goal.x(), goal.y(), goal.theta);
		c.SetGoal(goal);
		double v = c.GetHeuristicValue(s), v2 = t->GetHeuristicValue(s);
		CHECK(v == v2, "combined", "the combined heuristic of one member differs from it");
		if (i < 0 || j < 0 || i >= (int)t->numSpatialX || j >= (int)t->numSpatialY) {
			CHECK(H::Near(v, std::min(rev, fwd) * (goal.position - s.position).norm(), 1e-6), "far", "outside the table: %.9g instead of the scaled distance %.9g", v, std::min(rev, fwd) * (goal.position - s.position).norm());
			continue;
		}
		// the nearest node; near the middle of two headings, or where the table wraps around, either
		double q = std::remainder(ra, 2 * M_PI);
		if (q < 0)
			q += 2 * M_PI;
		bool ok = false;
		double want = 0;
		std::vector<int> ks;
		for (double e : { -1e-6, 1e-6 }) {
			ks.push_back(((int)std::round(q / ares + e)) % (int)t->numAngular);
			if (q < 1e-6 || 2 * M_PI - q < 1e-6)
				ks.push_back(0), ks.push_back((int)std::round(2 * M_PI / ares + e) % (int)t->numAngular);
		}
		for (int kk : ks) {
			Pose2d node(i * sres - t->offsetX, j * sres - t->offsetY, kk * ares);
			want = ReedsShepp::Solver::GetOptimalPath(Pose2d(0, 0, 0), node, radius, rev, fwd, sw).ComputeCost(radius, rev, fwd, sw);
			ok = ok || H::Near(v, want, 1e-5 * (1 + want));
		}
		CHECK(ok, "entry", "the value %.9g is not the cost %.9g of the path to the nearest table pose", v, want);
	}
}

void Combination()
{
	int n = H::RandInt(1, 6);
	Combined<int> c;
	std::vector<Ref<Member>> ms;
	for (int i = 0; i < n; i++) {
		auto m = makeRef<Member>();
		for (int s = 0; s < 5; s++)
			m->table.push_back(H::Coin(0.3) ? H::RandInt(-3, 3) : H::Rand(-10, 10));
		ms.push_back(m);
		c.Add(m);
	}
	for (int g = 0; g < 3; g++) {
		H::Case(10, "combination of %d members, goal %d", n, g);
		c.SetGoal(g);
		for (auto& m : ms)
			CHECK(m->goal == g && m->sets == g + 1, "goal", "a member has goal %d after %d updates", m->goal, m->sets);
		for (int s = 0; s < 5; s++) {
			double best = -INFINITY;
			for (auto& m : ms)
				best = std::max(best, m->table[s] + 100 * g);
			CHECK(c.GetHeuristicValue(s) == best, "max", "state %d: %.9g instead of the largest member %.9g", s, c.GetHeuristicValue(s), best);
		}
	}
	struct Pair {
		int a, b;
	};
	auto proj = [](const Pair& p) { return p.b; };
	struct Ad : AStarHeuristicAdapter<Pair, int, decltype(proj)> {
		using Base = AStarHeuristicAdapter<Pair, int, decltype(proj)>;
		using Base::Base;
		using Base::SetGoal;
	};
	Ad ad(ms[0], proj);
	ad.SetGoal(Pair { 1, 4 });
	CHECK(ms[0]->goal == 4, "adapter-goal", "the adapted heuristic has goal %d", ms[0]->goal);
	for (int s = 0; s < 5; s++)
		CHECK(ad.GetHeuristicValue(Pair { (s + 1) % 5, s }) == ms[0]->table[s] + 400, "adapter", "the adapter evaluates another state");
	auto est = [](const int& s, const int& g) { return 3.0 * s - g; };
	struct Fc : AStarConcreteHeuristicFcn<int, decltype(est)> {
		using Base = AStarConcreteHeuristicFcn<int, decltype(est)>;
		using Base::Base;
		using Base::SetGoal;
	};
	Fc f(est);
	f.SetGoal(7);
	CHECK(f.GetHeuristicValue(5) == 8.0, "function", "the function is not evaluated at state and goal: %.9g", f.GetHeuristicValue(5));
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	while (H::More()) {
		for (int i = 0; i < 5; i++)
			Obstacles();
		Combination();
		Table();
	}
	return H::Done();
}
