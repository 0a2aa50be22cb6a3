#include "graph.h"
using namespace Planner;

template <typename Search>
void Run(const char* name)
{
	bool exact = H::Coin();
	Graph g = Graph::Random(exact);
	auto prop = std::make_shared<Propagator>();
	auto heur = std::make_shared<Table>();
	prop->g = &g;
	// consistent heuristics: a fraction of the true cost to the goal, or of the cost to some landmark, or their maximum
	int mode = H::RandInt(0, 3);
	auto frac = exact ? 1.0 : H::Rand(0.2, 1);
	int mark = H::RandInt(0, g.n - 1);
	auto toMark = g.Dist(mark, true);
	for (int t = 0; t < g.n; t++) {
		auto d = g.Dist(t, true);
		std::vector<double> h(g.n, 0.0);
		for (int s = 0; s < g.n; s++) {
			double own = std::isfinite(d[s]) ? d[s] : 1e6;
			double land = std::isfinite(toMark[s]) && std::isfinite(toMark[t]) ? std::max(0.0, toMark[s] - toMark[t]) : std::isfinite(toMark[s]) ? 0.0 : 1e6;
			if (!std::isfinite(toMark[t]))
				land = 0;
			h[s] = mode == 0 ? 0 : mode == 1 ? frac * own : mode == 2 ? land : std::max(frac * own, land);
		}
		for (auto& e : g.edges)   // keep only what is consistent
			if (h[e.from] > h[e.to] + e.cost + 1e-12 || (exact && h[e.from] > h[e.to] + e.cost)) {
				std::fill(h.begin(), h.end(), 0.0);
				break;
			}
		heur->h[t] = h;
	}
	Search a;
	a.Initialize(prop, heur);
	for (int q = 0, nq = H::RandInt(1, 4); q < nq; q++) {
		int s = H::RandInt(0, g.n - 1), t = H::Coin(0.1) ? s : H::RandInt(0, g.n - 1);
		H::Case(20, "%s request %d from %d to %d, heuristic kind %d, %s", name, q, s, t, mode, g.Text().c_str());
		a.SetInitState(St { s });
		a.SetGoalState(St { t });
		prop->calls.clear();
		Status st = a.SearchPath();
		double best = g.Dist(s)[t];
		CHECK((st == Status::Success) == std::isfinite(best), "outcome", "success is %d but the goal is %s", st == Status::Success, std::isfinite(best) ? "reachable" : "not reachable");
		if (st == Status::Success) {
			auto acts = a.GetActions();
			double sum = 0;
			for (int e : acts)
				sum += g.edges[e].cost;
			CHECK(Close(a.GetOptimalCost(), best, exact), "optimal", "the path found costs %.17g, the best one %.17g", a.GetOptimalCost(), best);
			CHECK(Close(sum, best, exact), "optimal", "the transitions of the path cost %.17g, the best path %.17g", sum, best);
		}
		for (auto& [id, n] : prop->calls)
			CHECK(n <= 1, "twice", "state %d was expanded %d times", id, n);
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 4000 || H::g_budget > 6); k++) {
		Run<AStar<St, int, StHash>>("graph search");
		Run<AStar<St, int, StHash, std::equal_to<St>, true, ExploredMap<St, int, StHash, std::equal_to<St>>>>("graph search with map");
	}
	return H::Done();
}
