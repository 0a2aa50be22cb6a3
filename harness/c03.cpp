#include "graph.h"
using namespace Planner;

template <typename Search>
void Run(const char* name, bool tree)
{
	bool exact = H::Coin();
	Graph g = Graph::Random(exact);
	if (tree) {   // a search without explored set needs a system without cycles, and a small one
		Graph t;
		t.n = std::min(g.n, 9);
		t.out.resize(t.n);
		t.in.resize(t.n);
		for (auto& e : g.edges)
			if (e.from < e.to && e.to < t.n && t.edges.size() < 16) {
				t.out[e.from].push_back(t.edges.size());
				t.in[e.to].push_back(t.edges.size());
				t.edges.push_back(e);
			}
		g = t;
	}
	auto prop = std::make_shared<Propagator>();
	auto heur = std::make_shared<Table>();
	prop->g = &g;
	int mode = H::RandInt(0, 2);
	for (int s = 0; s < g.n; s++) {
		auto d = g.Dist(s, true);
		for (auto& x : d)
			x = mode == 0 ? 0 : mode == 1 ? H::Rand(0, 20) : std::isfinite(x) ? x * H::Rand(0, 2) : H::Rand(0, 50);
		heur->h[s] = d;
	}
	Search a;
	H::Case(20, "%s before any search, %s", name, g.Text().c_str());
	CHECK(a.GetPath().empty() && a.GetActions().empty() && std::isinf(a.GetOptimalCost()), "fresh", "a path is reported before any search");
	CHECK(a.SearchPath() == Status::Failure, "fresh", "a search that was not initialised reports success");
	CHECK(!a.Initialize(nullptr, heur) && !a.Initialize(prop, nullptr), "init", "accepted without propagator or heuristic");
	CHECK(a.Initialize(prop, heur), "init", "initialisation refused");
	for (int q = 0, nq = H::RandInt(1, 5); q < nq; q++) {
		int s = H::RandInt(0, g.n - 1), t = H::Coin(0.1) ? s : H::RandInt(0, g.n - 1);
		H::Case(20, "%s request %d from %d to %d, heuristic kind %d, %s", name, q, s, t, mode, g.Text().c_str());
		a.SetInitState(St { s });
		a.SetGoalState(St { t });
		bool broken = H::Coin(0.1);
		if (broken)
			a.Initialize(nullptr, heur);
		Status st = a.SearchPath();
		auto path = a.GetPath();
		auto acts = a.GetActions();
		if (broken) {
			CHECK(st == Status::Failure, "fresh", "a search that was not initialised reports success");
			a.Initialize(prop, heur);
		} else
			CHECK((st == Status::Success) == std::isfinite(g.Dist(s)[t]), "outcome", "success is %d but the goal is %s", st == Status::Success, std::isfinite(g.Dist(s)[t]) ? "reachable" : "not reachable");
		if (st == Status::Success)
			CheckPath(g, path, &acts, s, t, a.GetOptimalCost(), exact);
		else
			CHECK(path.empty() && acts.empty() && std::isinf(a.GetOptimalCost()) && a.GetOptimalCost() > 0, "failure", "a failed search returns a path or a finite cost");
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 4000 || H::g_budget > 5); k++) {
		Run<AStar<St, int, StHash>>("graph search", false);
		Run<AStar<St, int, StHash, std::equal_to<St>, true, ExploredMap<St, int, StHash, std::equal_to<St>>>>("graph search with map", false);
		if (k % 3 == 0)
			Run<AStar<St, int, StHash, std::equal_to<St>, false, ExploredVoid<St>>>("tree search", true);
	}
	return H::Done();
}
