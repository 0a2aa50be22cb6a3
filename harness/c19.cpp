// C19: the bidirectional search returns one connected, exactly priced, best path.
#include "graph.h"
#include "algo/bidirectional_a_star.h"
using namespace Planner;
using Bi = BidirectionalAStar<St, int, StHash>;

// a table of the state alone
struct Fixed : AStarConcreteHeuristic<St> {
	std::vector<double> h;
	double GetHeuristicValue(const St& s) override { return h[s.id]; }
};

static void Run()
{
	bool exact = H::Coin();
	Graph g = Graph::Random(exact);
	auto fp = std::make_shared<Propagator>(), rp = std::make_shared<Propagator>();
	fp->g = rp->g = &g;
	rp->backward = true;
	int mode = H::RandInt(0, 4);
	double frac = exact ? 1.0 : H::Rand(0.1, 1);
	// tables per goal, consistent in their direction
	auto ft = std::make_shared<Table>(), rt = std::make_shared<Table>();
	bool fz = H::Coin(0.3), rz = H::Coin(0.3);
	for (int t = 0; t < g.n; t++)
		for (int back = 0; back < 2; back++) {
			auto d = g.Dist(t, !back); // to t, or from t
			std::vector<double> h(g.n);
			for (int s = 0; s < g.n; s++)
				h[s] = (back ? rz : fz) ? 0 : frac * (std::isfinite(d[s]) ? d[s] : 1e4);
			(back ? rt : ft)->h[t] = h;
		}
	Bi a;
	Ref<AStarHeuristic<St>> hf, hr;
	auto ff = std::make_shared<Fixed>(), rf = std::make_shared<Fixed>();
	bool paired = true;
	if (mode == 0) {
		ff->h.assign(g.n, 0.0);
		rf->h.assign(g.n, 0.0);
		hf = ff, hr = rf;
	} else if (mode == 1) { // a potential and its complement, which may be negative
		auto d = g.Dist(H::RandInt(0, g.n - 1), true);
		double K = exact ? H::RandInt(-10, 10) : H::Rand(-10, 10), L = exact ? H::RandInt(-10, 10) : H::Rand(-10, 10);
		for (int s = 0; s < g.n; s++) {
			ff->h.push_back((std::isfinite(d[s]) ? d[s] : 1e4) + K);
			rf->h.push_back(L - ff->h[s]);
		}
		hf = ff, hr = rf;
	} else if (mode <= 3) {
		std::tie(hf, hr) = Bi::GetAverageHeuristicPair(ft, rt);
	} else { // no pair
		hf = ft, hr = rt;
		paired = false;
	}
	a.Initialize(fp, rp, hf, hr);
	for (int q = 0, nq = H::RandInt(1, 4); q < nq; q++) {
		int s = H::RandInt(0, g.n - 1), t = H::Coin(0.1) ? s : H::RandInt(0, g.n - 1);
		H::Case(20, "bidirectional request %d from %d to %d, heuristic kind %d, zero %d %d, %s", q, s, t, mode, fz, rz, g.Text().c_str());
		a.SetInitState(St { s });
		a.SetGoalState(St { t });
		Status st = a.SearchPath();
		double best = g.Dist(s)[t];
		CHECK((st == Status::Success) == std::isfinite(best), "outcome", "success is %d but the goal is %s", st == Status::Success, std::isfinite(best) ? "reachable" : "not reachable");
		auto path = a.GetPath();
		if (st == Status::Success) {
			double c = a.GetOptimalCost();
			CheckPath<std::vector<St>, std::vector<int>>(g, path, nullptr, s, t, c, exact);
			if (paired)
				CHECK(Close(c, best, exact && mode < 2) || std::fabs(c - best) < 1e-7, "optimal", "the path found costs %.17g, the best one %.17g", c, best);
		} else
			CHECK(path.empty(), "leftover", "the search failed and a path of %zu states is returned", path.size());
		if (mode == 2 || mode == 3) {
			double sum = hf->GetHeuristicValue(St { 0 }) + hr->GetHeuristicValue(St { 0 });
			for (int i = 1; i < g.n; i++) {
				double v = hf->GetHeuristicValue(St { i }) + hr->GetHeuristicValue(St { i });
				CHECK(std::fabs(v - sum) <= 1e-7, "constant", "the pair adds up to %.17g at state 0 and to %.17g at state %d", sum, v, i);
			}
			// the averaged heuristic is the half difference, up to a constant
			double k = hf->GetHeuristicValue(St { s }) - (ft->h[t][s] - rt->h[s][s]) / 2;
			for (int i = 0; i < g.n; i++) {
				double v = hf->GetHeuristicValue(St { i }) - (ft->h[t][i] - rt->h[s][i]) / 2;
				CHECK(std::fabs(v - k) <= 1e-7, "average", "the forward heuristic is not the average of the two for this request (state %d: %.17g, expected offset %.17g)", i, v, k);
			}
		}
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 6000 || H::g_budget > 6); k++)
		Run();
	return H::Done();
}
