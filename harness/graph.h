// Random transition systems for the graph searches.
#pragma once
#include "common.h"
#include "core/base.h"
#include "algo/a_star.h"

struct St {
	int id = -1;
	bool operator==(const St& o) const { return id == o.id; }
};
struct StHash {
	std::size_t operator()(const St& s) const { return s.id % 7; }
};
struct Edge {
	int from, to;
	double cost;
};

struct Graph {
	int n = 0;
	std::vector<Edge> edges;
	std::vector<std::vector<int>> out, in;

	static Graph Random(bool integer)
	{
		Graph g;
		g.n = H::RandInt(1, H::Coin(0.7) ? 12 : 60);
		int m = H::RandInt(0, 4 * g.n);
		int kind = H::RandInt(0, 3);
		for (int i = 0; i < m; i++) {
			int a = H::RandInt(0, g.n - 1), b = kind == 1 ? std::min(g.n - 1, a + H::RandInt(0, 3)) : H::RandInt(0, g.n - 1);
			double c = integer ? H::RandInt(0, H::Coin() ? 3 : 20) : H::Coin(0.1) ? 0.0 : H::Rand(0, 10);
			g.edges.push_back({ a, b, c });
			if (kind == 2)
				g.edges.push_back({ b, a, c });
			if (kind == 3 && H::Coin(0.4))   // a parallel transition at another price
				g.edges.push_back({ a, b, integer ? H::RandInt(0, 20) : H::Rand(0, 10) });
		}
		g.out.assign(g.n, {});
		g.in.assign(g.n, {});
		std::shuffle(g.edges.begin(), g.edges.end(), H::rng);
		for (size_t i = 0; i < g.edges.size(); i++) {
			g.out[g.edges[i].from].push_back(i);
			g.in[g.edges[i].to].push_back(i);
		}
		return g;
	}

	// cheapest cost from s to every state, or from every state to s
	std::vector<double> Dist(int s, bool backward = false) const
	{
		std::vector<double> d(n, INFINITY);
		std::vector<char> done(n, 0);
		d[s] = 0;
		for (;;) {
			int u = -1;
			for (int i = 0; i < n; i++)
				if (!done[i] && std::isfinite(d[i]) && (u < 0 || d[i] < d[u]))
					u = i;
			if (u < 0)
				return d;
			done[u] = 1;
			for (int e : backward ? in[u] : out[u]) {
				int v = backward ? edges[e].from : edges[e].to;
				d[v] = std::min(d[v], d[u] + edges[e].cost);
			}
		}
	}

	std::string Text() const
	{
		std::string s = "states " + std::to_string(n) + " transitions";
		char b[60];
		for (auto& e : edges) {
			snprintf(b, sizeof b, " %d>%d:%.17g", e.from, e.to, e.cost);
			s += b;
			if (s.size() > 2500)
				return s + " ...";
		}
		return s;
	}
};

struct Propagator : Planner::AStarStatePropagator<St, int> {
	const Graph* g = nullptr;
	bool backward = false;
	std::map<int, int> calls;
	std::vector<std::tuple<St, int, double>> GetNeighborStates(const St& s) override
	{
		calls[s.id]++;
		std::vector<std::tuple<St, int, double>> r;
		for (int e : backward ? g->in[s.id] : g->out[s.id])
			r.push_back({ St { backward ? g->edges[e].from : g->edges[e].to }, e, g->edges[e].cost });
		return r;
	}
};

// heuristic given by a table per goal, so that evaluating it for the wrong goal shows
struct Table : Planner::AStarConcreteHeuristic<St> {
	std::map<int, std::vector<double>> h;
	double GetHeuristicValue(const St& s) override
	{
		auto it = h.find(this->m_goal.id);
		return it == h.end() ? 0.0 : it->second[s.id];
	}
};

inline bool Close(double a, double b, bool exact) { return exact ? a == b : std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

// a path made of offered transitions, and its cost
template <typename Path, typename Actions>
void CheckPath(const Graph& g, const Path& path, const Actions* actions, int init, int goal, double cost, bool exact)
{
	CHECK(!path.empty(), "empty", "success but the path is empty");
	if (path.empty())
		return;
	CHECK(path.front().id == init, "start", "the path starts at %d, not at %d", path.front().id, init);
	CHECK(path.back().id == goal, "goal", "the path ends at %d, not at %d", path.back().id, goal);
	if (actions) {
		CHECK(actions->size() + 1 == path.size(), "actions", "%zu actions for %zu states", actions->size(), path.size());
		if (actions->size() + 1 != path.size())
			return;
	}
	double sum = 0, low = 0, high = 0;
	for (size_t i = 0; i + 1 < path.size(); i++) {
		double lo = INFINITY, hi = -INFINITY;
		for (auto& e : g.edges)
			if (e.from == path[i].id && e.to == path[i + 1].id) {
				lo = std::min(lo, e.cost);
				hi = std::max(hi, e.cost);
			}
		CHECK(std::isfinite(lo), "step", "step %d -> %d is not an offered transition", path[i].id, path[i + 1].id);
		if (actions) {
			int a = (*actions)[i];
			bool ok = a >= 0 && a < (int)g.edges.size() && g.edges[a].from == path[i].id && g.edges[a].to == path[i + 1].id;
			CHECK(ok, "action", "action %d does not lead from %d to %d", a, path[i].id, path[i + 1].id);
			sum += ok ? g.edges[a].cost : 0;
		}
		low += lo;
		high += hi;
	}
	if (actions)
		CHECK(Close(sum, cost, exact), "cost", "the cost is reported as %.17g but the path costs %.17g", cost, sum);
	else
		CHECK(cost >= low - 1e-9 * (1 + low) && cost <= high + 1e-9 * (1 + high), "cost", "the cost is reported as %.17g but the path costs %.17g", cost, low);
}
