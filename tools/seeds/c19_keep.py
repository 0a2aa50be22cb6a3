PROPERTY = "C19"
EDITS = [('planner/src/algo/bidirectional_a_star.h', '\t\t\t\t\tbestPathCost = candidatePathCost;\n\t\t\t\t\tsearchA.m_solutionNode = nodeA;\n\t\t\t\t\tsearchB.m_solutionNode = nodeB;\n', '\t\t\t\t\tbestPathCost = candidatePathCost;\n\t\t\t\t\tif (!searchB.m_solutionNode || (*searchB.m_solutionNode)->pathCost > (*nodeB)->pathCost)\n\t\t\t\t\t\tsearchB.m_solutionNode = nodeB;\n\t\t\t\t\tsearchA.m_solutionNode = nodeA;\n')]
NEEDS = 'a second meeting that is cheaper although its half in the other search is longer'
BREAKS = 'the two halves end at different states: the returned path jumps'
DEMO = r'''
#include "core/base.h"
#include "algo/bidirectional_a_star.h"
#include <cstdio>
#include <random>
using namespace Planner;
using Bi = BidirectionalAStar<int, int>;
static const int M = 12;
struct Net { double w[M][M]; } net;
struct Prop : AStarStatePropagator<int, int> {
	bool back;
	Prop(bool b) : back(b) { }
	std::vector<std::tuple<int, int, double>> GetNeighborStates(const int& s) override
	{
		std::vector<std::tuple<int, int, double>> r;
		for (int t = 0; t < M; t++) {
			double w = back ? net.w[t][s] : net.w[s][t];
			if (w >= 0) r.push_back({ t, 0, w });
		}
		return r;
	}
};
static double pos[M];
struct Line : AStarConcreteHeuristic<int> {
	double factor;
	Line(double f) : factor(f) { }
	double GetHeuristicValue(const int& s) override { return factor * std::fabs(pos[s] - pos[m_goal]); }
};
int main()
{
	std::mt19937 gen(5);
	int bad = 0, solved = 0;
	for (int k = 0; k < 3000; k++) {
		for (int i = 0; i < M; i++) pos[i] = gen() % 60;
		for (int i = 0; i < M; i++)
			for (int j = 0; j < M; j++)
				net.w[i][j] = i != j && gen() % 100 < 30 ? std::fabs(pos[i] - pos[j]) + (gen() % 3 ? gen() % 25 : 0) : -1;
		double d[M][M];
		for (int i = 0; i < M; i++)
			for (int j = 0; j < M; j++)
				d[i][j] = i == j ? 0 : net.w[i][j] >= 0 ? net.w[i][j] : 1e18;
		for (int m = 0; m < M; m++)
			for (int i = 0; i < M; i++)
				for (int j = 0; j < M; j++)
					d[i][j] = std::min(d[i][j], d[i][m] + d[m][j]);
		int s = gen() % M, t = gen() % M;
		Bi a;
		auto [hf, hr] = Bi::GetAverageHeuristicPair(makeRef<Line>(1.0), makeRef<Line>(k % 2 ? 1.0 : 0.25));
		a.Initialize(makeRef<Prop>(false), makeRef<Prop>(true), hf, hr);
		a.SetInitState(s);
		a.SetGoalState(t);
		bool ok = a.SearchPath() == Status::Success;
		if (ok != (d[s][t] < 1e17)) bad++;
		double sum = hf->GetHeuristicValue(0) + hr->GetHeuristicValue(0);
		for (int i = 1; i < M; i++)
			if (std::fabs(hf->GetHeuristicValue(i) + hr->GetHeuristicValue(i) - sum) > 1e-6) bad++;
		if (!ok) continue;
		solved++;
		auto p = a.GetPath();
		double c = 0;
		bool linked = !p.empty() && p.front() == s && p.back() == t;
		for (size_t i = 0; linked && i + 1 < p.size(); i++) {
			linked = net.w[p[i]][p[i + 1]] >= 0;
			c += net.w[p[i]][p[i + 1]];
		}
		if (!linked || std::fabs(c - a.GetOptimalCost()) > 1e-6 || c > d[s][t] + 1e-6) bad++;
	}
	printf("%d solved, %d wrong\n", solved, bad);
	return bad ? 1 : solved > 500 ? 0 : 2;
}
'''
