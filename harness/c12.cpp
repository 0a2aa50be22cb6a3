// C12: the distance map is exact to the obstacle it names.
#include "vehicle.h"
#include "state_validator/gvd.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

// A map whose cells are set and cleared one by one through the public interface of its distance map.
static void Grids()
{
	int R = H::Coin(0.1) ? 1 : H::RandInt(1, 14), C = H::Coin(0.1) ? 1 : H::RandInt(1, 14);
	float res = H::Coin() ? 1.0f : 0.25f;
	auto occ = makeRef<Grid<int>>(R, C, -1);
	GVD::ObstacleDistanceMap m(occ, res);
	bool removals = H::Coin(0.5), edges = H::Coin(0.7);
	std::string hist = "grid " + std::to_string(R) + " x " + std::to_string(C) + (edges ? " with edges" : "");
	Ref<GVD::VoronoiDistanceMap> v;
	if (edges)
		v = m.GetVoronoiDistanceMap();
	int steps = H::RandInt(1, 6);
	bool removed = false;
	for (int k = 0; k < steps; k++) {
		int edits = H::Coin(0.2) ? 0 : H::RandInt(1, 8);
		for (int i = 0; i < edits; i++) {
			GridCellPosition p(H::RandInt(0, R - 1), H::RandInt(0, C - 1));
			bool is = (*occ)[p.row][p.col] >= 0;
			if (!is) {
				(*occ)[p.row][p.col] = H::RandInt(0, 3);
				m.SetObstacle(p);
				hist += "; set " + std::to_string(p.row) + "," + std::to_string(p.col);
			} else if (removals) {
				(*occ)[p.row][p.col] = -1;
				m.UnsetObstacle(p);
				removed = true;
				hist += "; unset " + std::to_string(p.row) + "," + std::to_string(p.col);
			}
		}
		hist += "; update";
		H::Case(20, "%s", hist.c_str());
		m.Update();
		if (v)
			v->Update();
		bool any = false;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++)
				any = any || (*occ)[r][c] >= 0;
		const float far = std::sqrt(std::numeric_limits<int>::max()) * res;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				auto o = m.GetNearestObstacleCell(r, c);
				float d = m.GetDistanceToNearestObstacle(r, c);
				bool in = o.row >= 0 && o.col >= 0 && o.row < R && o.col < C;
				CHECK(in || (o.row < 0 && o.col < 0), "inside", "a cell names an obstacle outside the map");
				if (in)
					CHECK(H::Near(d, std::sqrt(double((o.row - r) * (o.row - r) + (o.col - c) * (o.col - c))) * res, 1e-4), "exact", "the stated distance is not the distance to the stated obstacle");
				else
					CHECK(H::Near(d, far, far * 1e-5), "none", "a cell without an obstacle has a finite distance");
				if ((*occ)[r][c] >= 0)
					CHECK(d == 0 && o.row == r && o.col == c, "zero", "an obstacle cell has a positive distance");
				else
					CHECK(d > 0, "free", "a free cell has distance zero");
				if (!removed) {
					CHECK(in == any, "reach", "a cell names no obstacle although there is one, or one although there is none");
					if (in) {
						CHECK((*occ)[o.row][o.col] >= 0, "real", "a cell names a cell that is not an obstacle");
						for (auto& n : GridCellPosition(r, c).GetNeighbors(R, C)) {
							auto on = m.GetNearestObstacleCell(n);
							CHECK(d <= std::sqrt(double((on.row - r) * (on.row - r) + (on.col - c) * (on.col - c))) * res + 1e-4, "closer", "the obstacle of a neighbouring cell is closer than the stated one");
						}
					}
				}
				if (!v)
					continue;
				auto e = v->GetNearestVoronoiEdgeCell(r, c);
				float w = v->GetDistanceToNearestVoronoiEdge(r, c);
				if (e.row >= 0 && e.col >= 0)
					CHECK(e.row < R && e.col < C && H::Near(w, std::sqrt(double((e.row - r) * (e.row - r) + (e.col - c) * (e.col - c))) * res, 1e-4), "edge", "the stated distance to an edge is not the distance to the stated edge");
				else
					CHECK(H::Near(w, far, far * 1e-5), "no-edge", "a cell without an edge has a finite distance to it");
				CHECK(d > 0 || w > 0, "both", "a cell is an obstacle and an edge");
			}
	}
}

static void Potential()
{
	World w(H::Rand(2, 22), H::RandInt(0, 8), 0.3f);
	GVD g(w.map);
	std::string hist = w.desc;
	for (int k = 0; k < 3; k++) {
		H::Case(30, "%s; update %d", hist.c_str(), k);
		g.Update();
		for (int r = 0; r < g.rows; r += 1 + g.rows / 60)
			for (int c = 0; c < g.columns; c += 1 + g.columns / 60) {
				float p = g.GetPathCost(r, c), d = g.GetDistanceToNearestObstacle(r, c), e = g.GetDistanceToNearestVoronoiEdge(r, c);
				CHECK(p >= 0 && p <= 1 + 1e-5, "potential", "the potential does not lie between 0 and 1");
				if (d >= g.dMax)
					CHECK(p == 0, "cut-off", "the potential is not zero beyond the cut-off distance");
				else
					CHECK(H::Near(p, double(g.alpha) / (g.alpha + d) * (e / (d + e)) * (d - g.dMax) * (d - g.dMax) / (g.dMax * g.dMax), 1e-4), "formula", "the potential is not the stated function of the two distances");
			}
		if (!w.obstacles.empty() && H::Coin()) {
			w.map->RemoveObstacle(w.obstacles.back());
			w.obstacles.pop_back();
			hist += "; last obstacle removed";
		} else {
			auto o = makeRef<Obstacle>();
			double x = H::Rand(-w.half, w.half), y = H::Rand(-w.half, w.half);
			o->SetShape(makeRef<RectangleShape>(1.0, 0.6));
			o->SetPose(Pose2d(x, y, 0.4));
			w.map->AddObstacle(o);
			w.obstacles.push_back(o);
			hist += "; obstacle at " + std::to_string(x) + "," + std::to_string(y);
		}
	}
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	while (H::More()) {
		for (int i = 0; i < 200 && H::More(); i++)
			Grids();
		Potential();
	}
	return H::Done();
}
