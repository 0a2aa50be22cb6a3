#include "common.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
using namespace Planner;
using Cell = std::pair<int, int>;

struct Known {
	Ref<Obstacle> obstacle;
	std::set<Cell> cells;
	bool in = false;
	int id = -1;
};

static Ref<Obstacle> RandomObstacle(double half)
{
	auto o = makeRef<Obstacle>();
	double s = H::Rand(0.2, half);
	if (H::Coin())
		o->SetShape(makeRef<RectangleShape>(s, H::Rand(0.2, half)));
	else
		o->SetShape(makeRef<RegularPolygonShape>(s, H::RandInt(3, 6)));
	o->SetPose(Pose2d(H::Rand(-half, half) * 1.2, H::Rand(-half, half) * 1.2, H::Rand(-4, 4)));
	return o;
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 300 || H::g_budget > 5); k++) {
		double half = H::Rand(2, 6);
		ObstacleListOccupancyMap m(1.0f);
		m.InitializeSize(2 * half, 2 * half);
		std::vector<Known> all(H::RandInt(1, 6));
		for (auto& o : all) {
			o.obstacle = RandomObstacle(half);
			if (H::Coin(0.2) && &o != &all[0])
				*o.obstacle = *all[0].obstacle;   // exactly the same place, another object
			for (auto& c : o.obstacle->GetBoundaryGridCellPosition(m))
				o.cells.insert({ c.row, c.col });
		}
		std::string log;
		for (int step = 0, n = H::RandInt(1, 25); step < n; step++) {
			int i = H::RandInt(0, (int)all.size() - 1);
			bool add = H::Coin(0.55);
			auto& o = all[i];
			log += (add ? " +" : " -") + std::to_string(i);
			H::Case(20, "map case %d, %zu obstacles, operations%s", k, all.size(), log.c_str());
			bool ok = add ? m.AddObstacle(o.obstacle) : m.RemoveObstacle(o.obstacle);
			CHECK(ok == (add ? !o.in : o.in), "refused", "an addition or removal is accepted or refused wrongly");
			o.in = add;
			int count = 0;
			for (auto& p : all)
				count += p.in;
			CHECK(m.GetNumObstacles() == count, "count", "wrong number of obstacles");
			if (H::Coin(0.2))
				m.Update();
			std::map<int, int> owner;   // identifier -> obstacle
			std::vector<int> id(all.size(), -1);
			bool good = true, named = true, distinct = true;
			for (int pass = 0; pass < 2; pass++)
				for (int r = 0; r < m.Rows(); r++)
					for (int c = 0; c < m.Columns(); c++) {
						std::vector<int> on;
						for (int j = 0; j < (int)all.size(); j++)
							if (all[j].in && all[j].cells.count({ r, c }))
								on.push_back(j);
						int v = m.GetOccupancyValue(r, c);
						good &= m.IsOccupied({ r, c }) == !on.empty() && (v >= 0) == !on.empty();
						if (pass == 0 && on.size() == 1) {
							// only this obstacle covers the cell: the value is its identifier
							int j = on[0];
							named &= id[j] < 0 || id[j] == v;
							id[j] = v;
							distinct &= !owner.count(v) || owner[v] == j;
							owner[v] = j;
						}
						if (pass == 1 && on.size() > 1) {
							bool some = false;
							for (int j : on)
								some |= id[j] < 0 || id[j] == v;
							named &= some;
						}
					}
			CHECK(good, "occupied", "a cell is reported occupied although no obstacle of the map covers it, or free although one does");
			CHECK(named, "named", "the value of a cell is not the identifier of an obstacle that covers it");
			CHECK(distinct, "distinct", "two obstacles of the map have the same identifier");
			for (int j = 0; j < (int)all.size(); j++) {
				if (!all[j].in)
					all[j].id = -1;
				else if (id[j] >= 0) {
					CHECK(all[j].id < 0 || all[j].id == id[j], "changed", "the identifier of an obstacle changed");
					all[j].id = id[j];
				}
			}
			if (H::g_fails)
				return H::Done();
		}
	}
	return H::Done();
}
