#include "common.h"
#include "core/base.h"
#include "utils/grid.h"
#include "algo/a_star_n2.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

struct Map : OccupancyMap {
	Map(int r, int c) : OccupancyMap(1.0f) { InitializeSize(r, c); }
	std::vector<char> occ;
	bool IsOccupied(const GridCellPosition& p) override
	{
		if (p.row < 0 || p.col < 0 || p.row >= Rows() || p.col >= Columns()) {
			H::Fail("query-outside", "the search asked for cell (%d,%d) outside the %dx%d grid", p.row, p.col, Rows(), Columns());
			return true;
		}
		return occ[p.row * Columns() + p.col];
	}
};

static void Neighbors(int rows, int cols, int r, int c)
{
	H::Case(20, "neighbours of (%d,%d) in a %dx%d grid", r, c, rows, cols);
	GridCellPosition p(r, c);
	std::vector<std::vector<GridCellPosition>> lists { p.GetNeighbors(rows, cols) };
	if (rows <= 50 && cols <= 50) {
		Grid<int> g(rows, cols, 0);
		lists.push_back(g.GetNeighbors(p));
	}
	for (auto& l : lists) {
		std::multiset<std::pair<int, int>> got, want;
		for (auto& n : l)
			got.insert({ n.row, n.col });
		for (int dr = -1; dr <= 1; dr++)
			for (int dc = -1; dc <= 1; dc++)
				if ((dr || dc) && r + dr >= 0 && r + dr < rows && c + dc >= 0 && c + dc < cols)
					want.insert({ r + dr, c + dc });
		CHECK(got == want, "neighbours", "the neighbour list is not exactly the adjacent cells of the grid");
	}
}

static void Moves(Map& m, int r, int c, int tag)
{
	auto cost = [&](const GridCellPosition& a, const GridCellPosition& b) { return 1000.0 * (a.row * 100 + a.col) + b.row * 37 + b.col + 0.25 + tag; };
	std::string s;
	for (char o : m.occ)
		s += o ? '#' : '.';
	H::Case(20, "moves from (%d,%d) in %dx%d map %s", r, c, m.Rows(), m.Columns(), s.c_str());
	Ref<OccupancyMap> ref(&m, [](OccupancyMap*) {});
	AStarStatePropagatorFcnN2 prop(ref, cost);
	std::map<std::pair<int, int>, double> want;
	auto occ = [&](int a, int b) { return m.occ[a * m.Columns() + b]; };
	for (int dr = -1; dr <= 1; dr++)
		for (int dc = -1; dc <= 1; dc++) {
			int a = r + dr, b = c + dc;
			if ((!dr && !dc) || a < 0 || b < 0 || a >= m.Rows() || b >= m.Columns())
				continue;
			if (occ(a, b) || (dr && dc && occ(a, c) && occ(r, b)))
				continue;
			want[{ a, b }] = cost(GridCellPosition(r, c), GridCellPosition(a, b));
		}
	auto l = prop.GetNeighborStates(GridCellPosition(r, c));
	std::map<std::pair<int, int>, double> got;
	for (auto& [n, act, k] : l)
		CHECK(got.insert({ { n.row, n.col }, k }).second, "twice", "a move is offered twice");
	CHECK(got == want, "moves", "the offered moves (or their costs) are not exactly the legal ones");
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int rows = 1; rows <= 5; rows++)
		for (int cols = 1; cols <= 5; cols++)
			for (int r = 0; r < rows; r++)
				for (int c = 0; c < cols; c++)
					Neighbors(rows, cols, r, c);
	CHECK(GridCellPosition().GetNeighbors(3, 3).empty(), "invalid", "an invalid cell has neighbours");
	CHECK(GridCellPosition(-1, 2).GetNeighbors(3, 3).empty(), "invalid", "an invalid cell has neighbours");
	CHECK(GridCellPosition(2, -1).GetNeighbors(3, 3).empty(), "invalid", "an invalid cell has neighbours");
	for (int a = 0; a < 5; a++)
		for (int b = 0; b < 5; b++)
			for (int c = 0; c < 5; c++)
				for (int d = 0; d < 5; d++) {
					GridCellPosition p(a, b), q(c, d);
					H::Case(20, "predicates (%d,%d) (%d,%d)", a, b, c, d);
					CHECK((p == q) == (a == c && b == d) && (p != q) == !(a == c && b == d), "eq", "cell equality");
					CHECK(p.IsAdjacentTo(q) == ((a != c || b != d) && std::abs(a - c) <= 1 && std::abs(b - d) <= 1), "adjacent", "IsAdjacentTo");
					CHECK(p.IsDiagonalTo(q) == (a != c && b != d), "diagonal", "IsDiagonalTo");
				}
	{
		Map m(3, 3);
		for (int bits = 0; bits < 512; bits++) {
			m.occ.assign(9, 0);
			for (int i = 0; i < 9; i++)
				m.occ[i] = bits >> i & 1;
			for (int i = 0; i < 9; i++)
				Moves(m, i / 3, i % 3, bits);
		}
	}
	for (int k = 0; H::More() && (k < 3000 || H::g_budget > 7); k++) {
		int rows = H::RandInt(1, 9), cols = H::RandInt(1, 9);
		Map m(rows, cols);
		m.occ.resize(m.Rows() * m.Columns());
		double d = H::Rand(0, 0.8);
		for (auto& o : m.occ)
			o = H::Coin(d);
		Moves(m, H::RandInt(0, rows - 1), H::RandInt(0, cols - 1), k);
		int R = H::RandInt(1, 2000), C = H::RandInt(1, 2000);
		Neighbors(R, C, H::Coin() ? R - 1 : H::RandInt(0, R - 1), H::Coin() ? 0 : H::RandInt(0, C - 1));
	}
	return H::Done();
}
