#include "common.h"
#include "core/base.h"
#include "state_validator/occupancy_map.h"
using namespace Planner;

struct Map : OccupancyMap {
	using OccupancyMap::OccupancyMap;
	bool IsOccupied(const GridCellPosition&) override { return false; }
};
static bool Close(const Point2d& a, const Point2d& b, double tol) { return (a - b).norm() <= tol; }
static bool Eq(const GridCellPosition& a, int r, int c) { return a.row == r && a.col == c; }

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 1500 || H::g_budget > 5); k++) {
		float res = H::RandInt(0, 2) ? (float)H::Rand(0.05, 2) : (float)std::ldexp(1.0, H::RandInt(-3, 1));
		float w = res * H::Rand(0.6, 30), h = res * H::Rand(0.6, 30);
		bool before = H::Coin(), after = H::Coin();
		Point2d p0(H::Rand(-50, 50), H::Rand(-50, 50)), p1(H::Rand(-50, 50), H::Rand(-50, 50));
		H::Case(20, "resolution %.9g size %.9g x %.9g position before sizing %d (%.17g,%.17g) after %d (%.17g,%.17g)", res, w, h, before, p0.x(), p0.y(), after, p1.x(), p1.y());
		Map m(res);
		if (before)
			m.SetPosition(p0);
		m.InitializeSize(w, h);
		if (after)
			m.SetPosition(p1);
		Point2d o = after ? p1 : before ? p0 : Point2d(0, 0);
		Point2d corner(-w / 2.0, -h / 2.0);
		double tol = 1e-5 * (1 + 100 * res);
		CHECK(Close(m.GetPosition(), o, 0), "position", "the map is not where it was put");
		CHECK(m.Rows() * (double)res >= w - tol && (m.Rows() - 1) * (double)res < w + tol && m.Columns() * (double)res >= h - tol && (m.Columns() - 1) * (double)res < h + tol, "size", "the grid does not cover the map exactly");
		for (int q = 0; q < 40; q++) {
			int r = H::RandInt(-4, m.Rows() + 3), c = H::RandInt(-4, m.Columns() + 3);
			double u = H::Rand(0.01, 0.99), v = H::Rand(0.01, 0.99);
			bool in = r >= 0 && r < m.Rows() && c >= 0 && c < m.Columns();
			Point2d low = corner + Point2d(r * (double)res, c * (double)res);
			Point2d lp = low + Point2d(u, v) * (double)res, wp = lp + o;
			char what[200];
			snprintf(what, sizeof what, "cell (%d,%d) of %dx%d, offset (%.6g,%.6g)", r, c, m.Rows(), m.Columns(), u, v);
			CHECK(Close(m.GridCellToLocalPosition({ r, c }), low, tol) && Close(m.GridCellToLocalPosition(r, c), low, tol), "cell-local", what);
			CHECK(Close(m.GridCellToWorldPosition({ r, c }), low + o, tol) && Close(m.GridCellToWorldPosition(r, c), low + o, tol), "cell-world", what);
			CHECK(Eq(m.LocalPositionToGridCell(lp, false), r, c) && Eq(m.LocalPositionToGridCell(lp.x(), lp.y(), false), r, c), "local-cell", what);
			CHECK(Eq(m.WorldPositionToGridCell(wp, false), r, c) && Eq(m.WorldPositionToGridCell(wp.x(), wp.y(), false), r, c), "world-cell", what);
			int br = in ? r : -1, bc = in ? c : -1;
			CHECK(Eq(m.LocalPositionToGridCell(lp), br, bc) && Eq(m.LocalPositionToGridCell(lp.x(), lp.y(), true), br, bc), "local-bounded", what);
			CHECK(Eq(m.WorldPositionToGridCell(wp), br, bc) && Eq(m.WorldPositionToGridCell(wp.x(), wp.y()), br, bc), "world-bounded", what);
			CHECK(m.IsInsideMap(wp) == in && m.IsInsideMap(GridCellPosition(r, c)) == in, "inside", what);
			CHECK(Close(m.LocalPositionToWorldPosition(lp), wp, 1e-9) && Close(m.LocalPositionToWorldPosition(lp.x(), lp.y()), wp, 1e-9), "local-world", what);
			CHECK(Close(m.WorldPositionToLocalPosition(wp), lp, 1e-9) && Close(m.WorldPositionToLocalPosition(wp.x(), wp.y()), lp, 1e-9), "world-local", what);
		}
	}
	return H::Done();
}
