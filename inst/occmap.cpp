#include "state_validator/occupancy_map.cpp"
namespace PlannerSpec {
	using namespace Planner;
	GridCellPosition LocalRoundTrip(const OccupancyMap& m, const GridCellPosition& cell, double u, double v) { return m.LocalPositionToGridCell(m.GridCellToLocalPosition(cell) + Point2d(u, v), false); }
	GridCellPosition WorldRoundTrip(const OccupancyMap& m, const GridCellPosition& cell, double u, double v) { return m.WorldPositionToGridCell(m.GridCellToWorldPosition(cell) + Point2d(u, v), false); }
	Point2d LocalWorldLocal(const OccupancyMap& m, const Point2d& p) { return m.WorldPositionToLocalPosition(m.LocalPositionToWorldPosition(p)); }
	Point2d WorldLocalWorld(const OccupancyMap& m, const Point2d& p) { return m.LocalPositionToWorldPosition(m.WorldPositionToLocalPosition(p)); }
	Point2d LocalWorldLocal2(const OccupancyMap& m, double x, double y)
	{
		Point2d w = m.LocalPositionToWorldPosition(x, y);
		return m.WorldPositionToLocalPosition(w.x(), w.y());
	}
	GridCellPosition CellOfLocal(const OccupancyMap& m, const Point2d& p, bool bounded) { return m.LocalPositionToGridCell(p, bounded); }
	GridCellPosition CellOfLocal2(const OccupancyMap& m, const Point2d& p, bool bounded) { return m.LocalPositionToGridCell(p.x(), p.y(), bounded); }
	GridCellPosition CellOfWorldOfLocal(const OccupancyMap& m, const Point2d& p, bool bounded) { return m.WorldPositionToGridCell(m.LocalPositionToWorldPosition(p), bounded); }
	GridCellPosition CellOfWorldOfLocal2(const OccupancyMap& m, const Point2d& p, bool bounded)
	{
		Point2d w = m.LocalPositionToWorldPosition(p);
		return m.WorldPositionToGridCell(w.x(), w.y(), bounded);
	}
	Point2d WorldOfCellMinusLocal(const OccupancyMap& m, const GridCellPosition& c) { return m.GridCellToWorldPosition(c) - m.LocalPositionToWorldPosition(m.GridCellToLocalPosition(c)); }
	Point2d WorldOfCellMinusLocal2(const OccupancyMap& m, int r, int c) { return m.GridCellToWorldPosition(r, c) - m.LocalPositionToWorldPosition(m.GridCellToLocalPosition(r, c)); }
	bool InsideIffCellInside(const OccupancyMap& m, const Point2d& p) { return m.IsInsideMap(p) == m.IsInsideMap(m.WorldPositionToGridCell(p, false)); }
	GridCellPosition DefaultBounded(const OccupancyMap& m, const Point2d& p) { return m.WorldPositionToGridCell(p); }
}
