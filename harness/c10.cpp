#include "common.h"
#include "core/base.h"
#include "state_validator/obstacle.h"
#include "state_validator/occupancy_map.h"
#include "utils/grid.h"
using namespace Planner;
using Cell = std::pair<int, int>;

struct Map : OccupancyMap {
	using OccupancyMap::OccupancyMap;
	bool IsOccupied(const GridCellPosition&) override { return false; }
};
struct Line : Shape {
	using Shape::RasterizeLine;
	void GetGridCellsPosition(const OccupancyMap&, const Pose2d&, std::vector<GridCellPosition>&) override { }
	void GetVerticesPosition(const Pose2d&, std::vector<Point2d>&) override { }
};
static bool Inside(const Map& m, Cell c) { return c.first >= 0 && c.first < m.Rows() && c.second >= 0 && c.second < m.Columns(); }

// The cells a step of the segment between two cells may show: those within half a cell of the ideal line.
struct Ideal {
	Cell a, b;
	long n, dr, dc;
	bool byRow;
	Ideal(Cell a, Cell b) : a(a), b(b), dr(b.first - a.first), dc(b.second - a.second)
	{
		byRow = std::abs(dr) >= std::abs(dc);
		n = std::max(std::abs(dr), std::abs(dc));
	}
	std::vector<Cell> At(long t) const
	{
		std::vector<Cell> out;
		if (!n)
			return { a };
		long sgn = byRow ? (dr > 0 ? 1 : -1) : (dc > 0 ? 1 : -1), minor = byRow ? dc : dr;
		long major = (byRow ? a.first : a.second) + sgn * t, from = byRow ? a.second : a.first;
		long guess = std::lround((double)minor * t / n);
		for (long k = guess - 2; k <= guess + 2; k++)
			if (2 * std::abs(k * n - minor * t) <= n)
				out.push_back(byRow ? Cell(major, from + k) : Cell(from + k, major));
		return out;
	}
	long StepOf(Cell c) const { return n ? std::abs(byRow ? c.first - a.first : c.second - a.second) : 0; }
	bool Has(Cell c) const
	{
		long t = StepOf(c);
		if (t > n)
			return false;
		for (auto& x : At(t))
			if (x == c)
				return true;
		return false;
	}
};

static Cell CellOf(const Map& m, const Point2d& p)
{
	auto c = m.WorldPositionToGridCell(p, false);
	return { c.row, c.col };
}
static bool NearBorder(const Map& m, const Point2d& p, double res)
{
	auto c = CellOf(m, p);
	Point2d q = p - m.GridCellToWorldPosition(c.first, c.second);
	auto f = [&](double v) { return v < 1e-6 * res || v > (1 - 1e-6) * res; };
	return f(q.x()) || f(q.y());
}

static void CheckOutline(const Map& m, const std::vector<Point2d>& vs, const std::vector<GridCellPosition>& cells, size_t skip, const char* sig)
{
	std::set<Cell> got;
	for (size_t i = skip; i < cells.size(); i++)
		got.insert({ cells[i].row, cells[i].col });
	std::vector<Ideal> edges;
	for (size_t i = 0; i < vs.size(); i++)
		edges.emplace_back(CellOf(m, vs[i]), CellOf(m, vs[(i + 1) % vs.size()]));
	bool in = true, on = true, all = true;
	for (auto& c : got) {
		in &= Inside(m, c);
		bool some = false;
		for (auto& e : edges)
			some |= e.Has(c);
		on &= some;
	}
	for (auto& e : edges)
		for (long t = 0; t <= e.n; t++) {
			bool must = true, has = false;
			for (auto& c : e.At(t)) {
				must &= Inside(m, c);
				has |= got.count(c) > 0;
			}
			all &= has || !must;
		}
	CHECK(in, sig, "the outline leaves the map");
	CHECK(on, sig, "a cell of the outline is not on an edge");
	CHECK(all, sig, "a step of an edge has no cell in the outline");
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 6000 || H::g_budget > 5); k++) {
		float res = H::Coin() ? 1.0f : (float)H::Rand(0.1, 2);
		float w = res * H::RandInt(1, 24), h = res * H::RandInt(1, 24);
		Map m(res);
		m.InitializeSize(w, h);
		Point2d at(H::Coin() ? 0 : H::Rand(-20, 20), H::Coin() ? 0 : H::Rand(-20, 20));
		m.SetPosition(at);
		double reach = H::Coin() ? 0.5 : 1.2;
		auto point = [&] { return Point2d(at.x() + H::Rand(-w, w) * reach, at.y() + H::Rand(-h, h) * reach); };
		if (k % 2 == 0) {
			Point2d p = point(), q = H::RandInt(0, 9) ? point() : p;
			if (H::RandInt(0, 4) == 0)
				(H::Coin() ? q.x() : q.y()) = H::Coin() ? p.x() : p.y();
			H::Case(10, "map %gx%g resolution %.9g at (%.17g,%.17g): segment (%.17g,%.17g) to (%.17g,%.17g)", w, h, res, at.x(), at.y(), p.x(), p.y(), q.x(), q.y());
			std::vector<GridCellPosition> cells;
			size_t old = H::RandInt(0, 3);
			for (size_t i = 0; i < old; i++)
				cells.emplace_back(1000 + (int)i, -5);
			Line().RasterizeLine(m, p, q, cells);
			bool kept = cells.size() >= old;
			for (size_t i = 0; kept && i < old; i++)
				kept &= cells[i].row == 1000 + (int)i && cells[i].col == -5;
			if (!CHECK(kept, "kept", "cells already in the output were lost"))
				continue;
			Ideal e(CellOf(m, p), CellOf(m, q));
			bool in = true, on = true, order = true, all = true, touch = true;
			std::set<long> steps;
			int dir = 0;
			for (size_t i = old; i < cells.size(); i++) {
				Cell c(cells[i].row, cells[i].col);
				in &= Inside(m, c);
				on &= e.Has(c);
				steps.insert(e.StepOf(c));
				if (i > old) {
					long d = e.StepOf(c) - e.StepOf({ cells[i - 1].row, cells[i - 1].col });
					order &= d != 0 && (!dir || (d > 0) == (dir > 0));
					dir = d > 0 ? 1 : -1;
					if (std::abs(d) == 1)
						touch &= std::abs(c.first - cells[i - 1].row) <= 1 && std::abs(c.second - cells[i - 1].col) <= 1;
				}
			}
			for (long t = 0; t <= e.n; t++) {
				bool must = true;
				for (auto& c : e.At(t))
					must &= Inside(m, c);
				all &= !must || steps.count(t);
			}
			CHECK(in, "inside", "a cell outside the map is listed");
			CHECK(on, "line", "a cell is more than half a cell from the ideal line or beyond its ends");
			CHECK(order, "order", "the cells are not in order, one per step");
			CHECK(touch, "touch", "consecutive cells do not touch");
			CHECK(all, "dropped", "a step of the segment inside the map has no cell");
			continue;
		}
		// outlines of shapes at a pose
		Ref<Shape> shape;
		std::vector<Point2d> local;
		double size = std::max(w, h) * H::Rand(0.05, 1);
		int kind = H::RandInt(0, 3), n = H::RandInt(3, 9);
		auto regular = [&](double r) { for (int i = 0; i < n; i++) local.emplace_back(r * cos(2 * M_PI * i / n), r * sin(2 * M_PI * i / n)); };
		double other = size * H::Rand(0.1, 1);
		if (kind == 0) {
			for (int i = 0; i < n; i++)
				local.emplace_back(H::Rand(-size, size), H::Rand(-size, size));
			if (H::RandInt(0, 5) == 0)
				local.resize(H::RandInt(1, 2));
			shape = makeRef<PolygonShape>(local);
		} else if (kind == 1) {
			shape = makeRef<RectangleShape>(size, other);
			local = { { size / 2, other / 2 }, { -size / 2, other / 2 }, { -size / 2, -other / 2 }, { size / 2, -other / 2 } };
		} else if (kind == 2) {
			shape = makeRef<RegularPolygonShape>(size, n);
			regular(size);
		} else {
			shape = makeRef<CircleShape>(size, n);
			regular(size / cos(M_PI / n));
		}
		Pose2d pose(point(), H::Rand(-7, 7));
		H::Case(10, "map %gx%g resolution %.9g at (%.17g,%.17g): shape kind %d, %d vertices, size %.17g, at (%.17g,%.17g,%.17g)", w, h, res, at.x(), at.y(), kind, n, size, pose.x(), pose.y(), pose.theta);
		std::vector<Point2d> want;
		for (auto& v : local)
			want.emplace_back(pose.x() + v.x() * cos(pose.theta) - v.y() * sin(pose.theta), pose.y() + v.x() * sin(pose.theta) + v.y() * cos(pose.theta));
		Obstacle o;
		o.SetShape(shape);
		o.SetPose(pose);
		auto vs = o.GetBoundaryWorldPosition();
		bool same = vs.size() == want.size(), border = false;
		for (size_t i = 0; same && i < vs.size(); i++) {
			same &= (vs[i] - want[i]).norm() < 1e-6 * (1 + size);
			border |= NearBorder(m, want[i], res);
		}
		if (!CHECK(same, "vertices", "the vertices are not those of the shape at the pose of the obstacle") || border)
			continue;
		CheckOutline(m, want, o.GetBoundaryGridCellPosition(m), 0, "outline");
		// a composite shape, and an output that already holds cells
		auto both = makeRef<CompositeShape>();
		both->Add(shape);
		auto rect = makeRef<RectangleShape>(other, other);
		both->Add(rect);
		std::vector<GridCellPosition> first, second, cells;
		shape->GetGridCellsPosition(m, pose, first);
		rect->GetGridCellsPosition(m, pose, second);
		cells.emplace_back(77, -3);
		both->GetGridCellsPosition(m, pose, cells);
		std::set<Cell> u, v;
		for (auto* l : { &first, &second })
			for (auto& c : *l)
				u.insert({ c.row, c.col });
		for (size_t i = 1; i < cells.size(); i++)
			v.insert({ cells[i].row, cells[i].col });
		CHECK(!cells.empty() && cells[0].row == 77 && cells[0].col == -3, "kept", "cells already in the output were lost");
		CHECK(u == v, "composite", "a composite shape is not the union of its parts");
	}
	return H::Done();
}
