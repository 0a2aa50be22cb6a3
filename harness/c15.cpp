#include "common.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/grid.h"
using namespace Planner;

static double Angle()
{
	switch (H::RandInt(0, 5)) {
	case 0: return M_PI * H::RandInt(-8, 8);
	case 1: return M_PI / 2 * H::RandInt(-8, 8);
	case 2: return H::Rand(-50, 50);
	case 3: return std::nextafter(M_PI, H::Coin() ? 0 : 10);
	case 4: return -std::nextafter(M_PI, H::Coin() ? 0 : 10);
	default: return H::Rand(-M_PI, M_PI);
	}
}
static bool Same(double a, double b) { return std::abs(H::AngDiff(a, b)) < 1e-9; }
static bool Norm(double t) { return t >= -M_PI - 1e-12 && t <= M_PI + 1e-12; }

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 30000 || H::g_budget > 7); k++) {
		double v[6] = { H::Rand(-20, 20), H::Rand(-20, 20), Angle(), H::Rand(-20, 20), H::Rand(-20, 20), Angle() };
		H::Case(20, "poses (%.17g,%.17g,%.17g) and (%.17g,%.17g,%.17g)", v[0], v[1], v[2], v[3], v[4], v[5]);
		Pose2d a(v[0], v[1], v[2]), b(Point2d(v[3], v[4]), v[5]);
		CHECK(Norm(a.theta) && Same(a.theta, v[2]) && Norm(b.theta) && Same(b.theta, v[5]), "ctor", "a constructed pose has a wrong or unwrapped heading");
		CHECK(a.x() == v[0] && a.y() == v[1] && b.x() == v[3] && b.y() == v[4], "ctor-pos", "a constructed pose has a wrong position");
		Pose2d raw;
		raw.theta = v[2];
		CHECK(Norm(raw.WrapTheta()) && Same(raw.WrapTheta(), v[2]), "wrap", "WrapTheta is not the normalised heading");
		if (v[2] <= M_PI && v[2] >= -M_PI)
			CHECK(raw.WrapTheta() == v[2], "wrap-id", "WrapTheta changes a normalised heading");
		Pose2d s = a + b, d = b - a;
		CHECK(Norm(s.theta) && Same(s.theta, v[2] + v[5]) && Norm(d.theta) && Same(d.theta, v[5] - v[2]), "heading", "a composed pose has a wrong heading");
		CHECK(H::Near(s.x(), v[0] + std::cos(v[2]) * v[3] - std::sin(v[2]) * v[4], 1e-9) && H::Near(s.y(), v[1] + std::sin(v[2]) * v[3] + std::cos(v[2]) * v[4], 1e-9), "compose", "composition of poses is wrong");
		Pose2d back = a + d;
		CHECK(H::Near(back.x(), v[3], 1e-9) && H::Near(back.y(), v[4], 1e-9) && Same(back.theta, v[5]), "inverse", "a + (b - a) is not b");
		Pose2d id(0, 0, 0), l = id + a, r = a + id;
		for (auto& p : { l, r })
			CHECK(H::Near(p.x(), v[0], 1e-9) && H::Near(p.y(), v[1], 1e-9) && Same(p.theta, v[2]), "identity", "composition with the identity changes the pose");
		Pose2d c = a;
		if (H::Coin())
			c.theta += 2 * M_PI * H::RandInt(-1, 1);
		if (H::Coin(0.3))
			c = Pose2d(H::Coin() ? 0.0 : -0.0, v[1], v[2]), a = Pose2d(H::Coin() ? -0.0 : 0.0, v[1], v[2]);
		if (a == c)
			CHECK(std::hash<Pose2d>()(a) == std::hash<Pose2d>()(c), "hash-pose", "equal poses hash differently");
		if (std::equal_to<Pose2d>()(a, c))
			CHECK(std::hash<Pose2d>()(a) == std::hash<Pose2d>()(c), "hash-pose", "equal poses hash differently");
		if (std::equal_to<Point2d>()(a.position, c.position))
			CHECK(std::hash<Point2d>()(a.position) == std::hash<Point2d>()(c.position), "hash-point", "equal points hash differently");
		CHECK((a == c) == (a.x() == c.x() && a.y() == c.y() && a.theta == c.theta) && (a != c) == !(a == c), "eq", "pose equality");
		CHECK(std::equal_to<Pose2d>()(a, a) && !std::equal_to<Pose2d>()(a, Pose2d(a.x(), a.y() + 1, a.theta)) && !std::equal_to<Pose2d>()(a, Pose2d(a.x() + 1, a.y(), a.theta)), "equal_to", "equal_to ignores a coordinate");
		int i[4] = { H::RandInt(-3, 3), H::RandInt(-3, 3), H::RandInt(-3, 3), H::RandInt(-3, 3) };
		GridCellPosition p(i[0], i[1]), q(i[2], i[3]);
		if (p == q)
			CHECK(std::hash<GridCellPosition>()(p) == std::hash<GridCellPosition>()(q), "hash-cell", "equal cells hash differently");
		int h = H::RandInt(-200, 200);
		Pose2i pi(i[0], i[1], h), pj(Point2i(i[0], i[1]), h);
		CHECK(pi.theta == h && pj.theta == h && pi.WrapTheta() == h, "int-heading", "an integer pose changes its heading");
		CHECK(std::equal_to<Pose2i>()(pi, pj) && std::hash<Pose2i>()(pi) == std::hash<Pose2i>()(pj), "hash-int", "equal integer poses hash differently");
		Pose2i pk(i[0], i[1], h + H::RandInt(1, 9));
		CHECK(!(pi == pk) && !std::equal_to<Pose2i>()(pi, pk), "int-eq", "integer poses with different headings compare equal");
	}
	return H::Done();
}
