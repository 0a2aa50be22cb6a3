// C06: Reeds-Shepp paths reach the goal and are the best of all words.
#include "common.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
using namespace Planner;
using ReedsShepp::PathSegment;
using ReedsShepp::Solver;

struct Move { int steer; int dir; double len; };      // steer 1 left, 0 straight, -1 right; dir 1 forward, -1 backward
struct Word { std::vector<Move> moves; bool sure; };   // sure: away from the borders of the region where the word applies

static std::string Text(const Pose2d& p)
{
	char b[120];
	snprintf(b, sizeof b, "(%.17g, %.17g, %.17g)", p.x(), p.y(), p.theta);
	return b;
}
static double Mod(double a) { a = std::fmod(a, 2 * M_PI); return a < 0 ? a + 2 * M_PI : a; }
static double Wrap(double a) { return Mod(a + M_PI) - M_PI; }

static void Follow(const std::vector<Move>& ms, double r, double& x, double& y, double& h)
{
	for (auto& m : ms) {
		double l = m.len * m.dir;
		if (m.steer == 0) {
			x += r * l * std::cos(h);
			y += r * l * std::sin(h);
		} else {
			double n = h + m.steer * l;
			x += r * m.steer * (std::sin(n) - std::sin(h));
			y -= r * m.steer * (std::cos(n) - std::cos(h));
			h = n;
		}
	}
}

// The words of Reeds and Shepp for a vehicle of radius 1 at the origin.
static std::vector<Word> Words(double x, double y, double th)
{
	static const char* shape[12] = { "LfSfLf", "LfSfRf", "LfRbLf", "LfRbLb", "LfRfLb", "LfRfLbRb", "LfRbLbRf", "LfRbSbLb", "LfRbSbRb", "LfSfRfLb", "LfSfLfRb", "LfRbSbLbRf" };
	std::vector<Word> out;
	const double e = 1e-6, q = M_PI_2;
	for (int b = 0; b < 12; b++)
		for (int k = 0; k < 4; k++) {
			bool flip = k & 1, mirror = k & 2;
			double gx = flip ? -x : x, gy = mirror ? -y : y, gt = flip != mirror ? -th : th;
			bool last = b == 0 || b == 2 || b == 3 || b == 4 || b == 7 || b == 9;
			double s = last ? 1 : -1, xi = gx - s * std::sin(gt), eta = gy - 1 + s * std::cos(gt), d2 = xi * xi + eta * eta, d = std::sqrt(d2), phi = std::atan2(eta, xi), a;
			double t = 0, u = 0, v = 0;
			std::vector<double> len;
			bool ok = d > e;
			auto inside = [&](double z) { return z > e && z < 2 * M_PI - e; };
			auto half = [&](double z) { return z > e && z < M_PI - e; };
			switch (b) {
			case 0: u = d, t = phi, v = Wrap(gt - t), ok &= half(t) && half(v), len = { t, u, v }; break;
			case 1:
				if (!(ok &= d2 > 4 + e)) break;
				u = std::sqrt(d2 - 4), t = Wrap(phi + std::atan2(2, u)), v = Wrap(t - gt), ok &= half(t) && half(v), len = { t, u, v };
				break;
			case 2: case 3:
				if (!(ok &= d < 4 - e)) break;
				a = std::acos(d / 4), t = Mod(q + a + phi), u = M_PI - 2 * a, v = Mod(b == 2 ? gt - t - u : t + u - gt), len = { t, u, v };
				ok &= b == 2 ? half(t) && half(u) && half(v) : inside(t) && inside(v);
				break;
			case 4:
				if (!(ok &= d < 4 - e)) break;
				u = std::acos((8 - d2) / 8), a = std::asin(std::min(1.0, 2 * std::sin(u) / d)), t = Mod(q - a + phi), v = Mod(t - u - gt), ok &= inside(t) && inside(v) && d > 1e-3, len = { t, u, v };
				break;
			case 5:
				if (!(ok &= d < 4 - e)) break;
				if (d > 2)
					a = std::acos(d / 4 - 0.5), t = Mod(q + phi - a), u = M_PI - a;
				else
					a = std::acos(d / 4 + 0.5), t = Mod(q + phi + a), u = a;
				v = Mod(gt - t + 2 * u), ok &= inside(t) && inside(v) && std::abs(d - 2) > e, len = { t, u, u, v };
				break;
			case 6:
				if (!(ok &= d2 > 4 + e && d2 < 20 - e)) break;
				u = std::acos(1.25 - d2 / 16), a = std::asin(std::min(1.0, 2 * std::sin(u) / d)), t = Mod(q + phi + a), v = Mod(t - gt), ok &= inside(t) && inside(v), len = { t, u, u, v };
				break;
			case 7: case 9:
				if (!(ok &= d2 > 8 + e)) break;
				u = std::sqrt(d2 - 4) - 2;
				if (b == 7)
					t = Mod(q + phi + std::atan2(2, u + 2)), v = Mod(t + q - gt), len = { t, q, u, v };
				else
					t = Mod(q + phi - std::atan2(u + 2, 2)), v = Mod(t - q - gt), len = { t, u, q, v };
				ok &= inside(t) && inside(v);
				break;
			case 8: case 10:
				if (!(ok &= d > 2 + e)) break;
				u = d - 2;
				if (b == 8)
					t = Mod(q + phi), v = Mod(gt - t - q), len = { t, q, u, v };
				else
					t = Mod(phi), v = Mod(gt - t - q), len = { t, u, q, v };
				ok &= inside(t) && inside(v);
				break;
			case 11:
				if (!(ok &= d2 > 20 + e)) break;
				u = std::sqrt(d2 - 4) - 4, t = Mod(q + phi + std::atan2(2, u + 4)), v = Mod(t - gt), ok &= inside(t) && inside(v), len = { t, q, u, q, v };
				break;
			}
			if (!ok)
				continue;
			Word w;
			for (size_t i = 0; i < len.size(); i++) {
				char c = shape[b][2 * i], f = shape[b][2 * i + 1];
				int st = c == 'L' ? 1 : c == 'R' ? -1 : 0, di = f == 'f' ? 1 : -1;
				w.moves.push_back({ mirror ? -st : st, flip ? -di : di, len[i] });
			}
			// a word counts only if it really ends at the goal
			double px = 0, py = 0, ph = 0;
			Follow(w.moves, 1, px, py, ph);
			w.sure = std::hypot(px - x, py - y) < 1e-6 * (1 + std::hypot(x, y)) && std::abs(H::AngDiff(ph, th)) < 1e-6;
			if (w.sure)
				out.push_back(w);
		}
	return out;
}

static double Length(const std::vector<Move>& ms)
{
	double s = 0;
	for (auto& m : ms)
		s += m.len;
	return s;
}
static double Price(const std::vector<Move>& ms, double r, double rev, double fwd, double sw)
{
	double s = 0;
	for (size_t i = 0; i < ms.size(); i++)
		s += ms[i].len * r * (ms[i].dir > 0 ? fwd : rev) + (i && ms[i].dir != ms[i - 1].dir ? sw : 0);
	return s;
}
static std::vector<Move> Moves(const PathSegment& p)
{
	std::vector<Move> ms;
	for (int i = 0; i < (int)PathSegment::numMotion && p.GetMotion(i).IsValid(); i++) {
		auto& m = p.GetMotion(i);
		ms.push_back({ m.steer == Steer::Left ? 1 : m.steer == Steer::Right ? -1 : 0, m.direction == Direction::Forward ? 1 : m.direction == Direction::Backward ? -1 : 0, m.length });
	}
	return ms;
}

static void Segment(const PathSegment& p, const Pose2d& a, const Pose2d& b, double r, double rev, double fwd, double sw, const char* what)
{
	auto ms = Moves(p);
	CHECK((int)ms.size() == p.GetNumMotions(), "count", "%s: the number of motions is wrong", what);
	if (ms.empty())
		return;
	double x = a.x(), y = a.y(), h = a.theta, scale = 1 + r + std::hypot(b.x() - a.x(), b.y() - a.y());
	bool fine = true;
	for (auto& m : ms)
		fine &= m.len >= 0 && std::isfinite(m.len) && m.dir != 0;
	CHECK(fine, "motion", "%s: a motion has a negative length or no direction", what);
	Follow(ms, r, x, y, h);
	CHECK(std::hypot(x - b.x(), y - b.y()) < 2e-6 * scale && std::abs(H::AngDiff(h, b.theta)) < 2e-6, "goal", "%s: the path ends at (%.9g, %.9g, %.9g)", what, x, y, h);
	CHECK(H::Near(p.GetLength(r), Length(ms) * r, 1e-9 * scale), "length", "%s: the stated length %.17g is not the length of the motions %.17g", what, p.GetLength(r), Length(ms) * r);
	double c = Price(ms, r, rev, fwd, sw);
	CHECK(H::Near(p.ComputeCost(r, rev, fwd, sw), c, 1e-4 * (1 + c)), "cost", "%s: the cost is %.9g, the motions are worth %.9g", what, p.ComputeCost(r, rev, fwd, sw), c);
}

static void Request(const Pose2d& a, const Pose2d& b, double r, float rev, float fwd, float sw)
{
	H::Case(20, "from %s to %s radius %.17g reverse %.9g forward %.9g switch %.9g", Text(a).c_str(), Text(b).c_str(), r, rev, fwd, sw);
	double dx = (b.x() - a.x()) / r, dy = (b.y() - a.y()) / r, c = std::cos(a.theta), s = std::sin(a.theta);
	auto words = Words(c * dx + s * dy, -s * dx + c * dy, b.theta - a.theta);
	ReedsShepp::PathWords word = ReedsShepp::PathWords::NoPath, cheap = ReedsShepp::PathWords::NoPath, other = ReedsShepp::PathWords::NoPath;
	std::tuple<double, double, double> out;
	double d = Solver::GetShortestDistance(a, b, r, &other, &out), plain = Solver::GetShortestDistance(a, b, r);
	PathSegment p = Solver::GetShortestPath(a, b, r, &word), o = Solver::GetOptimalPath(a, b, r, rev, fwd, sw, &cheap);
	bool same = a.x() == b.x() && a.y() == b.y() && a.theta == b.theta;
	Segment(p, a, b, r, rev, fwd, sw, "shortest path");
	Segment(o, a, b, r, rev, fwd, sw, "optimal path");
	CHECK(d == plain, "distance", "the shortest distance depends on what else is asked for");
	if (p.GetNumMotions()) {
		CHECK(H::Near(d, p.GetLength(r), 1e-9 * (1 + d)), "distance", "the shortest distance %.17g is not the length of the shortest path %.17g", d, p.GetLength(r));
		CHECK(word == other && ReedsShepp::IsPathWordValid(word), "word", "the word reported with the shortest path is not that of the shortest distance");
	}
	double cost = o.GetNumMotions() ? Price(Moves(o), r, rev, fwd, sw) : INFINITY, len = p.GetNumMotions() ? p.GetLength(r) : INFINITY;
	if (!same) {
		CHECK(words.empty() || p.GetNumMotions(), "none", "no shortest path although a word applies");
		CHECK(words.empty() || o.GetNumMotions(), "none", "no optimal path although a word applies");
	}
	for (auto& w : words) {
		double l = Length(w.moves) * r, q = Price(w.moves, r, rev, fwd, sw);
		CHECK(len <= l * (1 + 1e-5) + 1e-5 * r, "shortest", "the shortest path has length %.9g, a word of length %.9g applies", len, l);
		CHECK(cost <= q * (1 + 1e-4) + 1e-4 * (1 + r), "optimal", "the optimal path costs %.9g, a word of cost %.9g applies", cost, q);
	}
	if (p.GetNumMotions() && std::isfinite(d)) {
		PathReedsShepp path(a, p, r);
		Pose2d f = path.GetFinalState();
		CHECK((f.position - b.position).norm() < 1e-5 * (1 + r + d) && std::abs(H::AngDiff(f.theta, b.theta)) < 1e-5, "path", "the path object ends at %s", Text(f).c_str());
	}
}

static double Angle()
{
	int k = H::RandInt(0, 3);
	return k == 0 ? M_PI_4 * H::RandInt(-3, 4) : H::Rand(-M_PI, M_PI);
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int d = -6; d <= 6; d++)
		if (d) {
			H::Case(10, "straight %d m", d);
			CHECK(H::Near(Solver::GetShortestDistance(Pose2d(0, 0, 0), Pose2d(d, 0, 0), 1.5), std::abs(d), 1e-9), "straight", "the shortest distance to a pose %d m straight ahead is %.17g", d, Solver::GetShortestDistance(Pose2d(0, 0, 0), Pose2d(d, 0, 0), 1.5));
		}
	while (H::More()) {
		double r = H::Coin(0.3) ? 1 : H::Coin(0.2) ? H::Rand(0.05, 0.5) : H::Rand(0.5, 8);
		Pose2d a(0, 0, 0), b;
		if (!H::Coin(0.2))
			a = Pose2d(H::Rand(-20, 20), H::Rand(-20, 20), Angle());
		double reach = r * (H::Coin(0.4) ? 2.5 : H::Coin(0.6) ? 6 : H::Coin(0.5) ? 0.2 : 40);
		b = H::Coin(0.15) ? Pose2d(a.x() + r * H::RandInt(-4, 4), a.y() + r * H::RandInt(-4, 4), Angle()) : Pose2d(a.x() + H::Rand(-reach, reach), a.y() + H::Rand(-reach, reach), Angle());
		// half of the requests are made to lie where a random word ends
		if (H::Coin(0.3)) {
			int n = H::RandInt(1, 5);
			std::vector<Move> ms;
			for (int i = 0; i < n; i++)
				ms.push_back({ H::RandInt(-1, 1), H::Coin() ? 1 : -1, H::Coin(0.2) ? M_PI_2 : H::Rand(0, 3) });
			double x = a.x(), y = a.y(), h = a.theta;
			Follow(ms, r, x, y, h);
			b = Pose2d(x, y, Wrap(h));
		}
		auto mult = [] { return H::Coin(0.4) ? 1.0f : H::Coin(0.1) ? 0.0f : (float)H::Rand(0.1, 6); };
		Request(a, b, r, mult(), mult(), H::Coin(0.4) ? 0.0f : (float)H::Rand(0, 12));
	}
	return H::Done();
}
