#include "common.h"
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_constant_steer.h"
#include "paths/path_r2.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_se2.h"
using namespace Planner;

static bool Close(const Pose2d& a, const Pose2d& b, double tol) { return (a.position - b.position).norm() <= tol && std::abs(H::AngDiff(a.theta, b.theta)) <= tol; }
static bool Close(const Point2d& a, const Point2d& b, double tol) { return (a - b).norm() <= tol; }
static double Pick01()
{
	switch (H::RandInt(0, 5)) {
	case 0: return 0;
	case 1: return 1;
	case 2: return std::ldexp(1.0, -H::RandInt(1, 6));
	default: return H::Rand(0, 1);
	}
}
static Pose2d RandPose() { return Pose2d(H::Rand(-10, 10), H::Rand(-10, 10), H::Rand(-M_PI, M_PI)); }

// What every elementary path promises; `make` builds a fresh copy, `dist` is the length it should state.
template <typename S>
static void Generic(const std::function<Ref<Path<S>>()>& make, const S& from, const S& to, bool knowEnd, double len)
{
	const double tol = 1e-7;
	auto q = make();
	CHECK(Close(q->GetInitialState(), from, 1e-12), "initial", "the initial state is not the one the path was built from");
	CHECK(Close(q->Interpolate(0.0), from, 1e-9), "ratio0", "ratio 0 is not the initial state");
	CHECK(Close(q->Interpolate(1.0), q->GetFinalState(), 1e-9), "ratio1", "ratio 1 is not the final state");
	if (knowEnd)
		CHECK(Close(q->GetFinalState(), to, tol), "final", "the path does not end at its goal");
	CHECK(H::Near(q->GetLength(), len, 1e-9 * (1 + len)), "length", "the stated length is not the distance travelled");
	double r = Pick01(), r2 = Pick01();
	for (int twice = 0; twice < 2; twice++) {
		auto p = make();
		p->Truncate(r);
		double rr = r;
		if (twice) {
			p->Truncate(r2);
			rr = r * r2;
		}
		char what[120];
		snprintf(what, sizeof what, "after truncation at %.17g%s %.17g", r, twice ? " then" : ", not", r2);
		CHECK(Close(p->GetInitialState(), from, 1e-12), "cut-initial", what);
		CHECK(Close(p->GetFinalState(), q->Interpolate(rr), tol), "cut-final", what);
		CHECK(H::Near(p->GetLength(), rr * len, 1e-9 * (1 + len)), "cut-length", what);
		for (int k = 0; k < 8; k++) {
			double s = Pick01();
			CHECK(Close(p->Interpolate(s), q->Interpolate(rr * s), tol), "cut-interpolate", what);
			auto several = p->Interpolate(std::vector<double> { s, 0.5 });
			CHECK(several.size() == 2 && Close(several[0], p->Interpolate(s), 1e-12) && Close(several[1], p->Interpolate(0.5), 1e-12), "several", what);
		}
	}
}

struct Step { Steer steer; Direction dir; double len; };

static Pose2d Drive(Pose2d p, const Step& m, double x, double R)
{
	double d = m.dir == Direction::Backward ? -x : x;
	double th = p.theta;
	if (m.steer == Steer::Straight)
		return Pose2d(p.x() + d * cos(th), p.y() + d * sin(th), th);
	double s = m.steer == Steer::Left ? 1 : -1;
	double a = s * d / R;
	return Pose2d(p.x() + s * R * (sin(th + a) - sin(th)), p.y() + s * R * (cos(th) - cos(th + a)), th + a);
}

static void ReedsSheppCase()
{
	double R = H::Rand(0.3, 6);
	std::vector<Step> ms;
	int n = H::RandInt(0, 5);
	std::string desc;
	for (int i = 0; i < n; i++) {
		Step m { (Steer)H::RandInt(0, 2), (Direction)H::RandInt(0, 1), H::RandInt(0, 6) == 0 ? 0.0 : H::Coin(0.3) ? H::RandInt(1, 4) * 0.5 : H::Rand(0.01, 2) };
		ms.push_back(m);
		char b[60];
		snprintf(b, sizeof b, "%c%c%.17g ", "LSR"[(int)m.steer], "fb"[(int)m.dir], m.len);
		desc += b;
	}
	Pose2d from = RandPose();
	H::Case(10, "Reeds-Shepp path from (%.17g,%.17g,%.17g) radius %.17g motions %s", from.x(), from.y(), from.theta, R, desc.c_str());
	ReedsShepp::PathSegment seg;
	double len = 0;
	for (auto& m : ms) {
		seg.AddMotion(m.steer, m.dir, m.len);
		len += m.len * R;
	}
	auto make = [&]() -> Ref<Path<Pose2d>> { return makeRef<PathReedsShepp>(from, seg, R); };
	Pose2d end = from;
	for (auto& m : ms)
		end = Drive(end, m, m.len * R, R);
	Generic<Pose2d>(make, from, end, true, len);
	PathReedsShepp q(from, seg, R), p(from, seg, R);
	CHECK(q.GetMinTurningRadius() == R, "radius", "the turning radius is not the given one");
	double cut = Pick01();
	p.Truncate(cut);
	for (int k = 0; k < 12; k++) {
		double s = Pick01();
		double x = s * len;
		// the motion in force, and whether x is away from every junction
		Pose2d at = from;
		double acc = 0;
		Direction dir = Direction::NoMotion;
		bool clear = true;
		bool found = len == 0;
		for (auto& m : ms) {
			double l = m.len * R;
			if (std::abs(x - acc) < 1e-6 || std::abs(x - acc - l) < 1e-6)
				clear = false;
			if (!found && x <= acc + l && l > 0) {
				at = Drive(at, m, x - acc, R);
				dir = m.dir;
				found = true;
			} else if (!found)
				at = Drive(at, m, l, R);
			acc += l;
		}
		char what[80];
		snprintf(what, sizeof what, "ratio %.17g (cut %.17g)", s, cut);
		CHECK(Close(q.Interpolate(s), at, 1e-6), "pose-at-distance", what);
		if (clear)
			CHECK(q.GetDirection(s) == dir, "direction", what);
		if (len > 0 && cut > 0) {
			bool away = true;
			double a = 0;
			for (auto& m : ms) {
				if (std::abs(a - s * cut * len) < 1e-6 || std::abs(a + m.len * R - s * cut * len) < 1e-6)
					away = false;
				a += m.len * R;
			}
			if (away)
				CHECK(p.GetDirection(s) == q.GetDirection(s * cut), "cut-direction", what);
		}
	}
	if (len > 0) {
		std::vector<double> want;
		double a = 0;
		for (int i = 0; i < n; i++) {
			if (i && ms[i].dir != ms[i - 1].dir)
				want.push_back(a / len);
			a += ms[i].len * R;
		}
		auto same = [](const std::set<double>& got, const std::vector<double>& w) {
			for (double g : got)
				if (std::none_of(w.begin(), w.end(), [&](double x) { return std::abs(x - g) < 1e-9; }))
					return false;
			for (double x : w)
				if (std::none_of(got.begin(), got.end(), [&](double g) { return std::abs(x - g) < 1e-9; }))
					return false;
			return true;
		};
		bool atEnd = std::any_of(want.begin(), want.end(), [&](double w) { return w > 1 - 1e-9; });
		if (!atEnd)
			CHECK(same(q.GetCuspPointRatios(), want), "cusps", "the cusps are not the places where the direction changes");
		std::vector<double> left;
		bool border = cut == 0;
		for (double w : want) {
			if (w < cut)
				left.push_back(w / cut);
			if (std::abs(w - cut) < 1e-9)
				border = true;
		}
		if (!border && !atEnd)
			CHECK(same(p.GetCuspPointRatios(), left), "cut-cusps", "the cusps of the truncated path are not those before the cut");
	}
}

static void SteerCase()
{
	auto model = makeRef<KinematicBicycleModel>(H::Rand(0.5, 4), H::Coin() ? 0.0 : H::Rand(0, 1));
	Pose2d from = RandPose();
	double delta = H::Coin(0.2) ? 0.0 : H::Rand(-0.7, 0.7), len = H::Coin(0.1) ? 0 : H::Rand(0, 8);
	Direction dir = (Direction)H::RandInt(0, 1);
	H::Case(10, "constant steering from (%.17g,%.17g,%.17g) steering %.17g length %.17g direction %d", from.x(), from.y(), from.theta, delta, len, (int)dir);
	auto make = [&]() -> Ref<Path<Pose2d>> { return makeRef<PathConstantSteer>(model, from, delta, len, dir); };
	Generic<Pose2d>(make, from, model->ConstantSteer(from, delta, len, dir), true, len);
	PathConstantSteer p(model, from, delta, len, dir);
	CHECK(p.GetSteeringAngle() == delta, "steering", "the steering angle is not the given one");
	double r = Pick01(), s = Pick01();
	CHECK(p.GetDirection(s) == dir, "cs-direction", "the direction is not the given one");
	CHECK(Close(p.Interpolate(s), model->ConstantSteer(from, delta, s * len, dir), 1e-7), "cs-pose", "the pose at a ratio is not the one reached after that distance");
	p.Truncate(r);
	CHECK(p.GetDirection(s) == dir && p.GetSteeringAngle() == delta, "cs-cut-direction", "truncation changed the direction or the steering");
	CHECK(p.GetCuspPointRatios().empty(), "cs-cusps", "a motion without change of direction reports a cusp");
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 3000 || H::g_budget > 6); k++) {
		Point2d a(H::Rand(-9, 9), H::Rand(-9, 9)), b = H::Coin(0.1) ? a : Point2d(H::Rand(-9, 9), H::Rand(-9, 9));
		H::Case(10, "segment (%.17g,%.17g)-(%.17g,%.17g)", a.x(), a.y(), b.x(), b.y());
		Generic<Point2d>([&] { return makeRef<PathR2>(a, b); }, a, b, true, (b - a).norm());
		auto c2 = PathConnectionR2().Connect(a, b);
		CHECK(c2 && Close(c2->GetInitialState(), a, 1e-12) && Close(c2->GetFinalState(), b, 1e-12), "connect", "a connection does not join the two states");
		Pose2d pa = RandPose(), pb = H::Coin(0.1) ? pa : RandPose();
		H::Case(10, "pose line (%.17g,%.17g,%.17g)-(%.17g,%.17g,%.17g)", pa.x(), pa.y(), pa.theta, pb.x(), pb.y(), pb.theta);
		Generic<Pose2d>([&] { return makeRef<PathSE2>(pa, pb); }, pa, pb, true, (pb.position - pa.position).norm());
		auto c3 = PathConnectionSE2().Connect(pa, pb);
		CHECK(c3 && Close(c3->GetInitialState(), pa, 1e-12) && Close(c3->GetFinalState(), pb, 1e-9), "connect", "a connection does not join the two states");
		double s = Pick01();
		PathSE2 line(pa, pb);
		CHECK((line.Interpolate(s).position - (pa.position + s * (pb.position - pa.position))).norm() < 1e-9, "line", "a pose line is not straight");
		SteerCase();
		ReedsSheppCase();
	}
	return H::Done();
}
