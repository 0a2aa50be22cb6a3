// C17: vehicle motions respect the turning radius and are priced correctly.
#include "vehicle.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;

static void Model()
{
	double L = H::Rand(0.5, 4), rear = H::Coin(0.4) ? 0 : H::Rand(0, L), steer = H::Coin(0.2) ? 0 : H::Coin(0.1) ? H::Rand(-1e-8, 1e-8) : H::Rand(-1.2, 1.2);
	double d = H::Coin(0.1) ? 0 : H::Rand(0, 12);
	Direction dir = H::Coin() ? Direction::Forward : Direction::Backward;
	Pose2d from(H::Rand(-50, 50), H::Rand(-50, 50), H::Rand(-M_PI, M_PI));
	H::Case(10, "bicycle model wheelbase %.17g rear %.17g from %s steering %.17g distance %.17g direction %d", L, rear, PoseText(from).c_str(), steer, d, (int)dir);
	KinematicBicycleModel m(L, rear);
	Pose2d to = m.ConstantSteer(from, steer, d, dir);
	double s = dir == Direction::Forward ? d : -d;
	double beta = std::atan(rear * std::tan(steer) / L), k = std::cos(beta) * std::tan(steer) / L, arc = s / std::cos(beta);
	CHECK(H::Near(H::AngDiff(to.theta, from.theta + arc * k), 0, 1e-7), "heading", "the heading does not turn by the distance over the turning radius");
	CHECK(std::abs(to.theta) <= M_PI + 1e-9, "wrap", "the heading is not normalised");
	if (std::abs(k) > 1e-7) {
		double t = from.theta + arc * k;
		CHECK(H::Near(to.x(), from.x() + (std::sin(beta + t) - std::sin(beta + from.theta)) / k, 1e-6 / std::min(1.0, std::abs(k))) && H::Near(to.y(), from.y() - (std::cos(beta + t) - std::cos(beta + from.theta)) / k, 1e-6 / std::min(1.0, std::abs(k))), "circle", "the motion does not stay on its circle");
	} else if (rear == 0)
		CHECK(H::Near(to.x(), from.x() + s * std::cos(from.theta), 1e-5) && H::Near(to.y(), from.y() + s * std::sin(from.theta), 1e-5), "straight", "the motion is not straight");
	Pose2d back = m.ConstantSteer(to, steer, d, dir == Direction::Forward ? Direction::Backward : Direction::Forward);
	double tol = std::abs(k) > 1e-9 ? 1e-9 / std::abs(k) + 1e-6 : 1e-6;
	if (std::abs(k) > 1e-7 || std::abs(k) < 1e-10)
		CHECK(H::Near(back.x(), from.x(), tol) && H::Near(back.y(), from.y(), tol) && H::Near(H::AngDiff(back.theta, from.theta), 0, 1e-7), "back", "driving the motion backwards does not return to its start");
	double r = rear + H::Rand(0.05, 10), a = m.GetSteeringAngleFromTurningRadius(r);
	CHECK(a > 0 && a < M_PI_2 && H::Near(std::tan(a) * std::sqrt(r * r - rear * rear), L, 1e-6 * L), "radius", "the steering angle does not drive the given radius");
	PathConstantSteer p(makeRef<KinematicBicycleModel>(L, rear), from, steer, d, dir);
	CHECK((p.GetFinalState().position - to.position).norm() < 1e-9 && p.GetLength() == d && p.GetDirection(0.5) == dir && p.GetSteeringAngle() == steer, "path", "a constant-steering path is not the motion of the model");
}

static void Search()
{
	double minR = H::Rand(1, 4), sw = H::Coin(0.3) ? 0 : H::Rand(0, 5), rev = H::Coin(0.3) ? 1 : H::Rand(0.3, 4), fwd = H::Coin(0.3) ? 1 : H::Rand(0.3, 4);
	unsigned n = H::Coin(0.4) ? 5 : H::RandInt(2, 9);
	double res = H::Rand(0.6, 1.5), ang = H::Rand(0.1, 0.3);
	World w(4, H::RandInt(0, 5), 0.3f);
	HybridAStar::SearchParameters prm(minR, sw, rev, fwd, 0.0, n, res, ang);
	Pose2d a = w.FreePose(), b = w.FreePose();
	if (!w.validator->IsStateValid(a) || !w.validator->IsStateValid(b))
		return;
	H::Case(60, "search %s radius %.17g switch %.17g reverse %.17g forward %.17g motions %u resolution %.17g %.17g from %s to %s", w.desc.c_str(), minR, sw, rev, fwd, n, res, ang, PoseText(a).c_str(), PoseText(b).c_str());
	HybridAStar h(prm);
	if (!h.Initialize(w.validator))
		return;
	h.SetInitState(a);
	h.SetGoalState(b);
	auto status = h.SearchPath();
	auto model = makeRef<KinematicBicycleModel>(prm.wheelbase, 0.0);
	auto close = [](const Pose2d& p, const Pose2d& q, double t) { return (p.position - q.position).norm() < t && std::abs(H::AngDiff(p.theta, q.theta)) < t; };
	auto paths = h.GetGraphSearchExploredPathSet();
	double maxAbs = 0, most = 0;
	for (auto& p : paths) {
		auto c = std::dynamic_pointer_cast<PathConstantSteer>(p);
		if (!c) {
			CHECK(w.validator->IsPathValid(*p), "rs-valid", "a Reeds-Shepp motion was offered that the validator rejects");
			// never tighter than the minimum radius
			int m = 40;
			for (int i = 0; i < m; i++) {
				Pose2d x = p->Interpolate(i / (double)m), y = p->Interpolate((i + 1.0) / m);
				CHECK(std::abs(H::AngDiff(x.theta, y.theta)) <= p->GetLength() / m / minR + 1e-6, "rs-radius", "a Reeds-Shepp motion turns tighter than the minimum turning radius");
			}
			continue;
		}
		double k = std::abs(std::tan(c->GetSteeringAngle())) / prm.wheelbase;
		maxAbs = std::max(maxAbs, k);
		most = std::max(most, c->GetLength());
		CHECK(k <= 1 / minR + 1e-9, "radius-limit", "a motion turns tighter than the minimum turning radius");
		CHECK(std::abs(H::AngDiff(c->GetInitialState().theta, c->GetFinalState().theta)) <= c->GetLength() / minR + 1e-6, "turn-limit", "a motion turns through more than its length over the minimum turning radius");
		PathConstantSteer full(model, c->GetInitialState(), c->GetSteeringAngle(), res * 1.5, c->GetDirection(0));
		float ratio = 0;
		if (w.validator->IsPathValid(full, &ratio))
			CHECK(H::Near(c->GetLength(), res * 1.5, 1e-6), "length", "an accepted motion was shortened or lengthened");
		else
			CHECK(H::Near(c->GetLength(), res * 1.5 * ratio, 1e-6), "accepted-part", "a rejected motion was not reduced to its accepted part");
		CHECK(w.validator->IsStateValid(c->GetFinalState()) || w.validator->IsStateValid(c->Interpolate(1 - 1e-5)) || w.validator->IsStateValid(c->Interpolate(1 + 1e-5)), "end-valid", "a motion ends at a state that the validator rejects");
	}
	// the motions offered from the start
	if (!close(a, b, 2e-3)) {
		double lim = std::atan(prm.wheelbase / minR);
		for (int dir = 0; dir < 2; dir++)
			for (double want : { 0.0, lim, -lim }) {
				PathConstantSteer full(model, a, want, res * 1.5, (Direction)dir);
				if (!w.validator->IsPathValid(full))
					continue;
				// another motion of the start may have been kept for the same cell of the search
				auto samecell = [&](const Pose2d& p) {
					auto same = [](double x, double y, double r) { return (int)(x / r) == (int)(y / r) || std::abs(std::remainder(x, r)) < 1e-6 || std::abs(std::remainder(y, r)) < 1e-6; };
					const Pose2d& f = full.GetFinalState();
					return same(p.x(), f.x(), res) && same(p.y(), f.y(), res) && (same(p.theta, f.theta, ang) || std::abs(H::AngDiff(p.theta, f.theta)) < 1e-6);
				};
				bool found = samecell(a);
				for (auto& p : paths)
					if (close(p->GetFinalState(), full.GetFinalState(), 2e-3) || (close(p->GetInitialState(), a, 1e-9) && samecell(p->GetFinalState())))
						found = true;
				CHECK(found, want == 0 ? "no-straight" : want > 0 ? "no-left" : "no-right", "an accepted motion of the start is not offered");
			}
	}
	if (status < 0)
		return;
	double cost = 0;
	Direction prev = Direction::NoMotion;
	for (auto& p : h.GetGraphSearchPath()) {
		auto mult = [&](Direction d) { return d == Direction::Forward ? fwd : d == Direction::Backward ? rev : 0; };
		if (std::dynamic_pointer_cast<PathConstantSteer>(p)) {
			Direction d = p->GetDirection(0);
			cost += mult(d) * p->GetLength() + (prev != Direction::NoMotion && prev != d ? sw : 0);
		} else {
			double from = 0;
			for (double c : p->GetCuspPointRatios()) {
				cost += mult(p->GetDirection((from + c) / 2)) * (c - from) * p->GetLength() + sw;
				from = c;
			}
			cost += mult(p->GetDirection((from + 1) / 2)) * (1 - from) * p->GetLength();
		}
		prev = p->GetDirection(1.0);
	}
	CHECK(H::Near(cost, h.GetGraphSearchOptimalCost(), 1e-4 * (1 + cost)), "price", "the cost of the path is not the sum of its priced motions");
}

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	Random<double>::Init();
	for (int i = 0; i < 2000; i++)
		Model();
	int n = 0;
	for (; H::More() && (n < 400 || H::g_budget > 20); n++)
		Search();
	printf("STAT searches %d\n", n);
	return H::Done();
}
