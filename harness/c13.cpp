// C13: validated states and paths keep clear of obstacles and bounds.
#include "vehicle.h"
#include "paths/path_se2.h"
#include "state_validator/state_validator_free.h"
#include "state_validator/gvd.h"
#include "models/kinematic_bicycle_model.h"
using namespace Planner;

// Any path: a polyline followed by ratio; records where it is looked at.
struct Spy : PathSE2Base {
	std::vector<Pose2d> pts;
	mutable std::vector<double> seen;
	Spy(const std::vector<Pose2d>& p, double len) :
		PathSE2Base(p[0], len), pts(p) { m_final = p.back(); }
	Pose2d At(double r) const
	{
		double x = std::clamp(r, 0.0, 1.0) * (pts.size() - 1);
		size_t i = std::min((size_t)x, pts.size() - 2);
		double f = x - i;
		Pose2d s;
		s.position = pts[i].position + (pts[i + 1].position - pts[i].position) * f;
		s.theta = f < 1 ? pts[i].theta : pts[i + 1].theta;
		return s;
	}
	Pose2d Interpolate(double r) const override
	{
		seen.push_back(r);
		return At(r);
	}
	void Truncate(double) override { }
};

struct Oracle {
	World& w;
	// clearance of a state, or -1 when it is not acceptable; margin = how close the decision is
	double Clear(const Pose2d& s, bool& ok, bool& sure)
	{
		auto& b = w.space->bounds;
		double lx = s.x() - w.origin.x(), ly = s.y() - w.origin.y(), e = 1e-9;
		double border = std::min({ lx - b[0].x(), b[1].x() - lx, ly - b[0].y(), b[1].y() - ly });
		double res = w.map->resolution;
		double gx = (lx - b[0].x()) / res, gy = (ly - b[0].y()) / res;
		int i = std::floor(gx), j = std::floor(gy);
		sure = std::abs(border) > 1e-6 && std::abs(gx - std::round(gx)) > 1e-6 && std::abs(gy - std::round(gy)) > 1e-6 && std::abs(std::abs(s.theta) - M_PI) > 1e-6;
		ok = border >= 0 && std::abs(std::remainder(s.theta, 2 * M_PI)) <= M_PI + e && i >= 0 && j >= 0 && i < w.map->Rows() && j < w.map->Columns();
		if (s.theta < b[0].theta || s.theta > b[1].theta)
			sure = sure && std::abs(s.theta) < M_PI;
		if (std::abs(s.theta) < M_PI && (s.theta < b[0].theta || s.theta > b[1].theta))
			ok = false;
		if (!ok)
			return -1;
		auto o = w.map->GetObstacleDistanceMap()->GetNearestObstacleCell(i, j);
		double d = o.row < 0 ? 1e9 : std::hypot(o.row - i, o.col - j) * res;
		sure = sure && std::abs(d - w.validator->minSafeRadius) > 1e-4;
		ok = d >= w.validator->minSafeRadius;
		return std::min(border, d - w.validator->minSafeRadius);
	}
};

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	while (H::More()) {
		bool narrow = H::Coin(0.3);
		double tlo = narrow ? H::Rand(-3, 0) : -M_PI, thi = narrow ? H::Rand(0, 3) : M_PI;
		World w(H::Coin() ? 5 : H::Rand(2, 8), H::RandInt(0, 6), H::Coin(0.2) ? 0 : H::Rand(0.05, 1.0), H::Coin(0.4), tlo, thi);
		w.validator->minPathInterpolationDistance = H::Coin() ? 0.1f : H::Rand(0.02, 0.7);
		Oracle o { w };
		bool ok, sure;
		for (int k = 0; k < 60; k++) {
			double e = w.half * 1.2;
			Pose2d s(w.origin.x() + H::Rand(-e, e), w.origin.y() + H::Rand(-e, e), H::Rand(-M_PI, M_PI));
			if (H::Coin(0.2))
				s.x() = w.origin.x() + (H::Coin() ? 1 : -1) * w.half * (1 + H::Rand(-1e-3, 1e-3));
			if (H::Coin(0.2))
				s.y() = w.origin.y() + (H::Coin() ? 1 : -1) * w.half * (1 + H::Rand(-1e-3, 1e-3));
			H::Case(10, "state %s heading bounds %.17g %.17g | %s", PoseText(s).c_str(), w.space->bounds[0].theta, w.space->bounds[1].theta, w.desc.c_str());
			o.Clear(s, ok, sure);
			bool v = w.validator->IsStateValid(s);
			if (sure)
				CHECK(v == ok, ok ? "state-refused" : "state-accepted", "the state is not judged by bounds, map and obstacle distance");
		}
		for (int k = 0; k < 12; k++) {
			std::vector<Pose2d> pts;
			int n = H::RandInt(2, 4);
			double len = 0;
			std::string t;
			for (int i = 0; i < n; i++) {
				double e = H::Coin(0.2) ? 1.1 * w.half : 0.9 * w.half;
				Pose2d p = H::Coin(0.6) ? w.FreePose() : Pose2d(w.origin.x() + H::Rand(-e, e), w.origin.y() + H::Rand(-e, e), H::Rand(-3, 3));
				if (i && H::Coin(0.3))
					p.position = pts.back().position + Point2d(H::Rand(-0.3, 0.3), H::Rand(-0.3, 0.3));
				if (i)
					len += (p.position - pts.back().position).norm();
				pts.push_back(p);
				t += PoseText(p) + " ";
			}
			if (H::Coin(0.1)) {
				len = 0;
				pts.resize(1);
				pts.push_back(pts[0]);
			}
			// equal steps of ratio per leg: travelled distance must not be slower than the stated length
			double longest = 0;
			for (size_t i = 0; i + 1 < pts.size(); i++)
				longest = std::max(longest, (pts[i + 1].position - pts[i].position).norm());
			len = longest * (pts.size() - 1);
			if (H::Coin(0.2))
				len *= H::Rand(1, 2);
			Spy p(pts, len);
			H::Case(10, "path through %slength %.17g step %g | %s", t.c_str(), len, w.validator->minPathInterpolationDistance, w.desc.c_str());
			float last = -7;
			bool v = w.validator->IsPathValid(p, &last);
			CHECK(w.validator->IsPathValid(p, (float*)nullptr) == v, "null", "the verdict depends on whether the ratio is asked for");
			size_t half = p.seen.size() / 2;
			std::vector<double> rs(p.seen.begin(), p.seen.begin() + half);
			if (len == 0) {
				CHECK(v == w.validator->IsStateValid(pts[0]), "point", "a path without length is not judged by its state");
				if (v)
					CHECK(last == 1.0f, "point-last", "the ratio of an accepted path is not 1");
				continue;
			}
			for (double r : rs)
				CHECK(r >= 0 && r <= 1, "ratio-range", "the path was looked at outside its ratios");
			std::vector<double> all = rs;
			if (v)
				all.push_back(1.0);
			std::sort(all.begin(), all.end());
			if (v) {
				CHECK(last == 1.0f, "last-one", "the ratio of an accepted path is not 1");
				CHECK(w.validator->IsStateValid(p.GetFinalState()), "final", "an accepted path ends at a rejected state");
				CHECK(w.validator->IsStateValid(p.GetInitialState()), "start", "an accepted path starts at a rejected state");
				bool first = !all.empty() && all[0] == 0;
				if (!first)
					all.insert(all.begin(), 0.0);
			} else {
				CHECK(last >= 0 && last <= 1, "last-range", "the reported ratio is not between 0 and 1");
				bool bad = false;
				for (double r : rs)
					if (!w.validator->IsStateValid(p.At(r))) {
						bad = true;
						CHECK(last < r || (last == 0 && r == 0) || H::Near(last, r, 1e-6), "last-after", "the reported ratio is behind a rejected state");
					}
				bad = bad || !w.validator->IsStateValid(p.GetFinalState());
				CHECK(bad, "no-reason", "a path was rejected although no state of it that was looked at is rejected");
				double near = 1e9;
				for (double r : rs)
					if (w.validator->IsStateValid(p.At(r)))
						near = std::min(near, std::abs(r - last));
				CHECK(last == 0 || near < 1e-6, "last-state", "the reported ratio is not that of an accepted state");
			}
			for (size_t i = 0; i + 1 < all.size(); i++) {
				if (!v && all[i] >= last - 1e-7)
					continue;
				double c = o.Clear(p.At(all[i]), ok, sure);
				if (sure)
					CHECK(ok, "sample-bad", "a sampled state of an accepted stretch is not acceptable");
				double step = std::max(c, (double)w.validator->minPathInterpolationDistance);
				if (sure && c < 1e8)
					CHECK((all[i + 1] - all[i]) * len <= step + 1e-3, "gap", "an unsampled stretch is longer than the clearance at its start");
			}
			Pose2d ls;
			CHECK(static_cast<StateValidatorSE2Base&>(*w.validator).IsPathValid(p, &ls) == v, "state-overload", "the two overloads disagree");
			CHECK((ls.position - p.At(last).position).norm() < 1e-9, "state-last", "the reported state is not the one at the reported ratio");
			StateValidatorSE2Free free(w.space);
			CHECK(free.IsStateValid(pts[0]) == w.space->ValidateBounds(pts[0]), "free", "the free validator does not check the bounds");
		}
	}
	return H::Done();
}
