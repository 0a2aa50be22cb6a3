// C20: a planned vehicle path runs from start to goal through valid poses.
#include "vehicle.h"
using namespace Planner;

static bool Close(const Pose2d& p, const Pose2d& q, double d, double a) { return (p.position - q.position).norm() <= d && std::abs(H::AngDiff(p.theta, q.theta)) <= a; }

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	while (H::More()) {
		double minR = H::Rand(1, 3), sw = H::Coin(0.3) ? 0 : H::Rand(0, 3), rev = H::Coin(0.3) ? 1 : H::Rand(0.5, 3), fwd = H::Coin(0.5) ? 1 : H::Rand(0.5, 2);
		unsigned n = H::Coin(0.5) ? 5 : H::RandInt(2, 9);
		double res = H::Rand(0.8, 1.5), ang = H::Rand(0.15, 0.35);
		World w(H::Rand(3, 5), H::RandInt(0, 5), H::Coin() ? 0.3f : H::Rand(0.1, 0.8));
		HybridAStar::SearchParameters prm(minR, sw, rev, fwd, H::Coin() ? 0.0 : 1.0, n, res, ang);
		HybridAStar h(prm);
		std::string head = w.desc;
		char b[300];
		snprintf(b, sizeof b, " radius %.17g switch %.17g reverse %.17g forward %.17g motions %u resolution %.17g %.17g", minR, sw, rev, fwd, n, res, ang);
		head += b;
		H::Case(20, "not initialised");
		CHECK(h.SearchPath() == Status::Failure && h.GetPath().empty(), "uninitialised", "a planner that was not initialised does not fail");
		CHECK(!h.Initialize(nullptr) && h.SearchPath() == Status::Failure && h.GetPath().empty(), "null", "a planner without a validator does not fail");
		if (!h.Initialize(w.validator))
			continue;
		auto defaults = h.GetSmootherParameters();
		std::string hist;
		Pose2d last = w.FreePose();
		for (int k = 0; k < 3 && H::More(); k++) {
			Pose2d s = w.FreePose(), g = w.FreePose();
			int kind = H::RandInt(0, 9);
			if (kind == 0)
				g = s;
			else if (kind == 1)
				g = Pose2d(w.half * 3, 0, 0);
			else if (kind == 2) // close to the start, with another heading
				g = Pose2d(s.x() + H::Rand(-0.1, 0.1), s.y() + H::Rand(-0.1, 0.1), s.theta + H::Rand(-0.3, 0.3));
			else if (kind == 3)
				g.theta = H::Coin() ? M_PI : -M_PI;
			else if (kind == 4) { // straight ahead: the motion may be shorter than a sampling interval
				double d = H::Coin() ? H::Rand(0.01, 0.3) : H::Rand(0.3, 2);
				g = Pose2d(s.x() + d * cos(s.theta), s.y() + d * sin(s.theta), s.theta);
			}
			else if (kind == 5) // near the goal of the search before
				g = Pose2d(last.x() + H::Rand(-0.2, 0.2), last.y() + H::Rand(-0.2, 0.2), last.theta);
			last = g;
			auto p = defaults;
			if (H::Coin(0.5))
				p.maxIterations = 0;
			else {
				p.maxIterations = H::RandInt(1, 30);
				p.learningRate = H::Coin() ? 0.2f : 20.f; // the second one pushes poses into obstacles
			}
			h.SetSmootherParameters(p);
			h.pathInterpolation = H::Coin() ? 0.1f : H::Rand(0.05, 1.5);
			h.SetInitState(s);
			h.SetGoalState(g);
			snprintf(b, sizeof b, "; search from %s to %s, interval %.9g, %d iterations, rate %g", PoseText(s).c_str(), PoseText(g).c_str(), h.pathInterpolation, p.maxIterations, p.learningRate);
			hist += b;
			H::Case(60, "%s%s", head.c_str(), hist.c_str());
			auto status = h.SearchPath();
			auto path = h.GetPath();
			auto st = h.GetStats();
			if (status < 0) {
				CHECK(path.empty(), "no-path", "a failed search returned a path");
				CHECK(st.graphSearchStatus < 0, "status", "the status of the graph search does not say that it failed");
				CHECK(kind != 0, "trivial", "no path from a pose to itself");
				continue;
			}
			CHECK(st.graphSearchStatus >= 0, "status", "success although the graph search failed");
			CHECK(!path.empty(), "path", "success without a path");
			if (path.empty())
				continue;
			CHECK(Close(path.front(), s, 1e-9, 1e-9), "start", "the path does not begin at the start pose");
			CHECK(Close(path.back(), g, 1e-3 + 1e-6, 1e-3 * M_PI / 180 + 1e-6), "goal", "the path does not end at the goal pose");
			auto motions = h.GetGraphSearchPath();
			if (st.smoothingStatus >= 0)
				for (auto& q : path)
					CHECK(w.validator->IsStateValid(q), "valid", "a pose of a smoothed path is not accepted by the validator");
			if (motions.empty()) {
				CHECK(path.size() == 1, "single", "a search without a motion returned several poses");
				continue;
			}
			CHECK(Close(motions[0]->GetInitialState(), s, 1e-9, 1e-9), "motion-start", "the first motion does not begin at the start");
			for (size_t i = 0; i + 1 < motions.size(); i++)
				CHECK(Close(motions[i]->GetFinalState(), motions[i + 1]->GetInitialState(), 5e-3, 5e-3), "joint", "two consecutive motions do not meet");
			CHECK(Close(motions.back()->GetFinalState(), g, 1e-3 + 1e-6, 1e-3 * M_PI / 180 + 1e-6), "motion-goal", "the last motion does not end at the goal");
			if (p.maxIterations == 0 || st.smoothingStatus < 0) {
				// the path of the graph search, sampled in order
				std::vector<Pose2d> fine;
				for (auto& m : motions) {
					int c = 2 + int(m->GetLength() / 0.01);
					for (int i = 0; i <= c; i++)
						fine.push_back(m->Interpolate(i / (double)c));
				}
				size_t at = 0;
				bool on = true;
				for (auto& q : path) {
					while (at < fine.size() && !Close(fine[at], q, 0.012, 0.012 / minR + 0.02))
						at++;
					on = on && at < fine.size();
				}
				CHECK(on, "on-motion", "the poses do not lie on the accepted motions one after the other");
				for (size_t i = 0; i + 1 < path.size(); i++)
					CHECK((path[i].position - path[i + 1].position).norm() <= 2 * h.pathInterpolation + 1e-4, "spacing", "consecutive poses are further apart than two sampling intervals");
				// the path is covered
				at = 0;
				double gap = 0, travelled = 0;
				for (size_t j = 1, i = 0; j < fine.size(); j++) {
					travelled += (fine[j].position - fine[j - 1].position).norm();
					bool hit = false;
					while (i < path.size() && Close(fine[j], path[i], 0.012, 0.012 / minR + 0.02)) {
						i++;
						hit = true;
					}
					if (hit)
						travelled = 0;
					gap = std::max(gap, travelled);
				}
				CHECK(gap <= 2 * h.pathInterpolation + 0.05, "gap", "a stretch of the path longer than two sampling intervals has no pose");
			}
		}
		H::Case(20, "%s%s; then initialised without a validator", head.c_str(), hist.c_str());
		CHECK(!h.Initialize(nullptr) && h.SearchPath() == Status::Failure && h.GetPath().empty(), "again", "a planner that lost its validator still plans or keeps its path");
	}
	return H::Done();
}
