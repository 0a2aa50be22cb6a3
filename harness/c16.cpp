#include "vehicle.h"
#include "algo/smoother.h"
#include "state_validator/gvd.h"
using namespace Planner;

static bool Same(const Pose2d& a, const Pose2d& b) { return a.x() == b.x() && a.y() == b.y() && a.theta == b.theta; }

// The number of poses the validator was asked about shows how often the whole path was gone through.
int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More(); k++) {
		World w(H::Rand(4, 12), H::Coin(0.15) ? 0 : H::RandInt(1, 12), H::Coin() ? 0.5f : H::Rand(0.1, 1.5), H::Coin(0.3));
		auto gvd = makeRef<GVD>(w.map);
		gvd->Update();
		Smoother s;
		std::vector<Pose2d> none { Pose2d(0, 0, 0), Pose2d(1, 0, 0) };
		H::Case(20, "not initialised");
		CHECK(s.Smooth(none) == Smoother::Status::Failure, "init", "smoothing without initialisation does not fail");
		CHECK(!s.Initialize(nullptr, gvd, 1.0f) && !s.Initialize(w.validator, nullptr, 1.0f), "init", "initialised without validator or distance map");
		CHECK(s.Smooth(none) == Smoother::Status::Failure, "init", "smoothing without initialisation does not fail");
		s.Initialize(w.validator, gvd, H::Rand(0.1, 1.0));
		for (int q = 0; q < 4; q++) {
			auto p = s.GetParameters();
			int kind = H::RandInt(0, 9);
			p.maxIterations = kind == 0 ? 0 : kind == 1 ? 1 : H::RandInt(1, 120);
			p.learningRate = H::Coin(0.2) ? 0.2f : H::Rand(0.001, 0.05);
			p.stepTolerance = H::Coin(0.2) ? H::Rand(0.01, 1) : 1e-3;
			p.pathWeight = H::Coin() ? 0.f : H::Rand(0, 0.5);
			p.collisionWeight = H::Rand(0, 1);
			p.voronoiWeight = H::Coin() ? 0.f : H::Rand(0, 0.3);
			p.curvatureWeight = H::Rand(0, 1);
			s.SetParameters(p);
			int n = H::Coin(0.25) ? H::RandInt(0, 6) : H::RandInt(5, 60);
			std::vector<Pose2d> path;
			Pose2d c = w.FreePose();
			double turn = H::Rand(-0.4, 0.4), len = H::Coin(0.1) ? 0.0 : H::Rand(0.05, 0.6);
			int dir = 1;
			std::unordered_set<int> cusps;
			double pc = H::Coin(0.3) ? 0 : H::Rand(0, 0.4);
			for (int i = 0; i < n; i++) {
				path.push_back(c);
				if (H::Coin(pc)) {
					cusps.insert(i);
					dir = -dir;
				}
				if (H::Coin(0.2))
					turn = H::Rand(-0.6, 0.6);
				double t = c.theta + turn;
				c = Pose2d(c.x() + dir * len * cos(t), c.y() + dir * len * sin(t), t);
			}
			std::string text;
			for (auto& x : path)
				if (text.size() < 1500)
					text += PoseText(x);
			std::string cu;
			for (int i : cusps)
				cu += " " + std::to_string(i);
			H::Case(30, "smooth %d poses, %d iterations, rate %g, tolerance %g, cusps%s; %s; path %s", n, p.maxIterations, p.learningRate, p.stepTolerance, cu.c_str(), w.desc.c_str(), text.c_str());
			auto st = s.Smooth(path, cusps);
			auto out = s.GetPath();
			CHECK(out.size() == path.size(), "size", "%zu poses became %zu", path.size(), out.size());
			if (out.size() != path.size())
				continue;
			bool safe = true, changed = false;
			for (int i = 0; i < n; i++) {
				CHECK(out[i].theta == path[i].theta, "heading", "the heading of pose %d changed from %.17g to %.17g", i, path[i].theta, out[i].theta);
				if (i == 0 || i == n - 1 || cusps.count(i))
					CHECK(Same(out[i], path[i]), "fixed", "pose %d (%s) moved to %s", i, i == 0 ? "first" : i == n - 1 ? "last" : "cusp", PoseText(out[i]).c_str());
				safe = safe && w.validator->IsStateValid(out[i]);
				changed = changed || !Same(out[i], path[i]);
			}
			bool failed = st == Smoother::Status::Failure || st == Smoother::Status::Collision;
			CHECK(failed || safe, "unsafe", "status %d, but a pose of the smoothed path is not valid", (int)st);
			if (n < 5 || p.maxIterations == 0)
				CHECK(!changed, "untouched", "a path that must be left alone was changed");
		}
	}
	return H::Done();
}
