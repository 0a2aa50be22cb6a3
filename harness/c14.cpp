#include "common.h"
#include "core/base.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
using namespace Planner;

static double Special(double lb, double ub)
{
	switch (H::RandInt(0, 7)) {
	case 0: return lb;
	case 1: return ub;
	case 2: return std::nextafter(lb, -1e300);
	case 3: return std::nextafter(ub, 1e300);
	case 4: return lb - H::Rand(0, 10);
	case 5: return ub + H::Rand(0, 10);
	default: return H::Rand(lb, ub);
	}
}
static bool In(double x, double lb, double ub) { return lb <= x && x <= ub; }
static double Clip(double x, double lb, double ub) { return x < lb ? lb : x > ub ? ub : x; }

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	for (int k = 0; H::More() && (k < 2000 || H::g_budget > 7); k++) {
		double lb[3], ub[3], s[3], sd[3];
		double top[3] = { 100, 100, M_PI };
		for (int i = 0; i < 3; i++) {
			lb[i] = H::Rand(-top[i], top[i]);
			ub[i] = H::RandInt(0, 9) == 0 ? lb[i] : H::Rand(lb[i], top[i]);
			s[i] = Special(lb[i], ub[i]);
			sd[i] = H::Rand(0, 20);
		}
		H::Case(20, "bounds [%.17g,%.17g]x[%.17g,%.17g]x[%.17g,%.17g] state (%.17g,%.17g,%.17g)", lb[0], ub[0], lb[1], ub[1], lb[2], ub[2], s[0], s[1], s[2]);
		{
			StateSpaceR2 sp(Point2d(lb[0], lb[1]), Point2d(ub[0], ub[1]));
			auto in = [&](const Point2d& p) { return In(p.x(), lb[0], ub[0]) && In(p.y(), lb[1], ub[1]); };
			Point2d p(s[0], s[1]);
			CHECK(sp.ValidateBounds(p) == in(p), "validate-r2", "ValidateBounds of the plane is not the coordinate-wise test");
			sp.EnforceBounds(p);
			CHECK(p.x() == Clip(s[0], lb[0], ub[0]) && p.y() == Clip(s[1], lb[1], ub[1]), "enforce-r2", "EnforceBounds of the plane is not the coordinate-wise clamp");
			CHECK(in(sp.SampleUniform()), "uniform-r2", "a uniform sample is out of bounds");
			CHECK(in(sp.SampleGaussian(Point2d(s[0], s[1]), Point2d(sd[0], sd[1]))), "gauss-r2", "a Gaussian sample is out of bounds");
			StateSpace<Point2d, 2, double>& b = sp;
			unsigned n = H::RandInt(0, 20);
			auto u = b.SampleUniform(n);
			auto g = b.SampleGaussian(Point2d(s[0], s[1]), Point2d(sd[0], sd[1]), n);
			CHECK(u.size() == n && g.size() == n, "batch-size", "a batch does not have the requested size");
			for (auto* l : { &u, &g })
				for (auto& q : *l)
					CHECK(in(q), "batch-r2", "a sample of a batch is out of bounds");
		}
		{
			StateSpaceSE2 sp(Pose2d(lb[0], lb[1], lb[2]), Pose2d(ub[0], ub[1], ub[2]));
			auto in = [&](const Pose2d& p) { return In(p.x(), lb[0], ub[0]) && In(p.y(), lb[1], ub[1]) && In(p.theta, lb[2], ub[2]); };
			Pose2d p;
			p.x() = s[0], p.y() = s[1], p.theta = s[2];
			CHECK(sp.ValidateBounds(p) == in(p), "validate-se2", "ValidateBounds of the pose space is not the coordinate-wise test");
			sp.EnforceBounds(p);
			CHECK(p.x() == Clip(s[0], lb[0], ub[0]) && p.y() == Clip(s[1], lb[1], ub[1]) && p.theta == Clip(s[2], lb[2], ub[2]), "enforce-se2", "EnforceBounds of the pose space is not the coordinate-wise clamp");
			CHECK(in(sp.SampleUniform()), "uniform-se2", "a uniform sample is out of bounds");
			Pose2d mean, dev;
			mean.x() = s[0], mean.y() = s[1], mean.theta = s[2], dev.x() = sd[0], dev.y() = sd[1], dev.theta = sd[2];
			CHECK(in(sp.SampleGaussian(mean, dev)), "gauss-se2", "a Gaussian sample is out of bounds");
			StateSpace<Pose2d, 3, double>& b = sp;
			unsigned n = H::RandInt(0, 20);
			auto u = b.SampleUniform(n);
			auto g = b.SampleGaussian(mean, dev, n);
			CHECK(u.size() == n && g.size() == n, "batch-size", "a batch does not have the requested size");
			for (auto* l : { &u, &g })
				for (auto& q : *l)
					CHECK(in(q), "batch-se2", "a sample of a batch is out of bounds");
		}
	}
	return H::Done();
}
