#include "common.h"
#include "core/base.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_composite.h"
#include "paths/path_constant_steer.h"
#include "paths/path_r2.h"
#include "paths/path_reeds_shepp.h"
using namespace Planner;

static bool Close(const Pose2d& a, const Pose2d& b, double tol) { return (a.position - b.position).norm() <= tol && std::abs(H::AngDiff(a.theta, b.theta)) <= tol; }
struct Step { Steer steer; Direction dir; double len; };
struct Elem {
	bool rs;
	Pose2d from;
	double steer, len, R;
	Direction dir;
	std::vector<Step> ms;
	Ref<PathNonHolonomicSE2Base> Make(const Ref<KinematicBicycleModel>& model) const
	{
		if (!rs)
			return makeRef<PathConstantSteer>(model, from, steer, len, dir);
		ReedsShepp::PathSegment seg;
		for (auto& m : ms)
			seg.AddMotion(m.steer, m.dir, m.len);
		return makeRef<PathReedsShepp>(from, seg, R);
	}
};

int main(int argc, char** argv)
{
	H::Init(argc, argv);
	auto model = makeRef<KinematicBicycleModel>(2.6, 0.0);
	for (int k = 0; H::More() && (k < 6000 || H::g_budget > 6); k++) {
		int n = H::RandInt(1, 6);
		std::vector<Elem> es;
		std::vector<Ref<PathNonHolonomicSE2Base>> twin; // untouched copies, the oracle
		std::string desc;
		Pose2d at(H::Rand(-5, 5), H::Rand(-5, 5), H::Rand(-3, 3));
		auto add = [&]() {
			Elem e;
			e.rs = H::Coin(0.4);
			e.from = at;
			e.steer = H::Coin(0.3) ? 0 : H::Rand(-0.6, 0.6);
			e.len = H::Coin(0.15) ? 0 : H::Coin(0.3) ? H::RandInt(1, 4) * 0.5 : H::Rand(0.05, 3);
			e.dir = (Direction)H::RandInt(0, 1);
			e.R = H::Rand(0.5, 4);
			char b[90];
			if (e.rs) {
				int c = H::RandInt(0, 4);
				desc += "RS[";
				for (int i = 0; i < c; i++) {
					e.ms.push_back({ (Steer)H::RandInt(0, 2), (Direction)H::RandInt(0, 1), H::Rand(0.05, 1) });
					snprintf(b, sizeof b, "%c%c%.17g ", "LSR"[(int)e.ms[i].steer], "fb"[(int)e.ms[i].dir], e.ms[i].len);
					desc += b;
				}
				snprintf(b, sizeof b, "R=%.17g] ", e.R);
			} else
				snprintf(b, sizeof b, "CS[%.17g %.17g %d] ", e.steer, e.len, (int)e.dir);
			desc += b;
			es.push_back(e);
			twin.push_back(e.Make(model));
			at = twin.back()->GetFinalState();
		};
		for (int i = 0; i < n; i++)
			add();
		H::Case(10, "composite from (%.17g,%.17g,%.17g): %s", es[0].from.x(), es[0].from.y(), es[0].from.theta, desc.c_str());
		PathSE2CompositeNonHolonomic c;
		c.Reserve(H::RandInt(0, 8));
		CHECK(c.GetLength() == 0 && c.Size() == 0 && c.GetDirection(0.5) == Direction::NoMotion && c.GetCuspPointRatios().empty(), "empty", "an empty composite is not empty");
		std::vector<Ref<PathNonHolonomicSE2Base>> own;
		double len = 0;
		for (int i = 0; i < n; i++) {
			own.push_back(es[i].Make(model));
			c.PushBack(own.back());
			len += twin[i]->GetLength();
			CHECK(c.Size() == size_t(i + 1) && H::Near(c.GetLength(), len, 1e-9), "push-length", "the length is not the sum of the lengths of the pieces");
			CHECK(Close(c.GetInitialState(), es[0].from, 1e-9) && Close(c.GetFinalState(), twin[i]->GetFinalState(), 1e-9), "push-ends", "the ends are not those of the first and last piece");
		}
		// pieces[i] = (twin, length kept): what the composite should be
		std::vector<std::pair<int, double>> want;
		for (int i = 0; i < n; i++)
			want.push_back({ i, twin[i]->GetLength() });
		double total = len;
		bool junction = false; // some cut fell on a junction: an empty piece may or may not be kept there
		auto verify = [&](const char* when) {
			char what[200];
			snprintf(what, sizeof what, "%s", when);
			CHECK(H::Near(c.GetLength(), total, 1e-8), "length", what);
			CHECK(Close(c.GetInitialState(), es[0].from, 1e-9), "initial", what);
			if (!junction)
				CHECK(c.Size() == want.size(), "size", what);
			auto stateAt = [&](double x, double& margin) {
				double acc = 0;
				Pose2d p = es[0].from;
				margin = 1e9;
				bool found = false;
				for (auto& [i, l] : want) {
					margin = std::min({ margin, std::abs(x - acc), std::abs(x - acc - l) });
					double full = twin[i]->GetLength();
					if (!found && l > 0 && x <= acc + l) {
						p = twin[i]->Interpolate(std::clamp((x - acc) / full, 0.0, 1.0));
						found = true;
					}
					if (!found)
						p = twin[i]->Interpolate(full > 0 ? l / full : 0.0);
					acc += l;
				}
				return p;
			};
			double mg;
			CHECK(Close(c.GetFinalState(), stateAt(total, mg), 1e-6), "final", what);
			for (int q = 0; q < 10; q++) {
				double s = q == 0 ? 0 : q == 1 ? 1 : H::Rand(0, 1);
				snprintf(what, sizeof what, "%s, at ratio %.17g", when, s);
				Pose2d p = stateAt(s * total, mg);
				CHECK(Close(c.Interpolate(s), p, 1e-6), "interpolate", what);
				double acc = 0;
				for (auto& [i, l] : want) {
					double full = twin[i]->GetLength(), x = s * total;
					if (l > 1e-6 && x > acc + 1e-7 && x < acc + l - 1e-7) {
						double r = (x - acc) / full;
						// stay away from a change of direction inside the piece
						bool clear = true;
						for (double cu : twin[i]->GetCuspPointRatios())
							clear = clear && std::abs(cu - r) > 1e-6;
						if (clear)
							CHECK(c.GetDirection(s) == twin[i]->GetDirection(r), "direction", what);
					}
					acc += l;
				}
			}
			if (total > 1e-6 && !junction) {
				std::vector<double> cusps;
				Direction prev = Direction::NoMotion;
				double acc = 0;
				bool odd = false;
				for (auto& [i, l] : want) {
					double full = twin[i]->GetLength();
					if (l > 0 && l < 1e-6)
						odd = true;
					if (l == 0)
						continue;
					if (prev != Direction::NoMotion && twin[i]->GetDirection(0.0) != prev)
						cusps.push_back(acc / total);
					for (double cu : twin[i]->GetCuspPointRatios()) {
						if (std::abs(cu * full - l) < 1e-7)
							odd = true;
						if (cu * full < l)
							cusps.push_back((acc + cu * full) / total);
					}
					prev = twin[i]->GetDirection(l / full);
					acc += l;
				}
				snprintf(what, sizeof what, "%s", when);
				if (!odd) {
					auto got = c.GetCuspPointRatios();
					auto near = [](double x) { return [x](double y) { return std::abs(x - y) < 1e-7; }; };
					for (double x : cusps)
						CHECK(std::any_of(got.begin(), got.end(), near(x)), "cusp-missing", what);
					for (double x : got)
						CHECK(std::any_of(cusps.begin(), cusps.end(), near(x)), "cusp-extra", what);
				}
				CHECK(c.GetDirection(1.0) == prev || want.back().second == 0 || odd, "direction-end", what);
			}
		};
		verify("as built");
		for (int round = 0; round < 2; round++) {
			double r = H::RandInt(0, 6) == 0 ? 1.0 : H::Rand(0.02, 1);
			if (H::Coin(0.4)) {
				int upto = H::RandInt(1, (int)want.size());
				double a = 0;
				for (int i = 0; i < upto; i++)
					a += want[i].second;
				if (total > 0 && a > 0)
					r = std::min(1.0, a / total);
			}
			char when[200];
			double cut = r * total;
			c.Truncate(r);
			double acc = 0;
			std::vector<std::pair<int, double>> left;
			bool here = false;
			for (auto& [i, l] : want)
				if (r < 1 && std::abs((acc += l) - cut) < 1e-7)
					here = junction = true;
			acc = 0;
			for (auto& [i, l] : want) {
				if (r == 1 || acc + l <= cut + (here ? 1e-7 : 0)) {
					left.push_back({ i, l });
					acc += l;
				} else {
					if (!here)
						left.push_back({ i, cut - acc });
					break;
				}
			}
			want = left;
			total = cut;
			snprintf(when, sizeof when, "after truncation %d at %.17g", round, r);
			verify(when);
			// append again
			at = c.GetFinalState();
			add();
			own.push_back(es.back().Make(model));
			c.PushBack(own.back());
			want.push_back({ (int)es.size() - 1, twin.back()->GetLength() });
			total += twin.back()->GetLength();
			snprintf(when, sizeof when, "after truncation %d at %.17g and appending %s", round, r, desc.substr(std::max(0, (int)desc.size() - 60)).c_str());
			verify(when);
		}
	}
	return H::Done();
}
