// The hash functors live in namespace std, which the AST extraction leaves out: here they are compiled
// from /repo's headers with std renamed to PlannerStd (after every library header has been read).
#include <cstddef>
#include <functional>
#include <cmath>
#include <array>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <memory>
#include <string>
#include <iostream>
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Geometry>
#include "core/base.h"
namespace PlannerStd {
	using namespace std;
	template <typename T>
	struct hash {
		std::size_t operator()(const T& v) const;
	};
	template <typename T>
	struct equal_to {
		bool operator()(const T& a, const T& b) const;
	};
}
namespace PlannerHash {
#define std PlannerStd
#include "core/hash.h"
#undef std
}
using PlannerHash::HashCombine;
#define std PlannerStd
#include "geometry/2dplane.cpp"
#include "utils/grid.h"
namespace PlannerSpec {
	using namespace Planner;
	bool EqualPosesHashEqually(const Pose2d& a, const Pose2d& b) { return !std::equal_to<Pose2d>()(a, b) || std::hash<Pose2d>()(a) == std::hash<Pose2d>()(b); }
	bool SamePosesHashEqually(const Pose2d& a, const Pose2d& b) { return !(a == b) || std::hash<Pose2d>()(a) == std::hash<Pose2d>()(b); }
	bool EqualIntPosesHashEqually(const Pose2i& a, const Pose2i& b) { return !std::equal_to<Pose2i>()(a, b) || std::hash<Pose2i>()(a) == std::hash<Pose2i>()(b); }
	bool EqualPointsHashEqually(const Point2d& a, const Point2d& b) { return !std::equal_to<Point2d>()(a, b) || std::hash<Point2d>()(a) == std::hash<Point2d>()(b); }
	bool EqualCellsHashEqually(const GridCellPosition& a, const GridCellPosition& b) { return !(a == b) || std::hash<GridCellPosition>()(a) == std::hash<GridCellPosition>()(b); }
}
