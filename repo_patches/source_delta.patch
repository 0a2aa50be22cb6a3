From 863632b8de1f0d92ba83d181d09f7ac6871d89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 01/32] fix: a path was accepted without checking its final
 state, and its border clearance ignored the map position

---
 .../state_validator_occupancy_map.cpp         | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..caf5d4c 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -32,9 +32,10 @@ namespace Planner {
 		const auto& bounds = m_stateSpace->bounds;
 		const double pathLength = path.GetLength();
 		if (pathLength == 0.0) {
+			bool valid = IsStateValid(path.GetInitialState());
 			if (last)
-				*last = 1.0f;
-			return IsStateValid(path.GetInitialState());
+				*last = valid ? 1.0f : 0.0f;
+			return valid;
 		}
 
 		double lastValidLength = 0.0;
@@ -51,11 +52,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
@@ -65,6 +67,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// Check the final state
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From c2d8e5aa59406324255b196084bb885a63a13479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 02/32] fix: the search aborted when a motion grazed the border
 of the map

---
 planner/src/algo/hybrid_a_star.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..448ed2f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -100,7 +100,9 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
+			// The path is only validated at its sampled states
+			if (!m_occupancyMap->IsInsideMap(cell))
+				continue;
 			voronoiCost = m_gvd->GetPathCost(cell);
 		}
 
-- 
2.43.0


From b3a00c6faea3ff6f199a5d9deb2ad96073ae0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:37 +0000
Subject: [PATCH 03/32] fix: the overload reporting the last valid state could
 not be instantiated

---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From b806c5b235b346fcfbfeb653f293bb5727e6ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:35 +0000
Subject: [PATCH 04/32] fix: declare the Pose2<int>::WrapTheta specialization
 so that every user of integer poses gets it

---
 planner/src/geometry/2dplane.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/geometry/2dplane.h b/planner/src/geometry/2dplane.h
index cd8023f..310b09c 100644
--- a/planner/src/geometry/2dplane.h
+++ b/planner/src/geometry/2dplane.h
@@ -44,6 +44,10 @@ namespace Planner {
 		return t;
 	}
 
+	/// @brief Integer poses have a discretized orientation, which is not wrapped.
+	template <>
+	int Pose2<int>::WrapTheta() const;
+
 	/// @brief Add the Pose @rhs after @lhs.
 	/// @warning This operation is not commutative.
 	template <typename T>
-- 
2.43.0


From 2e238ed5eeb6a1d82a1c27b1da957c20b064d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:35 +0000
Subject: [PATCH 05/32] fix: batch sampling wrote past the end of an empty
 vector and returned no state

---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 850f2baa1c2514cc9d3e81bfd8b966f0aef756c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:11 +0000
Subject: [PATCH 06/32] fix: positions up to one cell left of or below the map
 were converted to its first row or column

---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..21c6e56 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -105,8 +105,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 98c5ee7f29624d5dbe153bbe322db98b638b47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:11 +0000
Subject: [PATCH 07/32] fix: moving an initialised map did not move the grid in
 world coordinates

---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 21c6e56..212d33a 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From f87412257a485510a4f9a53a5e631f202f997142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:44 +0000
Subject: [PATCH 08/32] fix: truncating a Reeds-Shepp path erased the motion it
 was cut in and kept the motions after the cut

---
 planner/src/paths/path_reeds_shepp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..a7d8fc5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
@@ -91,6 +91,7 @@ namespace Planner {
 
 		// Update the path length
 		m_length *= ratio;
+		m_pathSegment.m_length *= ratio;
 	}
 
 	std::set<double> PathReedsShepp::GetCuspPointRatios() const
-- 
2.43.0


From ca0cd0d618417bfae5e8f1f1c620df564d49e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 09/32] fix: the direction at the end of a Reeds-Shepp path was
 lost when its length was rounded up

---
 planner/src/paths/path_reeds_shepp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index a7d8fc5..a3451c5 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -157,14 +157,16 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
+			direction = motion.direction;
 			length += motion.length * m_minTurningRadius;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From 4fe3a35e2642fce9f724cd95be2925ae38f0c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 10/32] fix: a composite path had no initial state

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..79cc6b5 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
-- 
2.43.0


From ade694db0633ab698ac5ce20435abe4f9f0cb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 11/32] fix: paths appended to a truncated composite path were
 resolved inside the truncated piece

---
 planner/src/paths/path_composite.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 79cc6b5..2941c52 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -66,6 +66,7 @@ namespace Planner {
 			it->second->Truncate(pathRatio);
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
+			m_paths[std::distance(m_paths.cbegin(), it)].first.finalLength = this->m_length;
 			m_paths.erase(std::next(it), m_paths.end());
 		}
 
-- 
2.43.0


From b5718e5afb1af6fafcd5f3328476b16867cbddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 12/32] fix: the direction at the end of a composite path was
 read past its last piece

---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..516a50c 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -28,7 +28,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From cb0d8e8fd53c51c541f1a8bc741d0e4696d8896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:06 +0000
Subject: [PATCH 13/32] fix: the cusps inside a piece of a composite path were
 not reported at their place on the composite

---
 planner/src/paths/path_composite.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 516a50c..d8e1e84 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -9,18 +9,23 @@ namespace Planner {
 			return ratios;
 
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			double pathLength = path.second->GetLength();
+			// There is no motion, and no cusp, in a path without length
+			if (pathLength == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (prevDirection != Direction::NoMotion && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : path.second->GetCuspPointRatios())
+				ratios.insert((length + cusp * pathLength) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
-			length += path.second->GetLength();
+			length += pathLength;
 		}
 
 		return ratios;
-- 
2.43.0


From b9b1b406f5419b2a11b2b7c48a34debedc05994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:07 +0000
Subject: [PATCH 14/32] fix: a motion turning through heading pi left the
 heading outside the bounds of the state space

---
 planner/src/models/kinematic_bicycle_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/models/kinematic_bicycle_model.cpp b/planner/src/models/kinematic_bicycle_model.cpp
index d1e8cd1..e5f73aa 100644
--- a/planner/src/models/kinematic_bicycle_model.cpp
+++ b/planner/src/models/kinematic_bicycle_model.cpp
@@ -27,6 +27,7 @@ namespace Planner {
 			to.x() += dist * cos(from.theta);
 			to.y() += dist * sin(from.theta);
 		}
+		to.theta = to.WrapTheta();
 
 		return to;
 	}
-- 
2.43.0


From 40a55ae39c8a831a66ed319aa748e67d33a84c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:07 +0000
Subject: [PATCH 15/32] fix: a Reeds-Shepp word that does not apply was given
 an undefined length instead of an infinite one

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..22dba0a 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -44,7 +44,7 @@ namespace Planner {
 				double t1 = std::atan2(y, x);
 
 				if (u1squared < 4)
-					std::numeric_limits<double>::infinity();
+					return std::numeric_limits<double>::infinity();
 
 				u = sqrt(u1squared - 4);
 				double phi = atan2(2, u);
-- 
2.43.0


From d04ac15b664f82f43d0fe63f15b52ce77058ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:07 +0000
Subject: [PATCH 16/32] fix: the forward cost multiplier was ignored when
 reverse motion and direction changes are not penalised

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 22dba0a..c727f73 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From f54431420c7e6f7b7ec2749a30b17b3d39d37974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 17/32] fix: with more than five generated motions the search
 turned tighter than the minimum turning radius

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 448ed2f..480f599 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -22,7 +22,7 @@ namespace Planner {
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
 		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+			double delta = (i + 1.0) / (m_param.numGeneratedMotion / 2) * deltaMax;
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From f2710e619753c828e7bf9584b13ebda6f4163837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 18/32] fix: changing direction was never charged in the
 vehicle search

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 480f599..34c809a 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -141,7 +141,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = state.direction == Direction::NoMotion || state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
-- 
2.43.0


From e723b071a864a0e7ea7bef1c065c49eab26d0dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 19/32] fix: a goal heading of pi was not recognised when it
 was reached as minus pi

---
 planner/src/algo/hybrid_a_star.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..878f516 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -207,7 +207,7 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				return (lhs.position - rhs.position).norm() < tol && abs((lhs - rhs).theta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From 153a66d9020edff17e337ceb07b0788f8c00cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 20/32] fix: the end of the path and close cusps were not
 sampled by the vehicle planner

---
 planner/src/algo/hybrid_a_star.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 34c809a..0497494 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -275,17 +275,23 @@ namespace Planner {
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
 			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
+			for (double length = 0.0; length < pathLength; length += pathInterpolation) {
+				// Sample cusp points
+				bool isCusp = false;
+				while (cuspRatioIt != cuspRatios.end() && length >= *cuspRatioIt * pathLength - pathInterpolation / 2) {
 					cuspIndices.insert(ratios.size());
 					ratios.push_back(*cuspRatioIt);
 					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
-					ratios.push_back(length / pathLength);
+					isCusp = true;
 				}
+				// Sample at regular interval
+				if (!isCusp)
+					ratios.push_back(length / pathLength);
+			}
+			// Sample the remaining cusp points, including the end of the path
+			for (; cuspRatioIt != cuspRatios.end(); cuspRatioIt++) {
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(*cuspRatioIt);
 			}
 
 			// Sample points
-- 
2.43.0


From 7ec9bb6ed3405af6928138c814919b7b522d0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 21/32] fix: searching a path from a pose to itself threw an
 exception

---
 planner/src/algo/hybrid_a_star.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 0497494..44a8f29 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -295,7 +295,10 @@ namespace Planner {
 			}
 
 			// Sample points
-			graphSearchPath = path->Interpolate(ratios);
+			if (path->Size() > 0)
+				graphSearchPath = path->Interpolate(ratios);
+			else
+				graphSearchPath.push_back(this->m_init);
 		}
 
 		// Smooth the path
-- 
2.43.0


From 70fb983a9a1b6df6da9d12295ef64de52bb3ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:38 +0000
Subject: [PATCH 22/32] fix: a failed vehicle search left the path of the
 previous search

---
 planner/src/algo/hybrid_a_star.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 44a8f29..05a9a71 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -242,6 +242,8 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
-- 
2.43.0


From ddbff8044f4c27fe8d08f4eb75bb90ba91007db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:15 +0000
Subject: [PATCH 23/32] fix: the non-holonomic heuristic read before its table
 for a negative heading difference

---
 planner/src/algo/heuristics.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..47f3a48 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -81,7 +81,9 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
+		// The heading difference is between -pi and pi but the table goes from 0 to 2 * pi
+		double theta = delta.theta < 0.0 ? delta.theta + 2 * M_PI : delta.theta;
+		int k = (int)round(theta / angularResolution);
 		if (k == numAngular)
 			k = 0;
 
-- 
2.43.0


From bf889b1b2812b0a61c1bff2110ce872839b4dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:15 +0000
Subject: [PATCH 24/32] fix: the obstacle heuristic never replaced a cell of
 the frontier by a shorter route

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 47f3a48..cf683b1 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -144,7 +144,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 3c47757e997d57e25acf6bffdf7b2eeb37e91677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:48 +0000
Subject: [PATCH 25/32] fix: removing an obstacle freed the cells it shares
 with other obstacles

---
 .../state_validator/obstacle_list_occupancy_map.cpp  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..7cffebb 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -53,9 +53,17 @@ namespace Planner {
 			return false;
 		m_obstacleIDs.erase(it->second);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+		auto cells = obstacle->GetBoundaryGridCellPosition(*this);
+		for (auto& cell : cells)
 			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		// The obstacle may share cells with the remaining ones
+		for (auto& other : m_obstacles) {
+			for (auto& cell : other.first->GetBoundaryGridCellPosition(*this))
+				(*m_occupancyMatrix)[cell.row][cell.col] = other.second;
+		}
+		for (auto& cell : cells) {
+			if (!IsOccupied(cell))
+				m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
 		return true;
 	}
-- 
2.43.0


From a071806c6eed56e231ccdd3a1a93ed307c41545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:27 +0000
Subject: [PATCH 26/32] fix: forget the solution of a previous search when the
 search is not initialised

---
 planner/src/algo/a_star.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..1ec138e 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -329,6 +329,8 @@ namespace Planner {
 
 			if (!isInitialized) {
 				PP_ERROR("The algorithm has not been initialized successfully.");
+				// Do not report the solution of a previous search
+				m_solutionNode = nullptr;
 				return Status::Failure;
 			}
 
-- 
2.43.0


From a0ac5870634ee6fd76a6c0e5d33eb403cfd3fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:34 +0000
Subject: [PATCH 27/32] fix: the obstacle-free heuristic stored the cost of
 driving back from the goal to the state

---
 planner/src/algo/heuristics.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index cf683b1..551cdca 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -60,12 +60,13 @@ namespace Planner {
 		const unsigned int& numSpatialY = heuristic->numSpatialY;
 		const unsigned int& numAngular = heuristic->numAngular;
 
-		const Pose2d goal(0.0, 0.0, 0.0);
+		// The table is read with the goal expressed in the frame of the state
+		const Pose2d state(0.0, 0.0, 0.0);
 		for (int i = 0; i < numSpatialX; i++) {
 			for (int j = 0; j < numSpatialY; j++) {
 				for (int k = 0; k < numAngular; k++) {
-					Pose2d pose(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
-					auto path = ReedsShepp::Solver::GetOptimalPath(pose, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
+					Pose2d goal(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
+					auto path = ReedsShepp::Solver::GetOptimalPath(state, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 					values[i][j][k] = path.ComputeCost(minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 				}
 			}
-- 
2.43.0


From 4350cda668bd1b117e70d7c8f2a20e38c1233fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:41 +0000
Subject: [PATCH 28/32] fix: RRT* connected a new state to the nearest node
 without validation when every near connection was rejected

---
 planner/src/algo/rrt_star.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..19bdac3 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,6 +96,10 @@ namespace Planner {
 					}
 				}
 
+				// No near node can be connected to the new state
+				if (!bestParentNode)
+					continue;
+
 				// Add the node to the tree
 				auto newNode = m_tree.Extend(newState, bestParentNode);
 				(*newNode)->info.costFromGoal = bestCost;
-- 
2.43.0


From ec54ce4f443197e458dc2c17c82d700488b95fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 29/32] fix: the state where the two searches meet was returned
 twice in the path of the bidirectional search

---
 planner/src/algo/bidirectional_a_star.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..141509d 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -67,6 +67,9 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
+			// Both paths end at the state where the two searches meet
+			if (!rPath.empty())
+				rPath.pop_back();
 			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
 			return fPath;
 		}
-- 
2.43.0


From df59c3a7f62ac27e58e2f7bf918474f81b2ea5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:20 +0000
Subject: [PATCH 30/32] fix: the averaged heuristics of the bidirectional
 search were never told the goal

---
 planner/src/algo/a_star.h               | 2 ++
 planner/src/algo/bidirectional_a_star.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 1ec138e..9d5e476 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 141509d..f5e48c9 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
-- 
2.43.0


From b172e0632219fc90436b0339f55a982acd3f5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:16 +0000
Subject: [PATCH 31/32] fix: the bidirectional search stopped before the
 cheapest path was found

A path whose cheapest meeting is across a transition between a state explored by
one search and a state explored by the other was not considered (0-1 at cost 10
was missed in favour of 0-2-1 at cost 11), and the stopping criterion compared
path costs instead of estimated total costs, which is wrong for negative
averaged heuristics.
---
 planner/src/algo/bidirectional_a_star.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index f5e48c9..d0af772 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -160,19 +160,23 @@ namespace Planner {
 				auto fNode = m_fSearch.m_frontier.Pop();
 				m_fSearch.Expand(fNode);
 				FindIntersection(fNode, m_fSearch, m_rSearch, bestCost);
+				for (auto& child : fNode->GetChildren())
+					FindIntersection(child.get(), m_fSearch, m_rSearch, bestCost);
 
 				// Reverse search
 				auto rNode = m_rSearch.m_frontier.Pop();
 				m_rSearch.Expand(rNode);
 				FindIntersection(rNode, m_rSearch, m_fSearch, bestCost);
+				for (auto& child : rNode->GetChildren())
+					FindIntersection(child.get(), m_rSearch, m_fSearch, bestCost);
 
 				// Check an intersection has been found
 				if (m_fSearch.m_solutionNode && m_rSearch.m_solutionNode) {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -185,10 +189,15 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
+			// The other search may have explored the state, or only reached it
+			AStarNode<State, Action>* nodeB = nullptr;
 			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
+			if (it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
 
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From 77779ca91fc5c2befd3d015c016c3d194f1f0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:14 +0000
Subject: [PATCH 32/32] fix: the shortest Reeds-Shepp distance was not scaled
 by the turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index c727f73..52632ee 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -633,7 +633,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0

