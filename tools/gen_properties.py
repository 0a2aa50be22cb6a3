#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the texts are easy to review)."""
import json, os
S = "planner/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    t = " ".join(over)
    over = ["inputs"] + (["histories"] if "histor" in t else []) + (["configurations"] if ("parameter" in t or "map" in t or "multiplier" in t or "bounds" in t) else [])
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Priority list stays ordered, unique and complete",
  "After any sequence of pushes, removals, pops, lookups and clears, the priority list iterates in the order given by its comparison, holds each key exactly once, and contains exactly the elements that were accepted and not yet removed. Popping returns and removes an element that no other element beats, inserting a present key is refused and changes nothing, and removing or finding a key succeeds if and only if that key is present. Equal-priority elements never make an operation lose, duplicate or misplace another element.",
  ["operation histories", "element values", "comparison and key functions"],
  "for every element type, every strict weak order, every key equality and every operation history",
  "The list is a binary-searched array kept in step with a hash set; ordering or membership damage needs particular patterns of ties, sizes and positions, and the unit test inserts a handful of integers.",
  ["utils/frontier.h"],
  [("insertion by binary search", "utils/frontier.h:Frontier::Push, FindFirstCompareIsFalse"),
   ("removal by binary search then scan", "utils/frontier.h:Frontier::Remove, FindLastCompareIsTrue"),
   ("pop/top/find/clear", "utils/frontier.h:Frontier::Pop, Top, Find, Clear")])

prop("C02", "Tree links stay consistent under every edit",
  "In any tree built with the library, each node appears exactly once in its parent's list of children and nowhere else, a node without parent is nobody's child, and adding, removing, replacing or re-parenting nodes preserves this. A node handed out by a removal has no parent any more, its own subtree is untouched, and unrelated nodes keep their parent and their children in the same order. Depth, ancestor and sibling queries always answer according to these links.",
  ["tree shapes", "operation histories"],
  "for every tree shape, every pair of nodes and every sequence of edits, including re-parenting a node below one of its own descendants",
  "The links are raw parent pointers plus owning child vectors; the tests edit one fixed small tree, whereas damage shows up for specific positions, subtree shapes and edit sequences.",
  ["utils/node.h", "utils/tree.h"],
  [("child list edits", "utils/node.h:Node::AddChild, RemoveChild, ReplaceChild"),
   ("re-parenting", "utils/node.h:Node::Reparent"),
   ("queries", "utils/node.h:Node::GetDepth, IsDescendantOf, GetPrevious, GetNext"),
   ("tree of states", "utils/tree.h:Tree::Extend, CreateRootNode, BelongToTree, Clear")])

prop("C03", "Graph search returns only genuine paths with their exact cost",
  "When the graph search reports success, the returned states start at the requested initial state, end at a state equal to the goal, and every consecutive pair is a transition that the state propagator offered. The reported cost is exactly the sum of the offered transition costs along that path and the number of actions is one less than the number of states. When it reports failure the path is empty and the cost is infinite, also when earlier searches on the same object succeeded.",
  ["graphs", "transition costs", "heuristics", "search histories"],
  "for every finite transition system, every non-negative cost function, every heuristic (consistent or not) and every sequence of searches on one object",
  "Parent links, path costs and the frontier are updated together on each expansion; a wrong link or stale cost only shows when a state is reached a second time along a cheaper route.",
  ["algo/a_star.h", "algo/path_planner.h"],
  [("expansion and relaxation", "algo/a_star.h:AStar::Expand, ProcessPossibleShortcut"),
   ("main loop", "algo/a_star.h:AStar::SearchPath, InitializeSearch, IsSolution"),
   ("path extraction", "algo/a_star.h:AStar::GetPath, GetActions, GetOptimalCost")])

prop("C04", "Graph search is optimal and complete",
  "With non-negative transition costs and a consistent heuristic, a successful graph search returns a path whose cost is the minimum over all paths from the initial state to the goal. If the goal is reachable in a finite transition system the search succeeds, and if it is not reachable the search terminates with failure. No state is expanded twice.",
  ["graphs", "transition costs", "consistent heuristics"],
  "for every finite transition system with non-negative costs and every heuristic consistent with it",
  "Optimality is a global claim over all paths; the test compares one grid, and errors in tie handling, shortcut replacement or the explored set need graphs where the first discovered route is not the best.",
  ["algo/a_star.h", "utils/frontier.h"],
  [("best-first expansion order", "algo/a_star.h:AStar::SearchPath; utils/frontier.h:Frontier::Pop"),
   ("relaxation", "algo/a_star.h:AStar::Expand, ProcessPossibleShortcut")])

prop("C05", "Grid moves are exactly the legal ones",
  "The neighbours of a cell are exactly the up to eight adjacent cells inside the grid, each listed once. The grid search may move to a neighbour if and only if that neighbour is free and, for a diagonal move, the two cells it would squeeze between are not both occupied. Each offered move carries the caller's cost for that pair of cells.",
  ["grid sizes", "cells", "occupancy patterns"],
  "for every grid size, every cell (also on borders, in corners and off the grid) and every occupancy pattern",
  "Border and corner cases multiply with occupancy patterns; the tests run one map and look only at the final path.",
  ["utils/grid.cpp", "utils/grid.h", "algo/a_star_n2.cpp"],
  [("neighbour enumeration", "utils/grid.cpp:GridCellPosition::GetNeighbors"),
   ("adjacency and diagonal tests", "utils/grid.cpp:GridCellPosition::IsAdjacentTo, IsDiagonalTo"),
   ("move filter", "algo/a_star_n2.cpp:AStarStatePropagatorFcnN2::GetNeighborStates")])

prop("C06", "Reeds-Shepp paths reach the goal and are the best of all words",
  "Every path the Reeds-Shepp solver returns, followed from the start pose, ends at the goal pose, and its stated length is the total length of its motions times the turning radius. The shortest path is no longer than any of the 48 path words that applies, the shortest distance is its length, and the optimal path costs no more than any of them under the given forward, reverse and direction-switch prices. The cost of a path charges every motion by its direction's multiplier and every change of direction once.",
  ["start and goal poses", "turning radii", "cost multipliers"],
  "for every pair of poses, every positive turning radius and every set of non-negative cost multipliers",
  "There are 48 words derived from 13 formulas through time-flip and mirror transforms, each valid in its own region of pose space; the tests check one pose pair per word.",
  ["geometry/reeds_shepp.cpp", "geometry/reeds_shepp.h"],
  [("base word formulas", "geometry/reeds_shepp.cpp:Private::LfSfLf ... LfRbpi2SbLbpi2Rf"),
   ("word table with time-flip and mirror", "geometry/reeds_shepp.cpp:GetGoalArray, GetMotionLengths, GetPath"),
   ("selection", "geometry/reeds_shepp.cpp:Solver::GetShortestDistance, GetShortestPath, GetOptimalPath"),
   ("cost", "geometry/reeds_shepp.cpp:PathSegment::ComputeCost")])

prop("C07", "Path segments interpolate and truncate coherently",
  "On every elementary path, ratio 0 gives the initial state, ratio 1 gives the final state, and the stated length is the distance travelled between them. After truncating at a ratio, the final state is the one that was at that ratio, the length is scaled by that ratio, the initial state is unchanged, and every later interpolation, direction or cusp query on the truncated path agrees with the original path at the corresponding place.",
  ["end states", "ratios", "path kinds"],
  "for every kind of elementary path, every pair of end states, every ratio between 0 and 1 and every sequence of truncations",
  "Truncation rewrites several coupled fields and the error only appears when the truncated path is used again; tests never truncate and re-query.",
  ["paths/path_r2.cpp", "paths/path_se2.cpp", "paths/path_constant_steer.cpp", "paths/path_reeds_shepp.cpp", "paths/path.h"],
  [("straight paths", "paths/path_r2.cpp:PathR2; paths/path_se2.cpp:PathSE2"),
   ("constant steering", "paths/path_constant_steer.cpp:PathConstantSteer"),
   ("Reeds-Shepp paths", "paths/path_reeds_shepp.cpp:PathReedsShepp::Interpolate, Truncate, GetDirection, GetCuspPointRatios")])

prop("C08", "A composite path is the exact concatenation of its pieces",
  "A composite path's length is the sum of its pieces' lengths, it starts where its first piece starts and ends where its last piece ends, and a ratio is resolved to the piece and the ratio inside that piece that lie at that travelled distance. Truncating keeps exactly the part before the cut and appending afterwards continues from there. Cusps are reported at the composite ratios where the direction of motion changes, and the direction at a ratio is that of the piece in force there.",
  ["piece sequences", "ratios", "operation histories"],
  "for every sequence of pieces (including zero-length ones), every ratio between 0 and 1 and every sequence of appends and truncations",
  "Piece boundaries, zero-length pieces and operations after a truncation are the failing cases, and no test builds a composite path directly.",
  ["paths/path_composite.h", "paths/path_composite.cpp"],
  [("append and lookup", "paths/path_composite.h:PathComposite::PushBack, FindSegment"),
   ("interpolation and truncation", "paths/path_composite.h:PathComposite::Interpolate, Truncate"),
   ("cusps and direction", "paths/path_composite.cpp:GetCuspPointRatios, GetDirection")])

prop("C09", "Obstacle bookkeeping of the occupancy map is exact",
  "After any sequence of additions and removals of obstacles, a cell is reported occupied if and only if it lies on the boundary of some obstacle currently in the map. Adding an obstacle twice or removing an absent one is refused and changes nothing, live obstacles have distinct identifiers, and a cell's value is the identifier of an obstacle that really covers it. The obstacle count always equals the number of obstacles added and not removed.",
  ["obstacle sets", "operation histories"],
  "for every sequence of additions and removals, including obstacles that share cells",
  "Shared cells and identifier reuse depend on the history of additions and removals; the tests only add obstacles.",
  ["state_validator/obstacle_list_occupancy_map.cpp", "state_validator/obstacle_list_occupancy_map.h"],
  [("identifier allocation", "state_validator/obstacle_list_occupancy_map.cpp:FindSmallestIDAvailable"),
   ("add/remove", "state_validator/obstacle_list_occupancy_map.cpp:AddObstacle, RemoveObstacle"),
   ("query", "state_validator/obstacle_list_occupancy_map.cpp:IsOccupied")])

prop("C10", "Rasterised obstacle outlines are gap-free and inside the map",
  "Rasterising a segment yields, in order, one cell per step along its longer axis from one end cell to the other, consecutive cells touch, every cell lies within half a cell of the ideal line, and exactly the cells outside the map are dropped. A polygon's outline is the union of the rasterised edges joining consecutive vertices, including the closing edge, at the obstacle's pose. Cells already in the output are kept.",
  ["segments", "polygons", "map sizes"],
  "for every pair of end points, every slope and direction, every polygon and every map, also when part of the outline lies outside the map",
  "Errors in the integer error term show only for particular slopes and octants, and dropped border cells only for outlines leaving the map.",
  ["state_validator/obstacle.cpp", "state_validator/obstacle.h"],
  [("line rasterisation", "state_validator/obstacle.cpp:Shape::RasterizeLine"),
   ("outline", "state_validator/obstacle.cpp:PolygonShape::GetGridCellsPosition, GetVerticesPosition"),
   ("shapes", "state_validator/obstacle.cpp:RectangleShape, RegularPolygonShape, CircleShape, CompositeShape")])

prop("C11", "Map coordinate conversions agree with one another",
  "A cell converts to the local and world position of its lower corner (up to rounding), every position inside a cell converts back to that cell, world and local conversions are inverse translations of each other, and a position is reported inside the map exactly when its cell is a cell of the grid. A bounded conversion returns the true cell when it is inside and the invalid cell otherwise. These relations hold wherever the map is placed.",
  ["map sizes and resolutions", "map positions", "cells and positions"],
  "for every map size, positive resolution and map position, every cell and every position inside, outside or on the border",
  "Positions just outside the lower border, displaced maps and non-integral sizes are the failing cases; tests use centred maps and interior points.",
  ["state_validator/occupancy_map.h", "state_validator/occupancy_map.cpp"],
  [("conversions", "state_validator/occupancy_map.h:GridPositionToGridCell, WorldPositionToGridCell, GridCellToWorldPosition, ..."),
   ("placement and size", "state_validator/occupancy_map.cpp:InitializeSize; occupancy_map.h:SetPosition"),
   ("inside test", "state_validator/occupancy_map.cpp:IsInsideMap")])

prop("C12", "Distance map is exact to the obstacle it names",
  "After every history of insertions, removals and updates the stated distance of a cell is the exact distance to the obstacle cell it names (the maximal distance if it names none), obstacle cells name themselves at distance zero, and no access leaves the grid; the same holds for the map of Voronoi edges, and no obstacle cell is an edge after an update. After a history without removals every named cell is an obstacle and no neighbouring cell's obstacle would be closer. The Voronoi potential of a cell is the stated function of its two distances, always lies between 0 and 1 and is 0 at or beyond its cut-off distance.",
  ["grids", "obstacle sets", "update histories"],
  "for every grid size, every history of obstacle insertions, removals and updates, and every order in which the queue hands out cells",
  "The incremental brush fire depends on queue order and on the history of updates; no test inspects the distance map.",
  ["state_validator/gvd.cpp", "state_validator/gvd.h"],
  [("wave propagation", "state_validator/gvd.cpp:ObstacleDistanceMap::Update, VoronoiDistanceMap::Update"),
   ("obstacle edits", "state_validator/gvd.cpp:SetObstacle, UnsetObstacle, SetEdge, UnsetEdge, CheckVoro"),
   ("potential", "state_validator/gvd.cpp:PathCostMap::Update")])

prop("C13", "Validated states and paths keep clear of obstacles and bounds",
  "A state is accepted if and only if it lies within the bounds and the map and its cell's obstacle distance is at least the safety radius. A path is accepted only if every sampled state of it, including both ends, is accepted, and no unsampled stretch is longer than the larger of the minimum step and the clearance proved at its start. When a path is rejected, the reported ratio designates an accepted state before the first rejected one, or zero if the path is bad from its start.",
  ["states", "paths", "maps", "parameters"],
  "for every state, path, map content, bounds, safety radius and positive sampling step",
  "Which states are sampled depends on clearances along the path; the tests use one free map and paths that are clear or blocked in the middle.",
  ["state_validator/state_validator_occupancy_map.cpp", "state_validator/state_validator_free.h", "state_validator/state_validator.h"],
  [("state check", "state_validator/state_validator_occupancy_map.cpp:IsStateValid"),
   ("path check with adaptive step", "state_validator/state_validator_occupancy_map.cpp:IsPathValid")])

prop("C14", "State-space bounds are enforced and respected by sampling",
  "Enforcing the bounds always yields a state inside them and leaves a state that is already inside unchanged, coordinate by coordinate. The bounds check accepts a state if and only if each coordinate lies between its lower and upper bound, both included. Every sampled state, uniform or Gaussian, single or in a batch of the requested size, lies within the bounds.",
  ["states", "bounds", "random draws"],
  "for every state, every bounds with lower not above upper, and every outcome of the random generator",
  "Tests use one interior state; the boundary values, single coordinates out of range and extreme random draws are never exercised.",
  ["state_space/state_space_r2.cpp", "state_space/state_space_se2.cpp", "state_space/state_space.h", "utils/random.h"],
  [("clamping and check", "state_space/state_space_r2.cpp, state_space/state_space_se2.cpp:EnforceBounds, ValidateBounds"),
   ("sampling", "state_space_r2.cpp, state_space_se2.cpp:SampleUniform, SampleGaussian; utils/random.h")])

prop("C15", "Pose arithmetic is consistent and headings stay normalised",
  "Composing a pose with the difference of another and itself gives that other pose back, for every pair of planar poses, and composition with the identity changes nothing. Every pose constructed, added or subtracted has a heading between minus pi and pi that represents the same direction as the unwrapped angle. Poses, points and cells that compare equal hash equally, and integer poses keep their heading unchanged.",
  ["poses", "angles"],
  "for every pair of poses and every finite angle",
  "The rotation terms and the wrap-around loop are only wrong for particular quadrants or multi-turn angles; no test checks the algebra.",
  ["geometry/2dplane.h", "geometry/2dplane.cpp", "utils/maths.h", "core/hash.h"],
  [("wrap", "geometry/2dplane.h:Pose2::WrapTheta"),
   ("composition and difference", "geometry/2dplane.h:operator+, operator-"),
   ("equality and hashing", "geometry/2dplane.h:std::hash, std::equal_to")])

prop("C16", "Smoothing keeps end points and cusps and never returns an unsafe path",
  "A smoothed path has as many poses as the input, its first and last poses and every cusp pose are exactly those of the input, and headings are unchanged. If smoothing reports anything but failure then every pose of the smoothed path is accepted by the state validator. Fewer than five poses, or a zero iteration limit, leave the path as it was, and smoothing always stops within its iteration limit.",
  ["paths", "cusp sets", "maps", "parameters"],
  "for every path length, every set of cusp indices, every map and every parameter setting",
  "Which indices move depends on the pattern of cusps near the ends and near each other; the tests run the smoother only inside one full planning problem.",
  ["algo/smoother.cpp", "algo/smoother.h"],
  [("index selection", "algo/smoother.cpp:Smoother::Smooth"),
   ("gradient step", "algo/smoother.cpp:Smoother::Smooth, CalculateCurvatureTerm"),
   ("safety check", "algo/smoother.cpp:Smoother::IsPathSafe")])

prop("C17", "Vehicle motions respect the turning radius and are priced correctly",
  "A constant-steering motion follows the bicycle kinematics: its heading changes by the travelled distance over the turning radius, it moves on the corresponding circle or straight line, and driving the same motion backwards from its end returns to its start. The search never generates a motion that turns tighter than the minimum turning radius, with at least two generated motions always offers straight motion and both turning directions, and only offers motions that the validator accepted or their accepted part. A constant-steering motion costs its length times its direction's multiplier, plus the switching price if the direction changes, plus a non-negative proximity cost.",
  ["poses", "steering angles", "distances", "parameters"],
  "for every pose, steering angle, travelled distance, direction and parameter set with positive turning radius and resolution",
  "Kinematic or pricing errors depend on parameter values such as the number of motions and the multipliers; the tests keep the default parameters.",
  ["models/kinematic_bicycle_model.cpp", "algo/hybrid_a_star.cpp", "algo/hybrid_a_star.h"],
  [("bicycle model", "models/kinematic_bicycle_model.cpp:ConstantSteer, GetSteeringAngleFromTurningRadius"),
   ("motion primitives", "algo/hybrid_a_star.cpp:StatePropagator::StatePropagator, GetConstantSteerChild, GetReedsSheppChild, GetNeighborStates"),
   ("pricing", "algo/hybrid_a_star.cpp:GetConstantSteerChild, GetVoronoiCost")])

prop("C18", "Sampling-based planners return only validated connected paths",
  "When a sampling-based planner reports success, the path starts at the initial state, ends at a state its goal test accepts, and each step between consecutive states is a connection that the validator accepted. A step taken toward a sample is never longer than the connection distance, and the search ends within its iteration and node limits. On failure the path is empty.",
  ["random draws", "validators", "goals", "parameters"],
  "for every sequence of random samples, every validator, every goal and every parameter setting",
  "The tree depends on random draws and on which connections are rejected; tests run two planners once on free or simple maps and only check success.",
  ["algo/rrt.h", "algo/rrt_star.h", "utils/tree.h"],
  [("main loops", "algo/rrt.h:RRT::SearchPath; algo/rrt_star.h:RRTStar::SearchPath"),
   ("steering", "algo/rrt.h, algo/rrt_star.h:SteerTowards, SteerExactly"),
   ("tree extension and path extraction", "utils/tree.h:Tree::Extend; GetPath")])

prop("C19", "Bidirectional search returns one connected, exactly priced, best path",
  "When the bidirectional search succeeds, the two halves meet at a common state that occurs once in the returned path, which runs from the initial state to the goal along offered transitions. The reported cost is the sum of the transition costs of that path, and with consistent paired heuristics it is the minimum over all paths. The averaged heuristic pair always adds up to a constant.",
  ["graphs", "transition costs", "heuristics"],
  "for every finite transition system and its reverse with non-negative costs and every consistent pair of heuristics",
  "The stopping rule and the joining of the two halves fail only on graphs where the first meeting point is not on a best path; the test checks one grid.",
  ["algo/bidirectional_a_star.h"],
  [("meeting point", "algo/bidirectional_a_star.h:BidirectionalAStar::FindIntersection"),
   ("stopping rule", "algo/bidirectional_a_star.h:BidirectionalAStar::SearchPath"),
   ("joining", "algo/bidirectional_a_star.h:BidirectionalAStar::GetPath, GetOptimalCost; AverageHeuristic")])

prop("C20", "A planned vehicle path runs from start to goal through valid poses",
  "When the vehicle planner reports success, the returned poses begin at the start pose and end at the goal pose within the stated tolerance, consecutive poses of the path before smoothing are at most two sampling intervals of travel apart, every pose of a smoothed path was accepted by the validator, and every pose of an unsmoothed one lies on the motions of the search (a request that is at its goal from the start returns the start pose alone). When smoothing fails, the unsmoothed path is returned and the reported smoothing status says so. When the search fails or the planner was not initialised, failure is reported and no path of an earlier search is returned.",
  ["start and goal poses", "maps", "parameters", "search histories"],
  "for every start and goal, map, parameter setting and sequence of searches on one planner",
  "It is an end-to-end claim over all maps and start/goal pairs and depends on the sampling of a path whose length and cusps vary; the tests run a single scenario.",
  ["algo/hybrid_a_star.cpp", "algo/hybrid_a_star.h"],
  [("sampling of the graph-search path", "algo/hybrid_a_star.cpp:HybridAStar::SearchPath"),
   ("goal test", "algo/hybrid_a_star.h:GraphSearch::IsSolution, IdenticalPoses"),
   ("state creation", "algo/hybrid_a_star.cpp:CreateStateFromPath, CreateStateFromPose, GetCompositePath")])

prop("C21", "Heuristics are safe to evaluate and never mix up their goal",
  "The obstacle heuristic's cost of a cell is the length of a shortest legal grid route from that cell to the goal cell, cells that cannot reach the goal are never given a finite cost, and off-map or unreached states fall back to the straight-line distance. The obstacle-free heuristic returns the cost of the cheapest Reeds-Shepp path from the state to the goal, with the goal's relative pose rounded to the table, and the straight-line distance at the lower price outside it. The combined heuristic equals the largest of its members and setting its goal sets the goal of each member. Evaluating any heuristic at any state reads only its own tables.",
  ["states", "goals", "maps", "resolutions"],
  "for every map, every goal, every state inside or outside the map and every heading",
  "Wrong relaxation or table indices show only for headings or maps where several routes compete; the tests never query a heuristic.",
  ["algo/heuristics.cpp", "algo/heuristics.h", "algo/a_star.h"],
  [("grid Dijkstra", "algo/heuristics.cpp:ObstaclesHeuristic::Update, GetHeuristicValue"),
   ("lookup table", "algo/heuristics.cpp:NonHolonomicHeuristic::GetHeuristicValue, Build"),
   ("combination and adaptation", "algo/a_star.h:AStarCombinedHeuristic, AStarHeuristicAdapter")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
