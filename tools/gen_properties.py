#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for ids, titles and statements)."""
import json, os
G = "include/cslibs_path_planning/generic/"
C = "include/cslibs_path_planning/common/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ONLY = "The only test rounds a few positive numbers; nothing of this part is run, let alone for every "

E = "include/cslibs_path_planning/evaluation/"
p("P01", "Planar search paths are collision-free chains from start to goal",
  "Every non-empty path a planar grid search returns (Dijkstra, or A* with the Euclidean, Manhattan or maximum-norm heuristic, over 4- or 8-neighbourhoods of any step width) begins at the cell that contains the start and ends at a cell whose x and y differ from the goal cell by at most the step width. Each step goes to a different cell that is one of the neighbours of the previous one, and every cell visited lies inside the map and is free (the start cell only has to be not occupied). A path whose start already satisfies the goal test is that start cell alone.",
  ["inputs", "configurations"], "every map content and size, resolution, start, goal, neighbourhood, step width, heuristic and tie-breaking of the open list",
  ONLY + "map and query.", [G + "SearchAlgorithm.hpp", G + "DirectNeighborhood.hpp", G + "MapManager.hpp", G + "Algorithms.hpp"],
  [("GenericSearchAlgorithm::findPath / findPathImp / backtrack", G + "SearchAlgorithm.hpp"), ("DirectNeighborhoodBase::iterateFreeNeighbors / isGoal", G + "DirectNeighborhood.hpp")],
  [("open / closed marks, prev, distance", "the search frontier and the best known way to each cell", G + "Common.hpp")], ["return value of findPath"])
p("P02", "Planar searches are complete and always terminate",
  "A planar grid search returns a path exactly when some cell within the goal tolerance can be reached from the start cell over free cells of the map; otherwise it returns an empty path. It terminates for every map and query.",
  ["inputs", "configurations"], "every map, start, goal, neighbourhood, step width, heuristic (also inadmissible ones) and tie-breaking",
  ONLY + "map and query.", [G + "SearchAlgorithm.hpp", G + "DirectNeighborhood.hpp"],
  [("processNeighbor re-opens only on strict improvement", G + "SearchAlgorithm.hpp"), ("findPathImp loop until the open list is empty", G + "SearchAlgorithm.hpp")], None, ["return value of findPath"])
p("P03", "Planar searches return cheapest paths and expand in best-first order",
  "With a consistent heuristic (none, Euclidean or maximum norm; Manhattan on the 4-neighbourhood) the path returned minimises step cost plus heuristic rest over all reachable cells within the goal tolerance, where a straight step costs step width times resolution and a diagonal one the square root of two times that, and the cost stored at every path node equals the cost of the path up to it. Nodes are expanded in order of non-decreasing cost estimate among those open, and for every heuristic a node's stored cost is that of a real path to it.",
  ["inputs", "configurations"], "every map, query, resolution and tie-breaking; exact costs in Z[sqrt 2]",
  ONLY + "map and query; optimality quantifies over all alternative paths.", [G + "SearchAlgorithm.hpp", G + "Heuristics.hpp", G + "DirectNeighborhood.hpp", G + "NodeManager.hpp", G + "Common.hpp"],
  [("processNeighbor", G + "SearchAlgorithm.hpp"), ("Heuristic*::compute", G + "Heuristics.hpp"), ("CompareNode / PriorityQueueManager", G + "NodeManager.hpp")], None, ["return value of findPath", "calls to the open-list policy"])
p("P04", "A planner object can be reused: every search is independent of history",
  "The result of a search depends only on the map, the query and the options, not on earlier searches of the same object: repeating a query, changing start, goal, options or map (also of another size) in between, or aborting an earlier search with an exception thrown by a callback, gives the same feasibility and the same path cost as a fresh object, also on maps that can be entered in some headings only. The expansion counter reported afterwards belongs to the last search alone.",
  ["histories", "fault_sequences"], "every sequence of searches, map changes (with and without a new setMap) and aborted searches on one object",
  "No test runs even one search.", [G + "SearchAlgorithm.hpp", G + "MapManager.hpp"],
  [("init() / initMap() / setMap()", G + "SearchAlgorithm.hpp")], [("node marks and distances", "left over from an earlier search unless reset", G + "Common.hpp")], ["findPath", "getExpansions"])
p("P05", "Invalid start or goal is reported with the documented exception",
  "A planar search whose start or goal lies outside the map throws the start-outside or goal-outside exception, and one whose start or goal cell is occupied throws the start-not-free or goal-not-free exception; the start is examined first. No other query throws one of them, and the object stays usable afterwards.",
  ["inputs", "histories"], "every start and goal position (also negative, fractional, on the border and far away) on every map",
  ONLY + "endpoint.", [G + "SearchAlgorithm.hpp", G + "MapManager.hpp", G + "Heuristics.hpp"],
  [("initStartPose / initGoalPose", G + "SearchAlgorithm.hpp"), ("GridMapManager::lookup", G + "MapManager.hpp")], None, ["exceptions of findPath"])
p("P06", "Oversearch, candidates, goal tests, time limit, interruption keep their contract",
  "With an oversearch distance the search goes on past the first goal candidate until an expanded node's cost estimate exceeds that of the first candidate by more than this distance, and returns the candidate whose end is nearest to the goal; the candidate callback sees each candidate path, and the first one it accepts is returned at once. A search with a caller-supplied goal test ends at the first expanded node that passes it if a result exists, and calls the test once per expanded node in expansion order. A time limit that is already used up yields no path, one that is not reached changes nothing, and none is applied unless set. A search whose thread is interrupted (boost) stops before it takes another node, with boost's exception.",
  ["inputs", "configurations", "histories"], "every map, query, oversearch distance, candidate decision sequence and goal test",
  ONLY + "option setting.", [G + "SearchAlgorithm.hpp", G + "Common.hpp"],
  [("findPathImp, hasPoseBeenReached, addGoalCandidate, getPathCandidates, setTimeLimit", G + "SearchAlgorithm.hpp")], [("goal_candidates, first_candidate_weight", "candidates so far", G + "SearchAlgorithm.hpp")], ["findPath", "getPathCandidates", "callbacks"])
p("P07", "Progress callbacks fire with the configured cadence",
  "A callback configured with interval N>0 and initial phase S fires on each of the first max(S,1) calls and from then on exactly on every N-th call; with interval 0, and with the no-op policy, it never fires. The copying variant copies the source to the target exactly when it fires, before the callback runs, and otherwise leaves the target alone, and the two variants and differently configured policies count independently.",
  ["histories", "configurations"], "every interleaving and number of calls, every (N,S) and both variants",
  ONLY + "call sequence.", [G + "Intermission.hpp"], [("CallbackIntermission::call / callAndCopy", G + "Intermission.hpp")],
  [("next, start", "static countdown per instantiation and variant", G + "Intermission.hpp")], ["callback invocations"])
p("P08", "Compile-time rounding rounds every number to the nearest integer",
  "For every floating point number whose rounded value fits an int, the rounding helper returns the nearest integer, and of two equally near ones that farther from zero; it is odd (round(-x) = -round(x)) and usable in constant expressions.",
  ["inputs"], "every double in the int range, including both neighbours of every tie",
  "The test rounds a handful of positive values; negative ones, ties and neighbours of ties are not sampled.", [C + "TmpMath.hpp"], [("tmpmath::round", C + "TmpMath.hpp")], None, ["return value"])
p("P09", "Search nodes initialise completely and their marks are independent flags",
  "Initialising any node type resets cost to infinity, predecessor to none, marks to none, heuristic to zero and direction, steering angle and depth to their defaults whatever the memory held before, and takes the position (and, where the type has one, the orientation) given. Marking and un-marking change exactly the named flags; the total cost is the path cost, plus the heuristic where the type has one, and the queue order prefers the smaller total cost (the two-key node of the dynamic search orders by its keys instead).",
  ["histories", "inputs"], "every node type, every previous content of the memory, every sequence of mark, unmark and init",
  ONLY + "sequence.", [G + "Common.hpp", G + "SteeringNode.hpp", G + "Heuristics.hpp"],
  [("Node::mark/unMark/isMarked/init", G + "Common.hpp"), ("HeuristicNode / DHeuristicNode", G + "Heuristics.hpp"), ("SteeringNode::init", G + "SteeringNode.hpp")], [("marked", "bit set", G + "Common.hpp")], ["public members"])
p("P10", "The legacy open list serves each cell once, cheapest unserved cell first",
  "Between two resets the open list hands out every registered cell at most once, each time one whose cost estimate, compared at integer precision, is minimal among the cells registered and not yet handed out, and reports none when there is no such cell. Registering a cell that was already handed out or that has at least as good an entry changes nothing, a better entry (again at integer precision) replaces the old one, positions outside the grid are ignored, and a reset forgets everything.",
  ["histories"], "every sequence of reset, set-start, add and get-first on every grid size",
  ONLY + "operation sequence.", ["src/a_star/OpenList.cpp", "src/a_star/Node.cpp", "include/cslibs_path_planning/a_star/OpenList.h", "include/cslibs_path_planning/a_star/Node.h"],
  [("OpenList::addNode / getFirstNode / prepareNewSearch", "src/a_star/OpenList.cpp")], [("status map, open nodes", "per-cell visited state and best estimate", "src/a_star/OpenList.cpp")], ["public member functions"])
p("P11", "The legacy A* planner finds a connected free path whenever one exists",
  "Planning succeeds exactly when the start cell can be reached from the goal cell over 8-connected free cells (the goal cell itself need not be free), and fails if an endpoint is outside the map. After success the path runs from start to goal in steps between 8-neighbours, over free cells, without visiting a cell twice and at most twice as long as the shortest one; after failure it is empty. Results do not depend on earlier plans or on the size or content the map, or another one set before, used to have.",
  ["inputs", "histories"], "every map, start, goal and every sequence of plans and map changes on one planner",
  ONLY + "map.", ["src/a_star/AStar.cpp", "include/cslibs_path_planning/a_star/AStar.h", "src/a_star/OpenList.cpp"],
  [("AStar::planPath / calculateNextNodes / reconstructPath", "src/a_star/AStar.cpp")], None, ["planPath, getLastPath"])
p("P12", "Grid maps store every cell value and classify it by the thresholds",
  "A cell read back gives the value last written to it by any of the write operations and to no other cell; changing the size or replacing the data leaves no stale cell. A value is free up to the lower threshold, occupied from the upper threshold on, and without information between the two or exactly at the configured no-information value, which overrides both; these tests agree for index, angle and point access.",
  ["histories", "inputs"], "every write/read/resize/threshold sequence and every map size",
  ONLY + "sequence.", [C + "SimpleGridMap2d.h", C + "GridMap2d.h", "src/common/SimpleGridMap2d.cpp", "src/common/GridMap2d.cpp", C + "RotatedGridMap2d.h", "src/common/RotatedGridMap2d.cpp"],
  [("setValue/getValue/isFree/isOccupied/isNoInformation/set", "src/common/SimpleGridMap2d.cpp")], [("data", "row-major cell values", C + "SimpleGridMap2d.h")], ["public member functions"])
p("P13", "World and cell coordinates convert consistently",
  "For plain and rotated maps with any origin, orientation and resolution, a world point belongs to exactly one cell, the one whose half-open square contains it; it is in the map exactly when that cell is, and converting a cell to world coordinates yields its centre, which converts back to the same cell. Points outside, including those just left of or below the origin, are reported as outside and never mapped to a cell.",
  ["inputs", "configurations"], "every point, origin, rotation, resolution and map size (rotations with exact sine and cosine in the model)",
  ONLY + "point.", ["src/common/SimpleGridMap2d.cpp", "src/common/RotatedGridMap2d.cpp", C + "GridMap2d.h", "src/common/MapMath.cpp"],
  [("point2cell / cell2point / cell2pointSubPixel / isInMap", "src/common/SimpleGridMap2d.cpp"), ("RotatedGridMap2d overrides", "src/common/RotatedGridMap2d.cpp")], None, ["public member functions"])
p("P14", "Area iterators visit exactly the cells of their area",
  "Iterating a line or circle area visits exactly the cells of the rasterised line or circle that lie in the map, each as often as it is listed, and can be repeated; writing, testing and counting over an area acts on exactly those cells, and saving a circle's cells and restoring them gives back the map as it was.",
  ["inputs", "histories"], "every centre, radius, line, map and sequence of area operations",
  ONLY + "area.", ["src/common/GridMap2d.cpp", C + "GridMap2d.h", "src/common/SimpleGridMap2d.cpp"],
  [("CircleArea, LineArea, CircleBuffer: begin/next/getCell", "src/common/GridMap2d.cpp"), ("isAreaFree / isAreaOccupied / setAreaValue", "src/common/SimpleGridMap2d.cpp")], None, ["area visitors", "map contents"])
p("P15", "Line rasterisation is an 8-connected, half-cell-accurate staircase",
  "Rasterising a line between two cells of the map visits a sequence of cells that starts at a neighbour of the first cell, ends at the second, advances by exactly one cell along the longer axis and at most one along the other in every step, and never strays more than half a cell from the ideal line; its length is the larger coordinate difference. If either end lies outside the map no cell is visited.",
  ["inputs"], "every pair of cells of every grid size, and every re-use of the rasteriser",
  ONLY + "line.", ["src/common/Bresenham2d.cpp", C + "Bresenham2d.h"], [("Bresenham2d::setGrid / next / coordinates", "src/common/Bresenham2d.cpp")], [("error term", "distance from the ideal line", "src/common/Bresenham2d.cpp")], ["next/coordinates"])
p("P16", "Line-of-sight queries never miss an obstacle they are meant to look at",
  "A straight-line query of the map managers says free (free or unknown) exactly when every rasterised cell after the first is free (free or unknown) for the heading of the line. The manager with padding may leave out runs of cells spanning at most half a metre but always looks at the end: it never says free when the end or a longer run of cells is not free, nor not free when all cells after the first are free (likewise for free or unknown, and for occupied); it treats cells outside the map as not free, unknown and not occupied. Single cells are answered for the heading asked.",
  ["inputs", "configurations"], "every pair of end points, inside the map and in the padding, every map and resolution",
  ONLY + "line.", [G + "MapManager.hpp"], [("Manager::isFree(4) / isFreeOrUnknown(4); DynamicDirectionalStateSpaceManager::isFree/isOccupied(4)", G + "MapManager.hpp")], None, ["manager member functions"])
p("P17", "State-space lookup is a stable bijection between states and nodes",
  "Looking up a state yields the node initialised for that cell (and heading slot and direction, where the space has them); equal states give the same node and different states different nodes, for as long as the map is set, whatever is looked up in between. Positions outside the space, negative and fractional ones included, are refused with the outside-map exception and never aliased to another state.",
  ["inputs", "histories"], "every position, heading, direction and order of lookups on planar, directional and lazily allocated spaces, including the padding",
  ONLY + "lookup.", [G + "MapManager.hpp"], [("GridMapManager / DirectionalStateSpaceManager / DynamicDirectionalStateSpaceManager ::lookup, contains, hasNode", G + "MapManager.hpp")], [("chunks", "lazily allocated node blocks", G + "MapManager.hpp")], ["lookup"])
p("P18", "Heuristics compute their norm; the obstacle heuristic is exact",
  "Each heuristic stores resolution times its norm of the cell offset to the goal (Euclidean, Manhattan, maximum, Euclidean to the power 1.2 for the over-estimating one), and the maximum of two heuristics where combined. The obstacle heuristic equals the 8-connected shortest distance to the goal over non-occupied cells, where the outermost ring of the map (or of its padding) may be left out; it is zero where the goal cannot be reached so and infinite on occupied cells, belongs to the map and goal set last, and is the true shortest distance for maps with a closed border.",
  ["inputs"], "every offset, map, goal and padding",
  ONLY + "map.", [G + "Heuristics.hpp"], [("Heuristic*::compute, HeuristicHolonomicObstacles::setMap", G + "Heuristics.hpp")], [("costs", "distance field", G + "Heuristics.hpp")], ["h of the node"])
p("P19", "Vehicle motion primitives obey the kinematics and cost rules",
  "The successors offered to the search are exactly those one primitive away. Steering vehicles: one step forward or backward (sense inverted for reversed planners) along the bicycle model's arc, with the steering kept or changed by one to steer_steps increments and cut off at the limit (not beyond it); from the start only in the direction of the state, where a dynamic, not reversed vehicle starting backward first drives its wheel base straight. The direction changes only on a straight piece, if both are allowed, nothing is owed and the required number of predecessors was straight; that number less one is then owed in straight pieces, one paid off per step, and a steered state still owing has no successors. Turning vehicles: one step after a turn of a tenth of the steer angle either way (optionally half of it) or none, straight only from the start, while owing, and when changing direction (under the same rule). The cost is the driven length times the backward penalty and the penalty for changing direction (1.5 and 4 for turning vehicles). A successor outside the map (with padding), or whose cell or way is occupied, is not offered. An offer the search takes sets pose, steering, direction, owed pieces and depth of the node; one it refuses leaves the node alone.",
  ["inputs", "configurations"], "every vehicle state, steering limit, increment and penalty setting",
  ONLY + "vehicle state.", [G + "SteeringNeighborhood.hpp", G + "DynamicSteeringNeighborhood.h", "src/generic/DynamicSteeringNeighborhood.cpp", G + "NonHolonomicNeighborhood.hpp"],
  [("advance / iterateFreeNeighbors", G + "SteeringNeighborhood.hpp")], None, ["calls to processNeighbor"])
p("P20", "Vehicle paths are drivable and collision-free, found if any, and end at the goal",
  "A vehicle search starts from the cell and heading of the start pose, driving either way, at no cost (from the goal for a reversed planner, whose answer ends at the start). It looks at the state first that promises the least: its cost so far plus what the heuristic expects from there (for the Euclidean one, the straight distance in metres; for the over-estimating search, its number of cells to the power 1.2, in cell sizes; for hybrid searches, the larger of the straight distance and what the obstacle heuristic says; nothing for Dijkstra). Of every state it looks at it considers each motion primitive whose way is free and none that is blocked; what it reaches is a state one primitive away, at the cost of the state plus the primitive's cost, and afterwards the cell, heading slot and direction it lies in is known at no higher cost. Hence consecutive poses of a returned path are one primitive apart at its cost, exactly so unless the earlier one was improved after the later one was reached (then up to a cell and a heading slot), no pose lies in an occupied cell or outside the map (padded, but for turning vehicles), and the limits of steering and of changing direction hold. The search ends with the first state looked at that passes the goal test: steering vehicles within pi/8 and 0.05 m of the goal, or 0.1 m of it from the line to the predecessor; dynamic ones within their two thresholds; turning ones within half a step in x and y and pi/8 (reversed steering vehicles must owe nothing, and when driving backward meet the point a wheel base behind the goal). A state in the goal's own cell and heading slot may stand for the goal. No path is returned only if nothing is left to look at or the search was broken off; a start or goal outside or occupied is reported as such. The result does not depend on earlier searches on the same object.",
  ["inputs", "histories", "configurations"], "every map, start pose, goal pose and steering configuration",
  ONLY + "map and pose.", [G + "SteeringNeighborhood.hpp", G + "DynamicSteeringNeighborhood.h", G + "NonHolonomicNeighborhood.hpp", G + "SearchAlgorithm.hpp", G + "MapManager.hpp"],
  [("isGoal / iterateFreeNeighbors / backtrack", G + "SteeringNeighborhood.hpp")], None, ["return value of findPath"])
p("P21", "Curve words are parsed into exactly the curves they denote",
  "Every accepted curve word adds one curve with the segments, turn directions, driving directions and cusps the word spells, in order. The grammar has L, R, S, | (change of driving direction) and, in parentheses that do not nest, b (directly after an arc was spelled) and p. A word outside the grammar adds nothing, is reported on the given stream and answered with false; an accepted one is answered with true and reports nothing. What was parsed is independent of earlier parses.",
  ["inputs", "histories"], "every string over the grammar's alphabet and beyond, and every sequence of parses",
  ONLY + "word.", ["src/ReedsShepp/CurveGenerator.cpp", "include/cslibs_path_planning/ReedsShepp/CurveGenerator.h"],
  [("CurveGenerator::parse", "src/ReedsShepp/CurveGenerator.cpp")], None, ["getCurves / parse result"])
p("P22", "Curve search returns the cheapest admissible curve joining the two poses",
  "For poses at least two cells apart, the curve found joins the start pose to the goal pose without a kink by the segments of a parsed word: arc, line, arc or three or four arcs of alternating turn (with first and last circle centre at least two cells apart), all of the given radius. It has the least weight (arc and line lengths, or with map costs the values of the cells run over, times the weights of direction and kind) among all curves of parsed words that run over free cells of the map only (unless told to ignore obstacles; circles are rounded to whole cells for this) and turn less than the largest arc set, if any; none is returned if no word admits one. Iterating it yields poses on the curve, from the start pose to the goal pose and no further apart than the waypoint distance set. The result is independent of earlier searches.",
  ["inputs", "histories", "configurations"], "every pair of poses, radius, set of words, cost setting and map",
  ONLY + "pose pair.", ["src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/GeometryHelper.cpp"],
  [("CurveGenerator::find_path, Curve::init/weight/is_valid/iterate", "src/ReedsShepp/Curve.cpp")], None, ["find_path", "Curve iteration"])
p("P23", "Goal regions enumerate their samples exactly once per pass",
  "A goal region delivers exactly its announced number of samples per pass (a centroid region without an opening angle just one), then reports that there is none left; a new pass starts over. Sample k of n of a ring lies at angle 2 pi k/n within half the width of the radius, heads along the ring (anticlockwise for positive radius) and leaves the gain alone; those of a centroid region approach the centre at evenly spaced angles around the direct approach from the source, from the distance of the radius, heading for the centre, with a gain from 1 for the direct approach to 2 for the outermost.",
  ["histories", "configurations"], "every centre, radius and sample count and every sequence of passes",
  ONLY + "region.", ["src/sampling/RingGoalRegion.cpp", "src/sampling/CentroidRadiusGoalRegion.cpp", "src/sampling/GoalRegion.cpp", "include/cslibs_path_planning/sampling/GoalRegion.h"],
  [("init / getNextGoal", "src/sampling/RingGoalRegion.cpp")], [("current index", "position in the pass", "include/cslibs_path_planning/sampling/RingGoalRegion.h")], ["getNextGoal"])
p("P24", "The sampling planner picks the best goal sample",
  "The sampling planner returns, among the goal samples inside the map that the curve generator finds a valid curve to, the one with the least curve weight times gain, as that curve in map coordinates; samples outside the map are skipped and none is returned if no sample qualifies or the start is outside the map.",
  ["inputs", "histories"], "every goal region, map, start and curve planner answer",
  ONLY + "region and map.", ["src/sampling/SamplingPlanner.cpp", "include/cslibs_path_planning/sampling/SamplingPlanner.h"],
  [("SamplingPlanner::createPath", "src/sampling/SamplingPlanner.cpp")], None, ["createPath"])
p("P25", "Circular arcs keep start, end, sense and length consistent",
  "A circle is a full arc when new, and an arc made from (or to) a pose leaves (or reaches) that pose with its heading. After every sequence of edits (start or end by angle or by a point, arc angle, or start, arc angle and sense at once) the arc angle lies in [0, 2 pi], setting the start keeps the end and setting the end keeps the start, the end is the start plus the arc angle in the sense of the arc, the length is radius times arc angle, and a point of the circle is on the arc exactly when its angle lies between start and end (both included) in that sense. Where start and end coincide, the arc may be empty or the full circle. Selecting a point off the circle changes nothing and is answered with false.",
  ["histories", "inputs"], "every sequence of edits, with angles from a lattice of exact multiples",
  ONLY + "edit sequence.", ["src/geometry/circle.cpp", "include/cslibs_path_planning/geometry/circle.h"],
  [("Circle::setArcAngle / setStartAngle / setEndAngle / setDirection / isPointOnArc", "src/geometry/circle.cpp")], [("start_angle, arc_angle, arc_direction", "the arc", "include/cslibs_path_planning/geometry/circle.h")], ["public member functions"])
p("P26", "Intersections, distances and nearest points are geometrically exact",
  "For lines, circles and arcs with exactly representable coordinates: the points reported as intersections of segments that are not parallel, of a segment and a circle, of two different circles and of two arcs (outside rounding of their ends) lie on both shapes, none is missing, none is reported twice and none is left over from an earlier call. Foot point, projection, signed distance (positive on the left), side and on-segment tests of lines agree with exact arithmetic; the distance of a point to a segment (also of length zero) or arc is the least over its points and is attained at the reported nearest point. Selecting a start or end moves it exactly if the point is on the line; parallels run at the given distance to the left; a line from a pose has its length and heading; copies behave as their original.",
  ["inputs"], "every pair of shapes from a lattice of exact coordinates",
  ONLY + "pair of shapes.", ["src/geometry/line.cpp", "src/geometry/circle.cpp", "src/geometry/intersector.cpp"],
  [("Intersector::intersect, Line::distanceTo, Circle::distanceTo / nearestPointTo", "src/geometry/intersector.cpp")], None, ["public member functions"])
p("P27", "Discretising a shape covers it from start to end at the asked resolution",
  "Turning a line or arc into poses or points delivers places on it in order of travel (from the start, or from the end when moving backward), starting at the start of travel or, if asked to leave it out, one step from it. Poses of a line are the resolution apart and end within one step of its end, its points end with its end; an arc is cut into as many equal steps as the resolution fits into its length, its poses end at its end, and its points are one step apart around its centre in its sense. Poses head along the shape. A resolution of zero yields no poses, and what the result held before is gone.",
  ["inputs", "configurations"], "every shape, resolution and start-pose option",
  ONLY + "shape.", ["src/geometry/line.cpp", "src/geometry/circle.cpp", "src/geometry/shape.cpp"],
  [("toPoses / toPoints", "src/geometry/circle.cpp")], None, ["toPoses, toPoints"])
p("P28", "Tangents touch their shapes and tangential paths connect them",
  "The tangent circles of a line and a circle are exactly those of the given radius that touch the circle from outside and the line within the segment, with the opposite sense; those between a small and a large circle touch the small one from outside and the large one from inside. Tangent arcs join line and circle (or the two circles, if of opposite sense, the shorter if there are two) at the points where they touch; tangential paths go from the start of the first shape over the shortest such arc to the second shape (for two circles over an arc of at most half a turn), whose pieces meet end to start without a kink, and there is none if there is no such arc.",
  ["inputs"], "every configuration of shapes from a lattice of exact coordinates",
  ONLY + "configuration.", ["src/geometry/tangentor.cpp", "include/cslibs_path_planning/geometry/tangentor.h"],
  [("Tangentor", "src/geometry/tangentor.cpp")], None, ["Tangentor member functions"])
p("P29", "Collision maps treat a pose as blocked when the vehicle footprint hits",
  "For a cell of a collision map and a heading (in the frame of the map), let the footprint be the rectangle reaching from the backward to the forward extent along the heading and half the width to either side. The cell is occupied if it is itself, or if an occupied cell of the map lies deeper inside the footprint than one and a half cells plus half a discrete heading (1/128 of a turn) at its reach; it is not occupied if no occupied cell is that close to the footprint. Likewise it is free (without information) only if itself and all cells deep inside are, and always if all near are. Cells outside the map answer false throughout, turning by full circles changes nothing, and copies answer for their own cells, also after the original is gone.",
  ["inputs", "configurations"], "every footprint, heading and obstacle position",
  ONLY + "footprint.", ["src/common/CollisionGridMap2d.cpp", C + "CollisionGridMap2d.h"],
  [("CollisionGridMap2d::isOccupiedRotated, RobotArea", "src/common/CollisionGridMap2d.cpp")], None, ["isOccupiedRotated, isFreeRotated, isNoInformationRotated"])
p("P30", "Points and poses obey vector algebra and angle conventions",
  "Point and pose arithmetic is componentwise (poses: in the position only, the heading of the result is zero), rotation, polar construction, angle and resizing follow the usual conventions, lengths and distances are Euclidean, symmetric and zero exactly for coinciding points, and two poses are equal (identical) within tolerances exactly when their distance and the absolute value of the wrapped heading difference are within (below) them, in either order. Appending paths keeps order and operands.",
  ["inputs"], "every pair of points or poses from a lattice, with headings across the wrap-around",
  ONLY + "pair.", ["src/common/Point2d.cpp", "src/common/Pose2d.cpp", C + "Point2d.h", C + "Pose2d.h", "src/geometry/shape.cpp"],
  [("Point2d operators, Pose2d::distance_to / isEqual, PathPose::isIdentical", "src/common/Point2d.cpp")], None, ["public member functions"])

p("P31", "An analytic expansion is asked at every state and completes the path",
  "A search with an analytic expansion asks it for every state it takes from its open list, once per goal state and on the map of the search, before the state is tested or expanded, until the expansion answers yes. It then stops and returns the way to that state followed by the poses of the expansion, each once and in their order, with the last state of the way turned to the heading of the first of them; the state may be the start itself. As long as the expansion says no, the search behaves, and answers, as one without expansion.",
  ["inputs", "schedules"], "every map, query, and position of the expansion's yes",
  ONLY + "sequence of answers.", [G + "SearchAlgorithm.hpp"],
  [("GenericSearchAlgorithm::hasPoseBeenReached", G + "SearchAlgorithm.hpp")], None, ["findPath", "the analytic expansion policy"])
p("P32", "Reeds-Shepp expansion tries often enough and yields a free forward curve",
  "A Reeds-Shepp expansion counts the states it is asked for (backward states only if it expands backward, forward ones only if it expands forward). It tries to find a curve when as many states have passed since the last try as its parameter says, scaled down by the least heuristic cost seen over that of the first state, and never for the first state or a backward one. A try says yes exactly if some curve of an arc, a straight line and an arc (1.3 m radius), driven forward and turning less than half a turn, joins state and goal without touching an obstacle or leaving the map; the poses handed out afterwards discretise it with at most 0.15 m between neighbours, as fresh nodes driving in the direction of the state.",
  ["inputs", "histories"], "every state, goal, map and history of questions",
  ONLY + "history of questions.", [G + "ReedsSheppExpansion.hpp", "src/ReedsShepp/CurveGenerator.cpp"],
  [("ReedsSheppExpansion::expand, find, get", G + "ReedsSheppExpansion.hpp")], [("initial_cost, min_cost, current, n", "the cadence", G + "ReedsSheppExpansion.hpp")], ["canExpand, getPath", "expand, get"])
p("P33", "A distance transformation search descends the exact distances to the goal",
  "After a distance transformation search over a grid map, every free cell holds its exact 8-connected distance to the goal cell over free cells (the outermost row and column are a frame that is entered only as start or goal), and every other cell and every cell the goal cannot be reached from holds none. The path starts in the start cell and goes from each cell to a neighbour of least distance until it stands on the goal, which it does exactly if the goal can be reached; otherwise it ends where no neighbour is nearer. Searching ends on every map, start and goal outside the map are refused with an exception, and neither earlier searches, aborted ones included, nor changes of the map leave a trace in a result.",
  ["inputs", "histories"], "every map, start, goal and history of searches on one object",
  ONLY + "map and history.", [G + "DistanceTransformation.hpp"],
  [("DistanceTransformationSearch::findPath", G + "DistanceTransformation.hpp")], None, ["findPath", "the distances of the cells"])

p("P34", "Generated mazes connect all rooms by one way each; fillers follow their curve",
  "A maze drawn into a blocked map, for every map size, cell width, start and sequence of random numbers, consists of all whole cells of the map as rooms and of passages between rooms side by side such that exactly one way joins any two rooms; it is carved depth first from the start's room (of two rooms side by side one lies on the way from the start to the other), every maze of this kind can come out, and nothing else is drawn. The generator always ends, also when it is run again, when the start lies in the margin beyond the last whole cell or when the map has no room for a cell. The space filling curve passes each of 256 x 256 rooms exactly once along the Hilbert curve from room (1, 1), drawn as far as the map reaches.",
  ["inputs", "histories"], "every map size, cell width, start and random sequence",
  ONLY + "size, start and random sequence.", [E + "MapGenerators.hpp"],
  [("map_generator::Maze::run", E + "MapGenerators.hpp"), ("map_generator::HilbertCurve::run", E + "MapGenerators.hpp")], None, ["the drawn map"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
