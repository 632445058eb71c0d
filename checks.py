"""Registry: which specification modules, drivers and sources decide which property."""
LIB = {
    "openlist": ["src/a_star/Node.cpp", "src/a_star/OpenList.cpp"],
    "maps": ["src/common/GridMap2d.cpp", "src/common/SimpleGridMap2d.cpp", "src/common/RotatedGridMap2d.cpp",
             "src/common/Point2d.cpp", "src/common/Pose2d.cpp", "src/common/Bresenham2d.cpp", "src/common/MapMath.cpp"],
    "collision": ["src/common/CollisionGridMap2d.cpp"],
    "astar": ["src/a_star/AStar.cpp"],
    "generic": ["src/generic/heuristics.cpp", "src/generic/DynamicSteeringNeighborhood.cpp"],
    "reeds": ["src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CurveSegment.cpp",
              "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp", "src/ReedsShepp/GeometryHelper.cpp", "src/common/Path.cpp"],
    "sampling": ["src/sampling/GoalRegion.cpp", "src/sampling/RingGoalRegion.cpp", "src/sampling/CentroidRadiusGoalRegion.cpp",
                 "src/sampling/SamplingPlanner.cpp"],
    "geometry": ["src/geometry/circle.cpp", "src/geometry/intersector.cpp", "src/geometry/line.cpp", "src/geometry/shape.cpp",
                 "src/geometry/tangentor.cpp"],
}
DRIVERS = {
    "openlist": dict(repo=["openlist"]),
    "gridsearch": dict(repo=["maps", "src/generic/heuristics.cpp"], libs=["-lboost_thread", "-lboost_system"]),
    "maps": dict(repo=["maps"]),
    "managers": dict(repo=["maps", "src/generic/heuristics.cpp"], libs=["-lboost_thread", "-lboost_system"]),
    "legacy": dict(repo=["openlist", "astar", "maps"]),
    "curves": dict(repo=["maps", "reeds"]),
    "sampling": dict(repo=["maps", "reeds", "sampling"]),
    "geometry": dict(repo=["geometry", "src/common/Point2d.cpp", "src/common/Pose2d.cpp"]),
    "collision": dict(repo=["maps", "collision"]),
    "distance": dict(repo=["maps", "src/generic/heuristics.cpp"], libs=["-lboost_thread", "-lboost_system"]),
    "expansion": dict(repo=["maps", "generic", "reeds"], libs=["-lboost_thread", "-lboost_system"]),
    "vehicle": dict(repo=["maps", "generic"], libs=["-lboost_thread", "-lboost_system"]),
    "mazes": dict(repo=["src/common/Point2d.cpp", "src/common/Pose2d.cpp"], opencv=True, libs=["-lopencv_imgproc", "-lopencv_core"]),
    "units": dict(repo=["src/common/Pose2d.cpp"], probes={"CONSTEXPR": "probe_constexpr.cpp"}),
}
TRIG_MC = dict(module="TrigMC", cfg="TrigMC.cfg")
EXPANSION_MC = dict(module="ExpansionMC", cfg="ExpansionMC.cfg", thorough_cfg="ExpansionMC_thorough.cfg")
CURVES_MC = dict(module="CurvesMC", cfg="CurvesMC.cfg", thorough_cfg="CurvesMC_thorough.cfg")
GRIDMAP_MC = dict(module="GridMapMC", cfg="GridMapMC.cfg")
WALLS_MC = dict(module="WallsMC", cfg="WallsMC.cfg", thorough_cfg="WallsMC_thorough.cfg")
SEARCH_MC = dict(module="GridSearchMC", cfg="GridSearchMC.cfg", thorough_cfg="GridSearchMC_thorough.cfg")


def _search(pid, groups):
    return dict(driver="gridsearch", groups=groups, module="GridSearchTrace", cfg="GridSearchTrace_%s.cfg" % pid)


def _vast(pid):
    return dict(driver="gridsearch", groups=["vast"], module="GridVastTrace", cfg="GridVastTrace_%s.cfg" % pid)


PROPS = {
    "P01": dict(models=[SEARCH_MC, WALLS_MC], traces=[_search("P01", ["ex", "small", "large", "huge", "many", "hist", "ends"]), _vast("P01")]),
    "P02": dict(models=[SEARCH_MC, WALLS_MC], traces=[_search("P02", ["ex", "small", "large", "huge", "many"]), _vast("P02")]),
    "P03": dict(models=[SEARCH_MC, WALLS_MC], traces=[_search("P03", ["ex", "small", "large", "huge", "many"]), _vast("P03"), dict(driver="gridsearch", groups=["ev"], module="GridSearchEvents")]),
    "P04": dict(models=[SEARCH_MC, WALLS_MC], traces=[_search("P04", ["hist", "histturn", "huge", "many"]), _vast("P04"), dict(_search("P04", ["histspec"]), gen=dict(module="GridHistGen", cfg="GridHistGen.cfg", thorough_cfg="GridHistGen_thorough.cfg", max=6000))]),
    "P05": dict(models=[SEARCH_MC], traces=[_search("P05", ["ends"])]),
    "P06": dict(models=[SEARCH_MC], traces=[dict(driver="gridsearch", groups=["opt"], module="GridSearchOpt")]),
    "P07": dict(models=[dict(module="IntermissionMC", cfg="IntermissionMC.cfg")],
                traces=[dict(driver="units", groups=["inter", "interlong"], module="IntermissionTrace"),
                        dict(driver="units", groups=["interspec"], module="IntermissionTrace",
                             gen=dict(module="IntermissionGen", cfg="IntermissionGen.cfg", thorough_cfg="IntermissionGen_thorough.cfg"))]),
    "P08": dict(models=[dict(module="RoundingMC", cfg="RoundingMC.cfg")], traces=[dict(driver="units", groups=["round"], module="RoundingTrace")]),
    "P09": dict(models=[dict(module="NodesMC", cfg="NodesMC.cfg")],
                traces=[dict(driver="units", groups=["nodes"], module="NodesTrace"),
                        dict(driver="units", groups=["nodespec"], module="NodesTrace",
                             gen=dict(module="NodesGen", cfg="NodesGen.cfg", thorough_cfg="NodesGen_thorough.cfg"))]),
    "P10": dict(
        models=[dict(module="OpenListMC", cfg="OpenListMC.cfg"), dict(module="OpenListBulkMC", cfg="OpenListBulkMC.cfg")],
        traces=[dict(driver="openlist", groups=["bulk"], module="OpenListBulkTrace"),
                dict(driver="openlist", groups=["rnd"], module="OpenListTrace"),
                dict(driver="openlist", groups=["spec"], module="OpenListTrace", gen=dict(module="OpenListGen", cfg="OpenListGen.cfg", max=20000))],
    ),
    "P11": dict(models=[dict(module="LegacyAStarMC", cfg="LegacyAStarMC.cfg", thorough_cfg="LegacyAStarMC_thorough.cfg"), WALLS_MC],
                traces=[dict(driver="legacy", groups=["every", "hist", "large", "huge", "many"], module="LegacyAStarTrace"), dict(driver="legacy", groups=["vast"], module="LegacyVastTrace"),
                        dict(driver="legacy", groups=["spec"], module="LegacyAStarTrace", gen=dict(module="LegacyAStarGen", cfg="LegacyAStarGen.cfg", max=8000))]),
    "P12": dict(models=[GRIDMAP_MC], traces=[dict(driver="maps", groups=["cells"], module="GridMapTrace"), dict(driver="maps", groups=["far"], module="GridMapFarTrace"),
        dict(driver="maps", groups=["mapspec"], module="GridMapTrace", gen=dict(module="GridMapGen", cfg="GridMapGen_cells.cfg", thorough_cfg="GridMapGen_cells_thorough.cfg", max=6000))]),
    "P13": dict(models=[dict(module="MapFrameMC", cfg="MapFrameMC.cfg")], traces=[dict(driver="maps", groups=["convert"], module="MapFrameTrace")]),
    "P14": dict(models=[GRIDMAP_MC, dict(module="RasterMC", cfg="RasterMC.cfg")], traces=[dict(driver="maps", groups=["areas"], module="GridMapTrace"), dict(driver="maps", groups=["far"], module="GridMapFarTrace"),
        dict(driver="maps", groups=["mapspec"], module="GridMapTrace", gen=dict(module="GridMapGen", cfg="GridMapGen_areas.cfg", thorough_cfg="GridMapGen_areas_thorough.cfg", max=6000))]),
    "P15": dict(models=[dict(module="RasterMC", cfg="RasterMC.cfg", thorough_cfg="RasterMC_thorough.cfg")],
                traces=[dict(driver="maps", groups=["linesall", "linesrnd"], module="LineTrace")]),
    "P16": dict(models=[dict(module="SightMC", cfg="SightMC.cfg")], traces=[dict(driver="managers", groups=["sight"], module="SightTrace")]),
    "P17": dict(models=[dict(module="StateSpaceMC", cfg="StateSpaceMC.cfg")], traces=[dict(driver="managers", groups=["lookup"], module="StateSpaceTrace")]),
    "P18": dict(models=[dict(module="HeuristicMC", cfg="HeuristicMC.cfg", thorough_cfg="HeuristicMC_thorough.cfg")], traces=[dict(driver="managers", groups=["norms", "field", "bigfield"], module="HeuristicTrace")]),
    "P21": dict(models=[CURVES_MC], traces=[dict(driver="curves", groups=["parses"], module="CurvesTrace"),
        dict(driver="curves", groups=["words"], module="CurvesTrace", gen=dict(module="CurveWordsGen", cfg="CurveWordsGen.cfg", thorough_cfg="CurveWordsGen_thorough.cfg"))]),
    "P22": dict(models=[TRIG_MC, CURVES_MC, dict(module="PiecesMC", cfg="PiecesMC.cfg")], traces=[dict(driver="curves", groups=["open", "blocked"], module="CurvesTrace"),
        dict(driver="curves", groups=["pieces"], module="PiecesTrace")]),
    "P23": dict(models=[dict(module="RegionsMC", cfg="RegionsMC.cfg"), TRIG_MC], traces=[dict(driver="sampling", groups=["regions"], module="RegionsTrace")]),
    "P24": dict(models=[dict(module="SamplingMC", cfg="SamplingMC.cfg")], traces=[dict(driver="sampling", groups=["planner"], module="SamplingTrace")]),
    "P25": dict(models=[dict(module="ArcMC", cfg="ArcMC.cfg")], traces=[dict(driver="geometry", groups=["arcs"], module="ArcTrace"),
        dict(driver="geometry", groups=["arcspec"], module="ArcTrace", gen=dict(module="ArcGen", cfg="ArcGen.cfg", thorough_cfg="ArcGen_thorough.cfg"))]),
    "P26": dict(models=[dict(module="ShapesMC", cfg="ShapesMC.cfg", thorough_cfg="ShapesMC_thorough.cfg")], traces=[dict(driver="geometry", groups=["shapes"], module="ShapesTrace")]),
    "P27": dict(models=[dict(module="DiscreteMC", cfg="DiscreteMC.cfg"), TRIG_MC], traces=[dict(driver="geometry", groups=["cut"], module="DiscreteTrace")]),
    "P28": dict(models=[dict(module="TangentMC", cfg="TangentMC.cfg"), TRIG_MC], traces=[dict(driver="geometry", groups=["tangents"], module="TangentTrace")]),
    "P30": dict(models=[dict(module="VectorsMC", cfg="VectorsMC.cfg"), TRIG_MC], traces=[dict(driver="geometry", groups=["vectors"], module="VectorTrace")]),
    "P19": dict(models=[dict(module="VehicleMC", cfg="VehicleMC.cfg", thorough_cfg="VehicleMC_thorough.cfg"), TRIG_MC], traces=[dict(driver="vehicle", groups=["fixed", "dynamic", "turning"], module="VehicleTrace")]),
    "P20": dict(models=[dict(module="VehicleSearchMC", cfg="VehicleSearchMC.cfg", thorough_cfg="VehicleSearchMC_thorough.cfg"), TRIG_MC], traces=[dict(driver="vehicle", groups=["goals"], module="VehicleGoalTrace"), dict(driver="vehicle", groups=["searches"], module="VehicleSearchTrace")]),
    "P31": dict(models=[EXPANSION_MC], traces=[dict(driver="expansion", groups=["asks"], module="ExpansionAskTrace")]),
    "P32": dict(models=[EXPANSION_MC, TRIG_MC], traces=[dict(driver="expansion", groups=["shepp"], module="ExpansionTrace")]),
    "P33": dict(models=[dict(module="DistanceFieldMC", cfg="DistanceFieldMC.cfg", thorough_cfg="DistanceFieldMC_thorough.cfg"), dict(module="HeuristicMC", cfg="HeuristicMC.cfg", thorough_cfg="HeuristicMC_thorough.cfg"), WALLS_MC], traces=[dict(driver="distance", groups=["vast"], module="DistanceVastTrace"), dict(driver="distance", groups=["small", "large"], module="DistanceFieldTrace")]),
    "P34": dict(models=[dict(module="MazesMC", cfg="MazesMC.cfg", thorough_cfg="MazesMC_thorough.cfg"), dict(module="FillingMC", cfg="FillingMC.cfg")], traces=[dict(driver="mazes", groups=["mazes", "every", "fill"], module="MazesTrace")]),
    "P29": dict(models=[dict(module="FootprintMC", cfg="FootprintMC.cfg"), TRIG_MC], traces=[dict(driver="collision", groups=["footprint"], module="FootprintTrace")]),
}

# what each check covers and what it leaves out (MANIFEST level_note)
NOTES = {
    "P01": "Specification of sound paths, judged on every recorded answer: all 3x3 maps (all starts and goals, every search kind in the thorough tier), random maps up to 30x30, windows of maps of up to 140000 cells (chosen so that wrapped cell numbers would meet), histories, odd endpoints. The model checker proves the best-first design sound on all 4x2 (thorough 3x3) maps for every tie-break. The real code is sampled beyond these sizes. Beyond that, maps of up to 130000 (thorough 180000) cells whose ways the specification knows as sums from gap to gap of walls (proved equal to the cell-by-cell distances for all small such maps), with tens of thousands of expansions and paths of up to 50000 cells, and objects that have answered up to 100000 queries.",
    "P02": "Reachability computed by the specification for every recorded query: all 3x3 maps, random ones up to 30x30, windows of maps of up to 140000 cells; a search that does not return within 60 s or crashes is a violation. Termination of the design is a liveness property checked on all 4x2 maps. Beyond that, maps of up to 130000 (thorough 180000) cells whose ways the specification knows as sums from gap to gap of walls (proved equal to the cell-by-cell distances for all small such maps), with tens of thousands of expansions and paths of up to 50000 cells, and objects that have answered up to 100000 queries.",
    "P03": "Shortest distances computed by the specification (exact steps, costs compared at 1e-5 cells), also in windows of maps of up to 140000 cells; single steps of the open list of real searches are validated against best-first search. Beyond that, maps of up to 130000 (thorough 180000) cells whose ways the specification knows as sums from gap to gap of walls (proved equal to the cell-by-cell distances for all small such maps), with tens of thousands of expansions and paths of up to 50000 cells, and objects that have answered up to 100000 queries.",
    "P04": "Every history of length 4 (thorough 5) over an alphabet of 11 operations, generated by TLC and replayed into the real object, random histories up to 24 operations (short ones also in windows of large maps), and histories on maps whose cells can be entered in some headings only; each answer judged as that of a fresh object; searches with goal tests and candidates are compared with those of one. Beyond that, maps of up to 130000 (thorough 180000) cells whose ways the specification knows as sums from gap to gap of walls (proved equal to the cell-by-cell distances for all small such maps), with tens of thousands of expansions and paths of up to 50000 cells, and objects that have answered up to 100000 queries.",
    "P05": "Endpoints anywhere including fractional and negative positions next to the border; outcome class decided by the specification.",
    "P06": "Recorded event sequences (served nodes, goal tests, callbacks, result) judged by the specification; interruptions at the beginning or at any of the first 12 callbacks; time limits only at the two extremes (used up, not reached), as real time is not modelled.",
    "P07": "Design model of the countdown for all N<=9, S<=12 and 40 calls; every interleaving of two policies up to 9 (12) calls replayed, random ones up to 400 calls; policies up to 70000 with up to 90000 calls are judged by the intervals between firings, which the specification proves equal to stepping.",
    "P08": "Exact decomposition of doubles; sampled over all binades and neighbours of halves, not exhaustive over 2^64 values.",
    "P09": "All histories of length 3 (4) of marks and initialisations for nine node types, random longer ones over dirty memory.",
    "P10": "Design model of every history of a 2x2 list; all histories of length 5 of a small alphabet replayed, and random long ones on larger grids, some with 70000 cells of which those used have numbers that differ by powers of two; lists that hold more than 9000 entries at a time are judged by a specification of bulk insertions and removals.",
    "P11": "Best-first design with whole-cell estimates proved to find paths at most twice the shortest (all 3x2, thorough 3x3 maps, every tie); the real planner judged on all 3x3 maps and pairs, random histories with maps of other sizes and maps resized in place, maps up to 24x24, and windows of maps of up to 140000 cells. Beyond that, maps of up to 130000 (thorough 180000) cells whose ways the specification knows as sums from gap to gap of walls (proved equal to the cell-by-cell distances for all small such maps), with tens of thousands of expansions and paths of up to 50000 cells, and objects that have answered up to 100000 queries.",
    "P12": "Whole-map observation after every operation; all histories of length 3-4 over a small alphabet generated by TLC and replayed, random ones on maps up to 5x5 with thresholds, no-information value, raw writes and resizes. Maps of up to 200000 cells are observed by every cell that differs from a pattern and by cells that could be mistaken for each other.",
    "P13": "Points are exact multiples of 1/16 cell with rotations by Pythagorean angles, so that the specification decides exactly; points closer to a cell border than rounding allows are not sampled on rotated maps. One case in twenty is a map with a side of 127 to 40000 cells; a quarter of the frames lie up to 100000 from the world's origin. Single precision variants are compared to 10^-6.",
    "P14": "Rasterised lines and circles are computed by the specification; visits, writes, tests, save and restore compared on maps up to 12x12 including areas partly or wholly outside, and on maps of up to 200000 cells as for P12.",
    "P15": "All pairs of cells of a 9x9 (thorough 13x13) map, random pairs on maps up to 150x150 with some ends outside, lines of up to 3000 cells, re-using the rasteriser.",
    "P16": "Contract for lines with left-out cells proved of the walking design for all lines up to 9 cells and 3 left-out cells; the real managers sampled with maps up to 40x12 and lines up to 600 cells, positions up to 45 cells outside, resolutions 1 to 1/20, and cells whose state depends on the heading.",
    "P17": "Block addressing of the lazily allocated space proved injective for small blocks; random histories of lookups through all overloads of all four managers, with tags that reveal lost or shared nodes; some spaces have up to 360000 cells or 2.4 million nodes, asked at positions powers of two apart. Headings within a hundredth of a slot border are not sampled.",
    "P18": "Sweeping design of the obstacle field proved exact over the cells off the outermost ring for all inner maps of 5x4 (5x5) and all goals; the real field is compared cell by cell on maps up to 9x9 and padded ones. Values that respect the outermost ring as well as the present ones that leave it out are accepted on open borders.",
    "P21": "The grammar as a state machine over letters; all words up to 5 (7) letters of L R S | and all strings up to 4 (5) letters with parentheses, b, p and a foreign letter are replayed, each followed by two searches whose curve, weight and waypoints identify the segments; random sequences of parses with searches in between.",
    "P22": "Every solution of every word is computed by the specification in integer trigonometry (checked accurate to 10^-7) and proved drivable on a lattice of goals; recorded searches are compared by weight, turn and every waypoint. For whole curves obstacles are decided when they are more than four cells from or deeper than four cells on the curve and map costs are bounded; for single lines and arcs (Pieces.tla: rasterised line and midpoint circle) the weight over maps of mixed values is compared exactly, cells at the very ends of an arc and ties of a line going either way. Costs come in magnitudes up to 2^24. Near-degenerate tangencies and arcs within rounding of zero are accepted either way.",
    "P23": "All passes of random regions up to 40 samples and some up to 1200; the samples of rings with a width are random within it and only bounded.",
    "P24": "The curve generator itself is the oracle of what a curve to a sample weighs (it is judged by P22); maps up to 60x60, scripted and real goal regions, costs and gains of several magnitudes, repeated queries.",
    "P25": "Arcs as a state machine over start, arc angle and sense; every sequence of 3 (4) edits over multiples of 45 degrees and both senses replayed, random ones up to 12 edits with angles from -19 to 19 rad; everything visible is compared after each edit to 10^-6 rad and 5*10^-5 in length, membership outside a band of the tolerance around the ends; a quarter of the cases lie up to 100000 from the origin.",
    "P26": "Whole coordinates up to 12 in units of 1/2 to 4, in a quarter of the cases about an origin up to 100000 away, decided by integer arithmetic including tangencies and ends; the external segment intersection is a stand-in, so that for two lines only the wrapper is judged.",
    "P27": "Random lines and arcs with up to 40 pieces, some up to 2000 and a few of 33000 to 44000 (whose pieces around powers of two and random ones are compared), about origins up to 100000 away, and resolutions larger than the shape; where the length is a multiple of the resolution up to rounding, one piece more or less is accepted.",
    "P28": "Lines in directions with whole unit vectors, circles with whole centres and radii: existence of touching circles is decided exactly, contacts on the ends of segments and arcs are accepted either way. Paths between circles of the same sense are not judged.",
    "P19": "The neighbourhoods are driven with a stand-in for the search that takes or refuses what they offer. Whether the way to a successor is free is decided for blocks of cells, with a margin of one cell around the line; steering angles are whole degrees of at least 3. States that still owe straight pieces are not driven for half turns.",
    "P20": "Searches with steering, dynamic and turning vehicles (by their names in Algorithms.hpp where they have one; distance, overestimating, hybrid and no heuristic; turning ones also on rotated maps) are recorded expansion by expansion (45 to 130 quick, 200 thorough) and judged against the specification's primitives; later expansions only through the returned path. Steps are one to three cells long; ways within a cell of an obstacle, and poses next to a cell or slot border, may go either way. A goal test within 2 to 4 mm or 3*10^-7 rad of its threshold may go either way. What hybrid heuristics are worth is decided by P18.",
    "P29": "Obstacles are single cells on a uniform map; within a margin of 1.5 cells (plus half a discrete heading at the reach) of the border of the footprint either answer is accepted. Assignment of collision maps is not driven.",
    "P31": "Six searches (grid, steering, dynamic, turning; forward and backwards) with an expansion that answers by script, yes at any of the questions or never; up to three queries on one object, up to 80 questions for vehicles. Answers without a yes are compared with those of a fresh search without expansion.",
    "P32": "Eight parameter sets, up to 18 (thorough 30) questions a case, heuristic costs in 1/16 whose ratios are exact, maps up to 90 cells with discs and walls. Curves within tolerance of an obstacle, the map's border, half a turn or the cheapest weight may go either way.",
    "P33": "Sweeping design of the field and descent along it proved for all inner maps of 5x4 (5x5), goals, starts and ties; the real search is compared cell by cell on maps up to 6x6 and 15x15 (22x22), with up to five (eight) queries on one object. Start and goal are free cells or outside the map. Maps of up to 120000 (thorough 200000) cells between walls, where the field needs a hundred sweeps and more, are compared with the ways the specification knows as sums from gap to gap.",
    "P34": "Depth-first carving proved to end in such a maze for all grids up to 3x3 and 4x2 (4x3), starts and choices, the filling curve proved to pass each room once up to 32 x 32; real mazes judged pixel by pixel on maps up to 40x40 (64x64) and widths 0 to 17, all mazes of eight small grids are produced and counted against the specification; the filling curve is compared on its first 60x60 rooms.",
    "P30": "Coordinates in 1/16, distances and equality also up to 10^8 from the origin, exact results compared exactly, trigonometric ones to 5*10^-5; headings across several turns; tolerances that equal the distance exactly.",
}
NA = {}
