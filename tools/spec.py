# Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both).
S = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    S.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C = "lanelet2_core/include/lanelet2_core/"
prop("C01", "A map always contains everything its elements refer to",
  "After any sequence of add calls (points, line strings, polygons, lanelets, areas, regulatory elements; with preset or unassigned ids) every layer contains exactly the added elements plus everything they transitively own or reference, each retrievable by its id and sharing its data with the added object. Elements added without an id get a fresh id that differs from every id present in the map or handed out before; re-adding an element changes nothing.",
  ["inputs", "histories"], "all add sequences, element kinds, id assignments and sharing patterns (including cyclic lanelet / regulatory element references) up to the stated sizes",
  "unit tests add a handful of hand-built elements with fixed ids; sharing, cyclic references and id collisions depend on the order and identity of what is added",
  ["lanelet2_core/src/LaneletMap.cpp", C + "LaneletMap.h"],
  [("LaneletMap::add overloads and AddVisitor", "lanelet2_core/src/LaneletMap.cpp"), ("checkId / utils::registerId", "lanelet2_core/src/LaneletMap.cpp")], ["LaneletMap layers: exists/get/find/size/iteration"])
prop("C02", "Generated ids are never handed out twice",
  "An id obtained from the global id generator is never equal to the invalid id, to any id obtained before, or to any id that was registered as used before, no matter in which order registration and generation happen and how concurrent callers interleave.",
  ["schedules", "inputs", "histories"], "every interleaving (at atomic-operation granularity) of concurrent generate/register calls and every registered id value up to the stated bounds",
  "tests call the generator sequentially; uniqueness under interleaving depends on schedules no unit test controls",
  ["lanelet2_core/src/LaneletMap.cpp", C + "utility/Utilities.h"], [("IdGenerator::getId/registerId", "lanelet2_core/src/LaneletMap.cpp")])
prop("C03", "Usage lookup finds exactly the owners of an element",
  "Asking a map layer which of its elements use a given point, line string or regulatory element returns every element of that layer that directly owns it and nothing else, each once; the free usage-search functions on lanelets and areas report exactly the elements whose boundary contains the primitive.",
  ["inputs", "histories"], "all ownership relations between elements of a map up to the stated size",
  "the tests look up one or two hand-picked owners; missing or spurious owners depend on the sharing pattern",
  ["lanelet2_core/src/LaneletMap.cpp"], [("PrimitiveLayer::findUsages, UsageLookup", "lanelet2_core/src/LaneletMap.cpp"), ("utils::findUsagesInLanelets", "lanelet2_core/src/LaneletMap.cpp")])
prop("C04", "Spatial queries return exactly what a brute-force scan returns",
  "A box search returns exactly the elements whose bounding box intersects the area, nearest-n queries return the n elements with the smallest bounding-box distance, and iterative queries visit elements in order of increasing bounding-box distance until the predicate is true. The exact nearest and within-distance searches return what a linear scan by true distance returns, sorted by distance.",
  ["inputs"], "all element positions and query boxes/points on the stated coordinate grid, up to the stated number of elements",
  "tests query one small fixed map; correctness depends on the geometry of all elements relative to the query",
  ["lanelet2_core/src/LaneletMap.cpp", C + "geometry/impl/LaneletMap.h"], [("PrimitiveLayer::search/nearest/nearestUntil/searchUntil", "lanelet2_core/src/LaneletMap.cpp"), ("geometry::findNearest / findWithin2d", C + "geometry/impl/LaneletMap.h")])
prop("C05", "Inverting is a lossless view change on shared data",
  "Inverting a line string reverses its point and segment order, inverting a lanelet swaps and inverts its bounds, and inverting twice gives back an equal object; an inverted view shares identity, attributes and edits with the original. All access paths (indexing, iteration forwards and backwards, front/back, segments, basic point versions, insertion, removal) agree with each other on both views, including compound line strings and polygons.",
  ["inputs", "histories"], "all sequences of edits through original and inverted views and all index positions up to the stated lengths",
  "tests check single examples per accessor; agreement has to hold for every mix of inversion and mutation",
  [C + "primitives/LineString.h", C + "primitives/Lanelet.h", C + "primitives/CompoundLineString.h", C + "utility/ReverseAndForwardIterator.h", C + "utility/CompoundIterator.h"],
  [("ReverseAndForwardIterator", C + "utility/ReverseAndForwardIterator.h"), ("ConstLineString3d::invert, Lanelet::invert", C + "primitives/LineString.h")])
prop("C06", "The attribute map behaves like an ordinary map",
  "Under any sequence of insertions, overwrites, lookups, erasures, copies, moves and clears with known and unknown keys, by name or by well-known key, an attribute map holds exactly the entries an ordinary associative map would hold, and both access styles always agree.",
  ["inputs", "histories"], "all operation sequences over well-known and free-form keys up to the stated length",
  "tests run a few fixed sequences; the well-known-key shortcut and the ordinary entries can only diverge after specific histories",
  [C + "utility/HybridMap.h", C + "Attribute.h"], [("HybridMap: vector of iterators beside the map", C + "utility/HybridMap.h")])
prop("C07", "Attribute values convert faithfully and caches never go stale",
  "A value stored in an attribute reads back as the same value (integers, booleans, ids, doubles of up to six decimals, velocities with unit km/h, kmh, m/s, mps, mph or none), text that is not a value of the requested type yields no value, and re-assigning an attribute (also through copies, and with reads in between) is always reflected by every later read in any type.",
  ["inputs", "histories"], "all short texts over the relevant alphabet, all values in the stated ranges, all read/write/copy histories up to the stated length",
  "tests convert a few literals; unit suffixes, boundaries and cached conversions depend on content and history",
  ["lanelet2_core/src/Attribute.cpp", C + "Attribute.h"], [("Attribute::asInt/asDouble/asBool/asVelocity, cache", "lanelet2_core/src/Attribute.cpp")])
prop("C08", "Derived lanelet geometry always reflects the current bounds",
  "The computed centre line and the outlines of lanelets and areas always correspond to the current bounds, inversion state and user-set centre line after any sequence of bound replacements, centre line overrides and queries through any view. The centre line connects the mid points of the two end segments and runs in driving direction.",
  ["inputs", "histories"], "all interleavings of reads and updates up to the stated length, all boundary positions on the stated grid",
  "cached results become stale only after particular read/update orders that the tests do not enumerate",
  ["lanelet2_core/src/Lanelet.cpp", C + "primitives/Lanelet.h", C + "primitives/Area.h"], [("LaneletData::centerline cache, resetCache", "lanelet2_core/src/Lanelet.cpp"), ("calculateCenterline", "lanelet2_core/src/Lanelet.cpp")])
prop("C09", "Rule objects stay consistent with what was put into them",
  "Adding and removing references on traffic lights, signs, right-of-way, speed limit and all-way-stop rules is reflected exactly by every query on the rule, by the manoeuvre reported for a lanelet and by its generic parameter list; removing something reports whether it was present, and rebuilding a rule from its parameters yields the same answers.",
  ["inputs", "histories"], "all sequences of add/remove operations on the rule's roles up to the stated length",
  "tests add or remove one element; order, duplicates and mixed roles are not covered",
  ["lanelet2_core/src/BasicRegulatoryElements.cpp", C + "primitives/BasicRegulatoryElements.h"], [("TrafficLight/RightOfWay/TrafficSign/AllWayStop mutators", "lanelet2_core/src/BasicRegulatoryElements.cpp")])
prop("C10", "Submaps and map factories keep exactly the requested elements",
  "A submap contains exactly the elements added to it (and the rules explicitly carried along), converting it to a full map adds exactly what those elements reference, and building a map or submap from lists of elements is equivalent to adding them one by one.",
  ["inputs", "histories"], "all selections of elements up to the stated size",
  "tests build one submap; which references come along depends on the selection",
  ["lanelet2_core/src/LaneletMap.cpp"], [("LaneletSubmap::add / laneletMap, createMap/createSubmap", "lanelet2_core/src/LaneletMap.cpp")])
prop("C11", "Concurrent reads are safe and agree with a single reader",
  "Any number of threads may read the same const objects at the same time: converting or copying an attribute, and reading bounds, centre line or polygon of a lanelet or lanelet sequence (all of which may fill internal caches) gives every thread the value a single reader gets, under every interleaving, and never accesses memory that another reader has released.",
  ["schedules", "inputs"], "every interleaving, at accesses to shared memory and up to the stated number of context switches, of the stated pairs of reads",
  "tests read from one thread; races between cache updates depend on schedules no unit test controls",
  ["lanelet2_core/src/Attribute.cpp", "lanelet2_core/src/Lanelet.cpp", "lanelet2_core/src/LaneletSequence.cpp"], [("cached conversions: load/store of Attribute::cache_", "lanelet2_core/src/Attribute.cpp"), ("lazily derived centre line and polygon", "lanelet2_core/src/Lanelet.cpp")])
prop("G01", "Line string measurements agree with their definition",
  "Length, accumulated lengths, interpolation at a distance, projection, arc coordinates and signed distance of a line string agree with the mathematical definition over its segments; converting a point to arc coordinates and back gives the same point wherever its unique nearest position is a perpendicular foot, and nearest-point results are never further away than any point of the line string. The signed distance is positive on the left, also next to vertices, and pairwise projections of line strings give points at their true distance.",
  ["inputs"], "all line strings up to the stated number of points and query points on the stated coordinate grid",
  "tests check a few coordinates; kinks, end points, zero-length segments and points beyond the ends need all configurations",
  [C + "geometry/impl/LineString.h", "lanelet2_core/src/LineStringGeometry.cpp"], [("geometry::project, toArcCoordinates, fromArcCoordinates, interpolatedPointAtDistance, signedDistance", C + "geometry/impl/LineString.h")])
prop("G02", "Containment, overlap and distance predicates are mutually consistent",
  "Containment of a point, distance, intersection, overlap and touching of lanelets, areas, polygons and bounding boxes agree with their definition and with one another: symmetric where they should be, distance zero exactly when inside or intersecting, independent of orientation and inversion.",
  ["inputs"], "all shapes with the stated number of vertices on the stated grid",
  "tests check one positive and one negative example each",
  [C + "geometry/impl/Lanelet.h", C + "geometry/impl/Polygon.h", C + "geometry/impl/Area.h"], [("geometry::inside/intersects2d/overlaps2d/distance2d", C + "geometry/impl/Lanelet.h")])
prop("G03", "Topological neighbour predicates match the shared boundary",
  "One lanelet is reported left of, right of, following or preceding another exactly when they share the corresponding boundary line or end points in matching orientation; the predicates are duals of each other, survive inverting both operands, and the lookup of a common line for lanelets and areas returns a line of both exactly when one exists.",
  ["inputs", "configurations"], "all ways two lanelets/areas can share points and boundary lines up to the stated size",
  "tests check a few pairs; inversions and partial sharing multiply the cases",
  [C + "geometry/impl/Lanelet.h", C + "geometry/impl/Area.h"], [("geometry::leftOf/rightOf/follows/adjacent/determineCommonLine", C + "geometry/impl/Lanelet.h")])
prop("G04", "Triangulation and convex partition cover the polygon exactly",
  "Triangulating a convex polygon or convexly partitioning a simple clockwise polygon yields pieces made only of its vertices, each convex and oriented like the polygon, which do not overlap and whose union is the polygon; a convex polygon is kept whole by the partition. (For concave polygons the triangulation covers their hull, and polygons with edges that are no Delaunay edges are not partitioned correctly: known findings.)",
  ["inputs"], "all simple polygons with the stated number of vertices on the stated grid",
  "tests use a few fixed polygons; reflex vertices and collinear edges need all shapes",
  ["lanelet2_core/src/PolygonTriangulationGeometry.cpp"], [("triangulate, convexPartition", "lanelet2_core/src/PolygonTriangulationGeometry.cpp")])
prop("G05", "Boundary alignment yields consistently oriented lanelets",
  "Aligning two line strings that run alongside each other makes both run in the same direction with the first to the left of the second, independent of the orientation in which they are given. For any input, line strings are at most inverted, never otherwise changed, and degenerate ones are kept.",
  ["inputs"], "all pairs of line strings with the stated number of points on the stated grid",
  "tests align two examples",
  ["lanelet2_core/include/lanelet2_core/geometry/impl/LineString.h"], [("geometry::align", C + "geometry/impl/LineString.h")])
prop("G06", "Offset lines keep side and distance; curvature and 3d crossings are exact",
  "Offsetting a line string that advances in one direction moves its segments sideways by the signed distance (left positive) and joins them: the result does not cross itself, no part of it is closer to the line string than the distance, none of its points is further away than sqrt(2) times the distance, left and right offsets are mirror images, and a geometry error is raised where this is impossible. The curvature of three points is one over the radius of their circle (signed: positive for left turns), zero for collinear and infinite for repeated points. Two line strings intersect in 3d exactly when they cross in 2d at a position where their heights differ by less than the tolerance.",
  ["inputs"], "all line strings up to the stated number of points on the stated grid, offsets to either side",
  "tests offset four examples, all of them to the left; corners, consumed segments and slopes need all shapes",
  [C + "geometry/impl/LineString.h", C + "geometry/LineString.h"], [("offset, offsetNoThrow, joinSubStrings", C + "geometry/impl/LineString.h"), ("signedCurvature2d, intersects3d", C + "geometry/impl/LineString.h")])
prop("I01", "Maps survive an OSM write/load round trip",
  "Writing a map to the OSM format and loading it again with the same projector restores every element: ids, attributes, point coordinates, the order and orientation of points and bounds, area holes, and every reference of every rule with its role; nothing is added or lost apart from the type tags the format requires. References to elements that are not in the map are reported when writing and do not affect the rest.",
  ["inputs"], "all maps up to the stated number of elements: every sharing pattern, inversion, attribute and rule role combination within the bounds",
  "tests round-trip a few objects with fixed attributes and roles",
  ["lanelet2_io/src/OsmHandlerWrite.cpp", "lanelet2_io/src/OsmHandlerLoad.cpp", "lanelet2_io/src/OsmFile.cpp"], [("ToFileWriter / FromFileLoader", "lanelet2_io/src/OsmHandlerWrite.cpp"), ("osm::read/osm::write", "lanelet2_io/src/OsmFile.cpp")])
prop("I02", "Loading damaged OSM data reports errors and never corrupts the map",
  "Loading any OSM document - with dangling references, wrong roles or types, missing or surplus members, unclosed borders, missing tags or unprojectable points - does not crash: each problem is reported for the element that has it and only problems are reported. Everything unaffected is loaded completely, nothing else is added, and the throwing interface throws exactly when problems were reported.",
  ["inputs", "fault_sequences"], "all single and combined defects of the stated kinds in documents of the stated size",
  "tests load a few broken examples",
  ["lanelet2_io/src/OsmHandlerLoad.cpp", "lanelet2_io/src/OsmFile.cpp", "lanelet2_io/src/Io.cpp"], [("FromFileLoader::load*, parserError", "lanelet2_io/src/OsmHandlerLoad.cpp")])
prop("I03", "Maps and primitives survive binary serialization",
  "Serializing any map or primitive to the binary format and reading it back restores ids, attributes, geometry, inversion, ownership and sharing between elements, cyclic references between lanelets and rules included.",
  ["inputs"], "all maps up to the stated number of elements and sharing patterns",
  "tests serialize single examples",
  ["lanelet2_io/src/BinHandler.cpp", "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h"], [("boost serialize functions", "lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h")])
prop("P01", "Projections invert each other relative to the origin",
  "Projecting a geographic point and projecting the result back returns the original point; the origin maps to the coordinate origin for every projector that is relative to its origin (UTM with offset, local cartesian, elliptical mercator), positions agree with the projection's definition, and heights pass through (UTM, spherical mercator) or are relative to the origin as defined. A point outside the origin's UTM zone is expressed in the origin's zone or rejected with a projection error (always rejected with throwInPaddingArea, in both directions), never returned in another zone's coordinates.",
  ["inputs"], "all combinations of the stated origins, points and modes; the geodesy library runs as compiled code",
  "tests project a few fixed coordinates",
  ["lanelet2_projection/src/UTM.cpp", "lanelet2_projection/src/LocalCartesian.cpp", "lanelet2_io/include/lanelet2_io/Projection.h"], [("UtmProjector::forward/reverse", "lanelet2_projection/src/UTM.cpp"), ("SphericalMercatorProjector", "lanelet2_io/include/lanelet2_io/Projection.h")])
prop("T01", "Lane changes are permitted exactly as the marking allows",
  "Whether a participant may change from one lanelet to a neighbour depends only on the shared boundary's explicit lane-change tags or, without them, its marking type and subtype as seen from the side of departure; the answer for a boundary traversed in the opposite direction is the mirror image, and changing is never allowed between lanelets that are not neighbours or not passable.",
  ["inputs", "configurations"], "all combinations of boundary type, subtype, explicit tags, inversion and participant",
  "tests sample a few markings",
  ["lanelet2_traffic_rules/src/GenericTrafficRules.cpp"], [("canChangeLane / getChangeType", "lanelet2_traffic_rules/src/GenericTrafficRules.cpp")])
prop("T02", "Passability follows explicit overrides, then subtype defaults",
  "A lanelet or area is passable for a participant exactly when the most specific applicable participant override says so or, without any override, when its subtype is usable by that participant; one-way-ness follows the same precedence, and passing between elements additionally requires both to be passable and adjoining in an allowed direction.",
  ["inputs", "configurations"], "all combinations of override tags, subtypes, locations, inversions and participants",
  "tests sample a few tags",
  ["lanelet2_traffic_rules/src/GenericTrafficRules.cpp", "lanelet2_traffic_rules/src/GermanTrafficRules.cpp"], [("GenericTrafficRules::canPass/isOneWay", "lanelet2_traffic_rules/src/GenericTrafficRules.cpp")])
prop("T03", "Speed limits resolve by one fixed precedence",
  "The speed limit of a lanelet or area is taken from its speed-limit rule if it has one, otherwise from its explicit limit tags for the participant, otherwise from the default of participant, location and type; it is always finite and non-negative and pedestrians never get a vehicle limit.",
  ["inputs", "configurations"], "all combinations of rule, tags, location, subtype and participant with all limit values in the stated range",
  "tests sample a few combinations",
  ["lanelet2_traffic_rules/src/GenericTrafficRules.cpp", "lanelet2_traffic_rules/src/GermanTrafficRules.cpp"], [("GenericTrafficRules::speedLimit", "lanelet2_traffic_rules/src/GenericTrafficRules.cpp")])
prop("R01", "Shortest paths are valid and cost-minimal",
  "The shortest path between two lanelets starts and ends there, consists only of steps the traffic rules allow, and no other allowed sequence has lower cost; a path is returned exactly when the destination is reachable, with and without lane changes, and via intermediate stops.",
  ["inputs"], "all lane networks within the stated size with arbitrary non-negative step costs and lane-change permissions",
  "tests compare a few routes in one fixed map",
  ["lanelet2_routing/src/RoutingGraph.cpp"], [("RoutingGraph::shortestPath*", "lanelet2_routing/src/RoutingGraph.cpp")])
prop("R02", "Reachable sets and path enumerations are exact for their limits",
  "The reachable set contains exactly the lanelets whose cheapest allowed route stays within the cost limit, and possible-path enumeration returns exactly the maximal allowed paths complying with the given cost or length limits, each valid and none twice, in forward and backward direction.",
  ["inputs"], "all lane networks within the stated size with arbitrary costs and limits",
  "tests count results in one fixed map",
  ["lanelet2_routing/src/RoutingGraph.cpp"], [("reachableSet, possiblePaths, possiblePathsTowards", "lanelet2_routing/src/RoutingGraph.cpp")])
prop("R03", "Graph relations mirror the map and the traffic rules",
  "Two lanelets are related in the routing graph (following, left/right lane change, adjacent without lane change, conflicting) exactly as their geometry and the traffic rules dictate; following and previous, left and right, and conflict relations are symmetric counterparts for every direction of a bidirectional lanelet, and lists of neighbours agree from every lanelet. A lane change is costed over the unambiguous stretch ahead on which both lanes run side by side, whatever the ids, and becomes a mere adjacency for cost modules that forbid it.",
  ["inputs", "configurations"], "all small lane networks: every combination of shared boundaries, markings, subtypes and overlap within the bounds",
  "tests check relations in one fixed map",
  ["lanelet2_routing/src/RoutingGraphBuilder.cpp", "lanelet2_routing/src/RoutingGraph.cpp"], [("RoutingGraphBuilder::build", "lanelet2_routing/src/RoutingGraphBuilder.cpp"), ("RoutingGraph relation queries", "lanelet2_routing/src/RoutingGraph.cpp")])
prop("R04", "Routes contain the shortest path and consistent lanes",
  "A route exists exactly when the shortest path does, contains it together with the lanelets one can change to and back from, and only lanelets that are reachable from the start and lead to the destination within the route. Its relations, conflicts, lanes, visits and validity check are those of the graph restricted to the route, remaining shortest paths and (circular) lanes begin at the queried lanelet, and every query yields nothing for lanelets outside the route.",
  ["inputs"], "all small lane networks and start/destination choices within the bounds",
  "tests inspect a few routes in one fixed map",
  ["lanelet2_routing/src/Route.cpp", "lanelet2_routing/src/RouteBuilder.cpp"], [("RouteBuilder", "lanelet2_routing/src/RouteBuilder.cpp"), ("Route queries", "lanelet2_routing/src/Route.cpp")])
prop("R05", "Path helpers describe exactly the path they are given",
  "The remaining lane of a path is its longest lane-change-free stretch from the queried lanelet, ending at the last lanelet before a lane change. The polygon enclosing a path of several lanelets and areas follows the outer borders of its elements clockwise, leaving out their common borders and visiting each border point once.",
  ["inputs"], "all paths up to the stated length over all small networks",
  "tests check few paths",
  ["lanelet2_routing/src/LaneletPath.cpp"], [("LaneletPath::getRemainingLane, getEnclosingPolygon3d", "lanelet2_routing/src/LaneletPath.cpp")])
prop("M01", "Map matching reports exactly the lanelets in range, both directions",
  "Deterministic matching returns for every lanelet within the search distance both driving directions with the true distance to the object's shape, sorted by distance; probabilistic matching returns the same set sorted by the defined squared Mahalanobis distance to the nearest pose on the centre line and rejects degenerate covariances, and rule-based filtering removes exactly the matches not passable in that direction.",
  ["inputs"], "all object poses and small maps on the stated grid",
  "tests match a few poses in one map",
  ["lanelet2_matching/src/LaneletMatching.cpp", "lanelet2_matching/src/Utilities.cpp"], [("getDeterministicMatches, getProbabilisticMatches, removeNonRuleCompliantMatches", "lanelet2_matching/src/LaneletMatching.cpp")])
prop("V01", "Validators report every defect and nothing else",
  "The repeated-point, close-point (closer than 5 cm), curvature (above 0.5) and tag validators report an issue for every primitive that has the defect they look for and for no other. Exactly the validators whose name matches one of the filter expressions run, for every configured participant, and the report and the exit code reflect what they found.",
  ["inputs"], "all maps up to the stated size and all filter expressions of the stated shape",
  "tests validate one broken map",
  ["lanelet2_validation/src/validators", "lanelet2_validation/src/ValidatorFactory.cpp", "lanelet2_validation/src/Validation.cpp"], [("MapValidator subclasses", "lanelet2_validation/src/validators"), ("ValidatorFactory::createMapValidators", "lanelet2_validation/src/ValidatorFactory.cpp")])
prop("Y01", "The Python interface exposes the same behaviour as the C++ library",
  "Every operation offered to Python returns the same result and raises on the same inputs as the C++ operation it stands for, and objects keep their identity across the language border.",
  ["inputs", "histories"], "all calls through the Python modules", "the Python tests touch a small part of the interface",
  ["lanelet2_python/python_api"], [("boost::python class definitions", "lanelet2_python/python_api/core.cpp")])
NA = {"Y01": "the property is about CPython and Boost.Python glue, whose interpreter state, reference counts and C-API calls cannot be encoded for the solver within reach; the C++ operations behind it are covered by the other properties"}
