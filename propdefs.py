"""Registry of the runs that decide each property (harness, sources, bounds, vacuity witnesses)."""
def define(P, R):
    Y = {"yield": ["LaneletMap.cpp"]}
    P("C01", [
      R("ids", "map_add.cpp", ["core"], "2 adds (any order, repeats allowed) out of {point, 2 line strings sharing a symbolic point, polygon}, any subset of 4 elements without id, one preset id up to 4 ahead of the generator, then everything re-added", reach=["fresh id", "points"], params={"mode": 0, "seq": 2}, thorough_params={"seq": 3}),
      R("areas", "map_add.cpp", ["core"], "2 adds out of {2 lanelets (shared/inverted bounds, custom centre line), area with hole, line string}, with and without ids", reach=["fresh id"], params={"mode": 1, "seq": 2}, thorough_params={"seq": 3}),
      R("rules", "map_add.cpp", ["core"], "1 add out of {2 lanelets, area, 2 rules}; all 2^4 rule attachments x rule parameters (point/line string/polygon/lanelet/area/expired lanelet, cyclic)", reach=["fresh id", "both rules", "all areas"], params={"mode": 2, "seq": 1}, thorough_params={"seq": 2}),
    ], ["preset ids the map has never seen and that lie just ahead of the id generator are out of scope unless they are part of the added closure (then: known finding)", "centre lines set by the user have a valid id (documented requirement)"])
    P("C02", [
      R("two", "ids.cpp", ["core"], "2 threads, 2 generate/register calls each, every interleaving at atomic-operation granularity with up to 5 context switches; registered ids any integer in [-4096,4096] (the generator starts at 1000)", reach=["generate after register", "overlapping generate"], params={"threads": 2, "ops": 2, "switches": 5, "idbits": 12}, thorough_params={"ops": 3, "switches": 6}, **Y),
      R("three", "ids.cpp", ["core"], "3 threads, 1 call each, up to 5 context switches, registered ids any integer in [-4096,4096]", reach=["overlapping generate"], params={"threads": 3, "ops": 1, "switches": 5, "idbits": 12},  thorough_params={"switches": 12}, **Y),
      R("wide", "ids.cpp", ["core"], "2 threads, 1 call each, every interleaving, registered ids any integer in [-2^62,2^62]", reach=["overlapping generate"], params={"threads": 2, "ops": 1, "switches": 12, "idbits": 62},  thorough_params={"ops": 2}, **Y),
    ], ["sequentially consistent memory: threads interleave at atomic operations; compare_exchange_weak does not fail spuriously", "ids beyond +-2^62 (counter overflow) excluded"])
    P("C03", [
      R("points", "map_usage.cpp", ["core"], "3 points, 4 line strings with symbolic end points (shared, repeated), 2 lanelets, area, polygon; map filled by add or by factory", reach=["point usage", "area usage"], params={"mode": 0}),
      R("lanelets", "map_usage.cpp", ["core"], "2 lanelets with every choice and orientation of bounds out of 3 line strings", reach=["bound usage"], params={"mode": 1}),
      R("areas", "map_usage.cpp", ["core"], "area with every choice/orientation of 2 outer line strings and 0-1 holes, or 1 outer line string and 2 holes (the second optionally of 2 line strings)", reach=["area usage"], params={"mode": 2}),
      R("rules", "map_usage.cpp", ["core"], "2 rules: attachments to 2 lanelets and an area, parameters of all 5 kinds", reach=["rule usage"], params={"mode": 3}),
    ], ["elements are not edited after they were added (documented requirement)"])
    P("C04", [
      R("points", "map_spatial.cpp", ["core"], "3 points, query box/point anywhere on the integer grid [-4,4]", reach=["all", "none", "nearest"], thorough_params={"N": 4}),
      R("boxes", "map_find.cpp", ["core"], "two line strings whose bounding boxes are anywhere on the integer grid, any query box or point", reach=["both", "none", "nearest"], params={"mode": 1, "R": 1}, thorough_params={"R": 2}),
      R("elements", "map_find.cpp", ["core"], "layers of 3 elements of every kind (points, line strings, polygons, lanelets, areas, rules with every kind of parameter) at 16 relative places, 2-3 shapes, filled one by one or at once; 36 query points; box sizes, counts, limits and stops derived from the query", reach=["in the box", "box misses", "within", "rules"], params={"mode": 0}, thorough_params={"all": 1}),
      R("tree", "map_find.cpp", ["core"], "20 points (several tree levels), one of them at 72 places, filled one by one or at once; 9 queries", reach=["tree"], params={"mode": 2}, thorough_params={"N": 40}),
      R("big", "map_find.cpp", ["core"], "the same with 150 points, 4 places and 4 queries", reach=["tree"], params={"mode": 2, "N": 150, "few": 1}),
      R("order", "map_find.cpp", ["core"], "6 line strings or 2 polygons whose bounding boxes say little about their distance, one of them at 9 places; 36 query points; every number of requested elements", reach=["order"], params={"mode": 4}),
      R("space", "map_find.cpp", ["core"], "two points or line strings in space, 15 query points, 4 limits", reach=["within", "too far"], params={"mode": 3}),
    ], ["elements are not edited after they were added (documented requirement)", "distances that equal the limit exactly (other than zero) may be decided either way by rounding"])
    P("C10", [
      R("submap", "map_sub.cpp", ["core"], "submap filled by 2 adds out of {2 lanelets, area, 2 rules, line string, polygon, point} with symbolic rule attachments/parameters, converted to a full map (const and mutable)", reach=["converted", "mixed"], params={"mode": 0, "small": 1}, thorough_params={"small": 0}),
      R("factories", "map_sub.cpp", ["core"], "createMap/createSubmap from every subset of {2 lanelets, area}; ids below or ahead of the id generator", reach=["sub", "full"], params={"mode": 1, "small": 1}, thorough_params={"small": 0}),
      R("primitives", "map_sub.cpp", ["core"], "createMap/createSubmap from every subset of 4 points / 4 line strings in either orientation / a polygon", reach=["sub", "full"], params={"mode": 2}),
    ], ["all elements given to a factory have a valid id (documented requirement)"])
    P("C06", [
      R("ops", "attrmap.cpp", ["core"], "every sequence of 3 operations out of 15 kinds (insert, hinted insert, assign by name / by well-known key, erase by name / iterator, copy, move, swap, clear, list and range construction) over 2 well-known keys and 1 free-form key; second operand map empty or filled (thorough: 4 contents)", reach=["erase", "move", "three entries"], params={"len": 3, "keys": 3}, thorough_params={"len": 4}),
    ])
    P("C07", [
      R("integers", "attr.cpp", ["core"], "every integer in [-1100,1100] as int and as id, read back in both orders", reach=["four digits"], params={"mode": 0}, thorough_params={"range": 12000}),
      R("texts", "attr.cpp", ["core"], "every text of up to 3 printable characters, alone or behind a digit prefix that reaches the 32/64 bit limits", reach=["int", "long id", "bool"], params={"mode": 1, "chars": 3}, thorough_params={"chars": 4}),
      R("histories", "attr.cpp", ["core"], "every sequence of 3 operations (assign/set/copy/move/swap/read) over 8 texts and 5 typed values", reach=["read"], params={"mode": 2}, thorough_params={"len": 4}),
      R("units", "attr.cpp", ["core"], "doubles k/64, |k|<=200; velocities k/4, k<=160, in 7 unit notations; 6 units with 9 texts before and 6 behind", reach=["double", "velocity", "text around the unit"], params={"mode": 3}),
    ])
    P("C05", [
      R("linestring", "invert.cpp", ["core"], "line strings of 0-3 points, 2 edits (push_back, insert single/range, erase, pop_back, resize, clear, assign, element writes, reverse) through the original or inverted 2d/3d view at any position", reach=["inverted edit", "three points"], params={"mode": 0}, thorough_params={"len": 3}),
      R("polygon", "invert.cpp", ["core"], "polygons of 0-3 points, 2 edits through the 2d/3d view", reach=["three points"], params={"mode": 3}, thorough_params={"len": 3}),
      R("compound", "invert.cpp", ["core"], "compounds of up to 3 line strings of 0-2 points out of 3 points in either orientation", reach=["long"], params={"mode": 1}, thorough_params={"nls": 4}),
      R("lanelet", "invert.cpp", ["core"], "lanelets with every choice and orientation of bounds out of 3 line strings, one bound replacement through either view, sequences of 2", reach=["set through inverted"], params={"mode": 2}),
    ], ["the iterator returned by a range insertion into an inverted view is not specified (the unit tests fix it to the last inserted point)"])
    P("C08", [
      R("history", "derived.cpp", ["core"], "every sequence of 3 operations (set left/right bound, custom centre line, read, reset, move a point and reset, sequence reads) through the original or inverted view; 4 line strings in either orientation; 2 initial orientations", reach=["custom", "read", "moved"], params={"mode": 0, "len": 3}, thorough_params={"len": 4}),
      R("areas", "derived.cpp", ["core"], "2 replacements of outer/inner bounds by up to 2 line strings out of 4 in either orientation, through two handles", reach=["outer", "inner"], params={"mode": 1}),
      R("geometry", "derived.cpp", ["core"], "bounds of 1-2 + 1-2 points, the first at the origin, the others anywhere on the integer grid [-1,1], open or closed at either end", reach=["inner vertex", "closed"], params={"mode": 2, "R": 1, "min": 1}, thorough_params={"anchor": 0}),
    ], ["changing the coordinates of a point is followed by resetCache (documented requirement)", "custom centre lines have a valid id (documented requirement)"])
    P("C09", [
      R("traffic_light", "rules.cpp", ["core"], "1-2 initial lights, optional stop line, every sequence of 3 add/remove/set operations over {line string, its inverse, polygon, second line string} and 3 stop lines", reach=["removed", "rebuilt"], params={"mode": 0}, thorough_params={"len": 4}),
      R("sign", "rules.cpp", ["core"], "traffic sign or speed limit with/without initial signs, cancelling signs and lines; every sequence of 2 operations out of 8 kinds", reach=["removed", "rebuilt"], params={"mode": 1, "len": 2}, thorough_params={"len": 3}),
      R("right_of_way", "rules.cpp", ["core"], "4 initial configurations, every sequence of 3 operations out of 7 kinds (a lanelet can be destroyed in between) over 3 lanelet views", reach=["removed", "rebuilt", "lanelet gone"], params={"mode": 2}, thorough_params={"len": 4}),
      R("all_way_stop", "rules.cpp", ["core"], "0-2 initial lanelets with or without stop lines, every sequence of 3 operations out of 5 kinds (a lanelet can be destroyed in between)", reach=["removed", "rebuilt", "lanelet gone"], params={"mode": 3}, thorough_params={"len": 4}),
      R("generic", "rules.cpp", ["core"], "every sequence of 3 parameter additions/erasures of all 5 parameter kinds under known and free-form roles", reach=["rebuilt"], params={"mode": 4}, thorough_params={"len": 4}),
    ])
    YR = {"yield": ["Attribute.cpp", "Lanelet.cpp", "LaneletSequence.cpp"], "yieldmem": 1}
    P("C11", [
      R("attributes", "readers.cpp", ["core"], "7 attributes (texts and typed values), 2 threads with one read each out of 8 kinds (5 conversions, 2 kinds of copies, text), every interleaving at accesses to shared memory with up to 2 context switches", reach=["read", "different reads"], params={"mode": 0, "switches": 2}, thorough_params={"switches": 3}, **YR),
      R("centerline", "readers.cpp", ["core"], "the same for a lanelet (6 kinds of reads around its derived centre line)", reach=["read", "different reads"], params={"mode": 1, "switches": 2}, thorough_params={"switches": 3}, **YR),
      R("sequence", "readers.cpp", ["core"], "the same for a lanelet sequence (6 kinds of reads around its derived centre line and polygon)", reach=["read", "different reads"], params={"mode": 2, "switches": 2}, thorough_params={"switches": 3}, **YR),
    ], ["sequentially consistent memory; atomic operations on shared pointers are indivisible (the library's lock)"])
    P("G01", [
      R("point", "geo_line.cpp", ["core"], "line strings of 2-3 points, first at the origin, other points and the query anywhere on the integer grid [-2,2]^2", reach=["unique foot", "vertex", "back"], params={"mode": 0}, thorough_params={"R": 3}),
      R("revisit", "geo_line.cpp", ["core"], "line strings of 4 points, first at the origin, other points and the query on the grid [-1,1]^2", reach=["unique foot", "vertex", "back"], params={"mode": 0, "R": 1, "n": 4, "fixed": 1}, thorough_params={"n": 5}),
      R("point3d", "geo_line.cpp", ["core"], "3d line strings of 2-3 points on the grid [-1,1]^3", reach=["off"], params={"mode": 1, "R": 1}),
      R("lines", "geo_line.cpp", ["core"], "pairs of 2d segments on the grid [-2,2]^2, both argument orders", reach=["touching", "apart"], params={"mode": 2}),
      R("lines3", "geo_line.cpp", ["core"], "2d line strings of 3 and 2 points on the grid [-1,1]^2, both argument orders", reach=["touching", "apart"], params={"mode": 2, "R": 1, "na": 3}, thorough_params={"nb": 3}),
      R("lines3d", "geo_line.cpp", ["core"], "pairs of 3d segments on the grid [-1,1]^3, both argument orders", reach=["touching", "apart"], params={"mode": 2, "R": 1, "three": 1}),
      R("lengths", "geo_line.cpp", ["core"], "line strings of 1-3 points on [-2,2]^2; distances k/4 of the length, |k|<=5; every sub range", reach=["arc"], params={"mode": 3}, thorough_params={"n": 4, "R": 1}),
      R("long", "geo_line.cpp", ["core"], "line strings of 50 points with its first, middle or last point displaced by [-2,2]^2 and 25 query positions around it", reach=["long", "vertex", "on"], params={"mode": 4}),
    ], ["zero-length segments are excluded for side and arc coordinates"])
    P("G02", [
      R("point", "geo_area.cpp", ["core"], "every simple clockwise quadrilateral (first vertex at the origin, others on [-2,2]^2) as lanelet, area and polygon; query point on [-2,2]^2", reach=["inside", "outside", "border"], params={"mode": 0}, thorough_params={"R": 3}),
      R("point5", "geo_area.cpp", ["core"], "every simple clockwise pentagon on the grid [-1,1]^2 (first vertex at the origin), bounds of 3 and 2 points; query on [-1,1]^2", reach=["inside", "outside"], params={"mode": 0, "n": 5, "nl": 3, "R": 1}),
      R("holes", "geo_area.cpp", ["core"], "quadrilateral areas with 1-2 holes (one vertex of outer and hole symbolic), query point/unit square on [-1,7]^2", reach=["in a hole"], params={"mode": 1}),
      R("lanelets", "geo_area.cpp", ["core"], "two quadrilateral lanelets: 9 shapes against a parallelogram at 42 positions, 6 directions, 2 widths, every inversion, equal or different height", reach=["touching", "overlapping", "apart"], params={"mode": 2}),
      R("crossings", "geo_area.cpp", ["core"], "a centre line with a symbolic bend against a line of 2-3 points with ends on a 5x5 grid; every proper crossing, both orientations", reach=["crossing", "no crossing", "two crossings"], params={"mode": 4}),
      R("polygons", "geo_area.cpp", ["core"], "a quadrilateral and every triangle over its points and free points on {-1,1,3}^2", reach=["common border", "overlap", "no overlap"], params={"mode": 3, "R": 1}, thorough_params={"R": 2}),
    ], ["outlines are simple and clockwise, holes counter-clockwise and inside (documented requirement)"])
    P("G03", [
      R("lanelets", "topo.cpp", ["core"], "two lanelets over 4 lines (two of them with symbolic end points, 0-3 points) of 5 shared points, every choice and inversion of the second one's bounds; every combination of inverted and swapped operands", reach=["left", "follows", "empty", "inverted common line"], params={"mode": 0}),
      R("area", "topo.cpp", ["core"], "a lanelet and an area of 2-3 border lines: every choice of area lines (either direction) and own lines (any end points) as bounds", reach=["area left", "area ahead", "area behind"], params={"mode": 1}),
      R("areas", "topo.cpp", ["core"], "two areas of three lines over 5 corner points, every subset of lines shared in either direction, with and without a hole", reach=["adjacent", "common line"], params={"mode": 2}),
    ], ["bounds of lanelets compared with areas have at least one point (required by the code)"])
    TR = ["core", "traffic_rules"]
    P("T01", [
      R("change", "traffic.cpp", TR, "7 boundary types x 8 subtypes x every lane_change tag combination x 5 participants x stored direction x passability of either lanelet; both directions, inverted pairs, non-neighbours", reach=["both directions", "one direction", "never"], params={"mode": 0}),
    ], ["lane_change:left=no without lane_change:right is excluded (documented: both have to be set)"])
    P("T02", [
      R("oneway", "traffic.cpp", TR, "one_way absent/yes/no/invalid or every combination of the participant specific tags; 9 participants", reach=["one way", "both ways"], params={"mode": 1}),
      R("subtype", "traffic.cpp", TR, "14 subtypes x 3 locations x participant overrides on 3 hierarchy levels x 9 participants, lanelet and area", reach=["allowed by override", "forbidden by override", "allowed by subtype"], params={"mode": 2}),
      R("steps", "traffic.cpp", TR, "lanelet-lanelet, lanelet-area (4 sides) and area-area steps x 56 markings x stored direction x passability of both x bidirectional; 3 participants", reach=["follows", "into an area", "out of an area", "between areas"], params={"mode": 3}),
    ], ["overrides of one participant at two hierarchy levels are excluded (forbidden by the documentation)"])
    P("T03", [
      R("speed", "traffic.cpp", TR, "8 subtypes x 4 locations x limit tags (general, participant specific, mandatory flags, unparsable values) x speed limit rules by sign or type; 5 participants", reach=["by rule", "by tag", "by type", "pedestrian"], params={"mode": 4}),
    ], ["limit tags are non-negative; defaults for subtype/location pairs outside the documented table only have to be finite and non-negative"])
    RT = ["core", "traffic_rules", "routing"]
    P("R01", [
      R("grid", "route_path.cpp", RT, "2 lanes of 3 lanelets with lane changes, every step cost k/2 in [0,4] or infinite, every destination from the first lanelet", reach=["alternatives", "unreachable", "long"], params={"mode": 0, "K": 8, "inf": 1, "from": 0}, thorough_params={"from": -1, "ids": 1}),
      R("permissions", "route_path.cpp", RT, "2 lanes of 2 lanelets: every combination of passable lanelets, permitted steps and permitted lane changes; with and without lane changes; step costs k/2 in [0,3]", reach=["alternatives", "unreachable"], params={"mode": 0, "C": 2, "perm": 7, "lc": 2}, thorough_params={"R": 3, "perm": 5}),
      R("doc", "route_path.cpp", RT, "the diverging and merging 9 lanelet network of the documentation, every step cost k/2 in [0,3], every destination; with and without lane changes", reach=["alternatives", "unreachable", "long"], params={"mode": 1, "lc": 2, "from": 0}, thorough_params={"from": -1}),
      R("areas", "route_path.cpp", RT, "4 lanelets and 2 areas, with and without areas, every start and destination, passability of each, step costs k/2 in [0,3]", reach=["alternatives", "unreachable", "long"], params={"mode": 2, "perm": 4}),
      R("bidirectional", "route_path.cpp", RT, "2 lanes of 2 lanelets, each usable in both directions or not, either cost module, every start and destination, step costs k/2 in [0,3]", reach=["alternatives", "unreachable"], params={"mode": 3, "lc": 2, "ids": 1}),
      R("via", "route_path.cpp", RT, "2 lanes of 2 lanelets, every start, intermediate stop and destination, with and without lane changes, step costs k/2 in [0,3]", reach=["unreachable", "long"], params={"mode": 0, "C": 2, "via": 1, "lc": 2}, thorough_params={"C": 3, "from": 0}),
      R("via_areas", "route_path.cpp", RT, "4 lanelets and 2 areas, every intermediate stop and destination from the first lanelet, step costs k/2 in [0,1.5]", reach=["unreachable", "long"], params={"mode": 2, "via": 1, "from": 0, "K": 3}, thorough_params={"from": -1}),
    ])
    P("R02", [
      R("reach", "route_reach.cpp", RT, "2 lanes of 3 lanelets from the first lanelet, both directions, step costs k/2 in [0,3] or infinite, limits k/2 in [0,9]", reach=["inside", "too far"], params={"mode": 0, "what": 0, "inf": 1, "lc": 1, "from": 0}, thorough_params={"lc": 2, "from": -1}),
      R("reach2", "route_reach.cpp", RT, "2 lanes of 2 lanelets, every start, both directions, with and without lane changes, every lane change permission, step costs k/2 in [0,3], limits k/2 in [0,9]", reach=["inside", "too far"], params={"mode": 0, "what": 0, "C": 2, "perm": 1}),
      R("reach_areas", "route_reach.cpp", RT, "4 lanelets and 2 areas, every start, step costs k/2 in [0,3], limits k/2 in [0,9]", reach=["inside", "too far"], params={"mode": 2, "what": 0}),
      R("paths", "route_reach.cpp", RT, "2 lanes of 2 lanelets, every start, both directions, with and without lane changes and shorter paths, step costs k/2 in [0,3], cost limits k/2 in [0,6], element limits 1-5, or both", reach=["several", "shorter", "tie"], params={"mode": 0, "C": 2, "what": 1}),
      R("paths_doc", "route_reach.cpp", RT, "the diverging and merging 9 lanelet network of the documentation from its first lanelet with lane changes, 5 symbolic step costs, same limits", reach=["several", "shorter", "tie"], params={"mode": 1, "what": 1, "from": 0, "K": 3, "lc": 1, "free": 5}, thorough_params={"free": 8}),
      R("paths_areas", "route_reach.cpp", RT, "4 lanelets and 2 areas, 5 symbolic step costs, same limits", reach=["several", "shorter", "tie"], params={"mode": 2, "what": 1, "K": 3, "free": 5}, thorough_params={"free": 99}),
      R("visit", "route_reach.cpp", RT, "visitors over 2 lanes of 3 lanelets, every start, both directions, with and without an element limit, step costs k/2 in [0,3]", reach=["several", "tie"], params={"mode": 0, "what": 2}),
      R("visit_areas", "route_reach.cpp", RT, "visitors over 4 lanelets and 2 areas, same", reach=["several", "tie"], params={"mode": 2, "what": 2}),
    ])
    P("R03", [
      R("lanes", "route_graph.cpp", RT, "2 lanes of 2 lanelets: every combination of passability, permitted steps and lane changes (allowed, forbidden, infinite cost)", reach=["sequence", "infinite cost", "not in the graph"], params={"mode": 0}),
      R("three", "route_graph.cpp", RT, "3 lanes: every combination of passability and lane changes", reach=["three lanes", "infinite cost"], params={"mode": 0, "C": 1, "R": 3, "perm": 5}),
      R("both_ways", "route_graph.cpp", RT, "2 lanes of 2 lanelets, each usable in both directions or not, every lane change permission", reach=["conflict"], params={"mode": 1}),
      R("branches", "route_graph.cpp", RT, "2 lanes of 3 lanelets with branches and merges in 5 combinations, every lane change permission of the lower lane, 6 id orders", reach=["sequence"], params={"mode": 2}),
      R("ring", "route_graph.cpp", RT, "two lanes in a ring of 3 segments with two lanes merging into it, every lane change permission, 3 id orders", reach=["sequence"], params={"mode": 5}),
      R("conflicts", "route_graph.cpp", RT, "two rectangles (lanelet one way, both ways, or area) at 49 offsets, 6 sizes, 3 heights and 3 participant heights", reach=["overlap", "no overlap", "conflict"], params={"mode": 3}),
      R("areas", "route_graph.cpp", RT, "2 lanelets (one or both ways) and 2 areas: every combination of passability and permitted steps", reach=["area step"], params={"mode": 4}),
    ])
    P("R04", [
      R("grid", "route_route.cpp", RT, "2 lanes of 3 lanelets, every lane change permission, every destination from the first lanelet", reach=["neighbour", "long lane", "outside", "no route", "more than the shortest path"], params={"mode": 0, "from": 0}, thorough_params={"from": -1}),
      R("permissions", "route_route.cpp", RT, "2 lanes of 2 lanelets, every combination of passability, permitted steps and lane changes, every start and destination", reach=["neighbour", "outside", "no route"], params={"mode": 0, "C": 2, "perm": 6, "lc": 2}, thorough_params={"perm": 7}),
      R("costs", "route_route.cpp", RT, "2 lanes of 2 lanelets, step costs k/2 in [0,2] or infinite, every destination from the first lanelet", reach=["neighbour", "outside", "no route"], params={"mode": 0, "C": 2, "perm": 0, "K": 4, "inf": 1, "from": 0}, thorough_params={"C": 3}),
      R("doc", "route_route.cpp", RT, "the diverging and merging 9 lanelet network of the documentation, every lane change permission and permitted step, every start and destination", reach=["lanes", "outside", "conflicts", "more than the shortest path"], params={"mode": 1, "perm": 1, "lc": 2}, thorough_params={"perm": 3}),
      R("both_ways", "route_route.cpp", RT, "2 lanes of 2 lanelets, each usable in both directions or not, every lane change permission and destination from the first lanelet", reach=["neighbour", "outside"], params={"mode": 2, "from": 0}, thorough_params={"from": -1}),
      R("ring", "route_route.cpp", RT, "two lanes in a ring of 3 segments, every lane change permission, start, stop and destination", reach=["circular", "neighbour", "long lane"], params={"mode": 3, "via": 1, "from": 0}),
      R("ring1", "route_route.cpp", RT, "one lane in a ring of 3 segments, every permitted step, start, stop and destination; with and without lane changes", reach=["circular", "long lane", "no route"], params={"mode": 3, "R": 1, "perm": 2, "via": 1, "lc": 2}),
      R("bypass", "route_route.cpp", RT, "a lane with a bypass that overlaps it or not, a crossing lanelet and area: every combination of passability, start and destination", reach=["conflicts", "conflict outside", "lanes", "outside"], params={"mode": 4, "perm": 4}),
    ])
    P("R05", [
      R("lane", "route_poly.cpp", RT, "every walk of 1-5 lanelets over two lanes in a ring, in or against their direction, with lane changes and repeated lanelets", reach=["lane change", "one lane"], params={"mode": 0}, thorough_params={"n": 7}),
      R("polygon", "route_poly.cpp", RT, "every path of 1-3 cells of a square grid: each an area or a lanelet in 4 directions, entered and left at any side, borders with or without middle points, area borders split or merged", reach=["mixed", "long", "middle", "merged"], params={"mode": 1}, thorough_params={"n": 4}),
    ])
    IO = ["core", "io"]
    IOL = ("-lpugixml", "-lboost_filesystem", "-lboost_serialization", "-lboost_system")
    P("I01", [
      R("primitives", "io_osm.cpp", IO, "points with coordinates, heights, ids and attributes out of fixed sets (markup characters, multi byte characters, blanks)", reach=["restored"], params={"mode": 0}, libs=IOL),
      R("lines", "io_osm.cpp", IO, "every line string and polygon of 1-4 points out of 3, added in either direction", reach=["restored", "polygon", "line string"], params={"mode": 0, "what": 1}, libs=IOL),
      R("lanelets", "io_osm.cpp", IO, "1-2 lanelets with every choice of bounds out of 3 line strings of 2-3 points stored in either direction, either driving direction, custom centre line", reach=["restored", "inverted", "centre line"], params={"mode": 1}, libs=IOL),
      R("areas", "io_osm.cpp", IO, "square area whose border is cut into 1-4 line strings anywhere, stored in either direction, with 0-2 holes of 1-3 line strings", reach=["restored", "hole", "two holes"], params={"mode": 2}, libs=IOL),
      R("rules", "io_osm.cpp", IO, "every kind of rule with every kind of reference, attached to any of two lanelets and an area, two rules referring to their owners", reach=["restored", "generic", "right of way", "sign", "shared"], params={"mode": 3}, libs=IOL),
      R("geometry", "io_osm.cpp", IO, "a lanelet of 2+2 points anywhere in a corridor, bounds stored in either direction, both driving directions; through the intermediate representation", reach=["restored"], params={"mode": 4}, libs=IOL, thorough_params={"n": 3}),
      R("missing", "io_osm.cpp", IO, "two rules with 1-4 references to lanelets and line strings that are or are not in the map", reach=["written", "several missing"], params={"mode": 5}, libs=IOL),
    ], ["lanelet bounds are consistently oriented, area borders clockwise and holes counter-clockwise (documented requirement)", "the keys type, area and ele are reserved by the format", "the format has no notation for references to inverted elements and centre lines stored against the driving direction", "pugixml itself is used as compiled library (not symbolically executed)"])
    P("I02", [
      R("single", "io_damage.cpp", IO, "a document of 13 nodes, 8 ways, 2 lanelets, an area with a hole and 2 rules with one damage out of 15 kinds anywhere", reach=["reported", "harmless", "dangling reference", "wrong type", "other element", "wrong role", "projection fails"], params={"damages": 1}, libs=IOL),
      R("pairs", "io_damage.cpp", IO, "the same document with two damages out of 10 kinds anywhere", reach=["reported", "harmless"], params={"damages": 2, "level": 1}, libs=IOL, thorough_params={"level": 0}),
    ], ["elements with a problem of their own may be dropped or carry empty placeholders for the missing part", "the text is well-formed XML with numeric ids and coordinates"])
    P("I03", [
      R("primitives", "io_osm.cpp", IO, "points and every line string and polygon of 1-4 points out of 3, added in either direction, through a binary file", reach=["restored", "polygon", "line string"], params={"mode": 0, "what": 1, "bin": 1}, libs=IOL),
      R("attributes", "io_osm.cpp", IO, "points with coordinates, heights, ids and attributes out of fixed sets", reach=["restored"], params={"mode": 0, "bin": 1}, libs=IOL),
      R("lanelets", "io_osm.cpp", IO, "1-2 lanelets with every choice and orientation of bounds out of 3 line strings of 2-3 points, custom centre line in either direction", reach=["restored", "inverted", "centre line", "centre line against"], params={"mode": 1, "bin": 1}, libs=IOL),
      R("areas", "io_osm.cpp", IO, "square area whose border is cut into 1-4 line strings, stored in either direction, 0-2 holes", reach=["restored", "hole", "two holes"], params={"mode": 2, "bin": 1}, libs=IOL),
      R("rules", "io_osm.cpp", IO, "every kind of rule with every kind of reference (also inverted), attached to any of two lanelets and an area, two rules referring to their owners", reach=["restored", "generic", "right of way", "sign", "shared"], params={"mode": 3, "bin": 1}, libs=IOL),
      R("single", "io_bin.cpp", IO, "every ordered pair out of {2 lanelets, area, 2 rules, line string, point, polygon} in one archive, every attachment and reference between them", reach=["restored", "cycle", "shared bound"], params={"n": 2}, libs=IOL, thorough_params={"n": 3, "all": 1}),
    ])
    PJ = ["core", "io", "projection"]
    PJL = IOL + ("-lGeographicLib",)
    P("P01", [
      R("utm", "proj.cpp", PJ, "48 origins (both hemispheres, zone borders, the special zones, a pole, the date line) x 80 points around each, both offset and padding modes", reach=["rejected", "other zone"], params={"mode": 0}, libs=PJL, thorough_params={"all": 1}),
      R("utm_reverse", "proj.cpp", PJ, "20 origins x 49 local positions around each, both offset and padding modes", reach=["rejected", "projected", "outside of the zone"], params={"mode": 1}, libs=PJL, thorough_params={"all": 1}),
      R("geocentric", "proj.cpp", PJ, "48 origins x 49 points around each", reach=["projected"], params={"mode": 2}, libs=PJL, thorough_params={"all": 1}),
      R("cartesian", "proj.cpp", PJ, "the same points, local tangent plane of each origin", reach=["projected"], params={"mode": 3}, libs=PJL, thorough_params={"all": 1}),
      R("mercator", "proj.cpp", PJ, "the same points, elliptical mercator", reach=["projected", "clamped"], params={"mode": 4}, libs=PJL, thorough_params={"all": 1}),
      R("spherical", "proj.cpp", PJ, "the same points, spherical mercator (not relative to the origin)", reach=["projected"], params={"mode": 5}, libs=PJL, thorough_params={"all": 1}),
    ], ["GeographicLib and the C math library are used as compiled libraries on every combination the solver produces; their numerics are not encoded"])
    MT = ["core", "traffic_rules", "matching"]
    P("M01", [
      R("deterministic", "match.cpp", MT, "two lanelets, a third one at 18 places, a polygon; object at 25 places as point or with 4 hulls (both orientations, open and closed), 7 limits", reach=["inside", "near", "out of range"], params={"mode": 0, "R": 2}, thorough_params={"R": 3, "L": 3}),
      R("probabilistic", "match.cpp", MT, "4 lanelet shapes, own or generated centre line, 49 positions, 8 orientations, 3 concentrations, 5 covariances (zero and singular included)", reach=["matched", "rejected", "against the direction"], params={"mode": 1}, thorough_params={"all": 1}),
      R("filter", "match.cpp", MT, "three lanelets with 4 subtypes and 3 one-way settings each, 3 participants", reach=["none", "some", "all"], params={"mode": 2}),
    ], ["angles are compared within 1e-6; the concentration enters squared, as the tests fix it"])
    VL = ["core", "traffic_rules", "routing", "projection", "io", "validation"]
    VLL = PJL + ("-lboost_program_options",)
    P("V01", [
      R("values", "valid.cpp", VL, "every kind of element with type, subtype, location out of all documented values and near misses; every combination of 27 line string types and 18 subtypes", reach=["clean", "issue", "subtype"], params={"mode": 0}, libs=VLL),
      R("tags", "valid.cpp", VL, "every kind of element with any of 27 tags", reach=["clean", "issue"], params={"mode": 1}, libs=VLL),
      R("bools", "valid.cpp", VL, "every kind of element, 11 tags, 13 values", reach=["clean", "issue"], params={"mode": 2}, libs=VLL),
      R("mandatory", "valid.cpp", VL, "every kind of element with every subset of 4 tags", reach=["clean", "issue", "several"], params={"mode": 3}, libs=VLL),
      R("repeated", "valid.cpp", VL, "every line string and polygon of 0-4 points out of 3 (two at the same place), stored in either direction", reach=["clean", "line string", "polygon"], params={"mode": 4}, libs=VLL),
      R("close", "valid.cpp", VL, "4 points on a 3 cm grid of 3x2 places and two levels", reach=["clean", "close", "close and stacked"], params={"mode": 5, "n": 4}, libs=VLL),
      R("curvature", "valid.cpp", VL, "bounds of 3 points on a 5x5 grid, either direction and side, shared by two lanelets or not", reach=["clean", "sharp"], params={"mode": 6, "R": 2}, libs=VLL, thorough_params={"n": 4}),
      R("selection", "valid.cpp", VL, "every pair of 13 filter patterns in 3 notations, 3 participant lists; recording validators of every type", reach=["none selected", "all selected", "some selected"], params={"mode": 7}, libs=VLL),
      R("cli", "valid.cpp", VL, "every subset of the command line options in short and long form", reach=["file", "no file"], params={"mode": 8}, libs=VLL),
    ], ["unknown tags: a tag is known if it refines a known one (prefix)", "the wrap-around of polygons is not counted as repetition", "boost program_options and pugixml run as compiled libraries"])
    P("G04", [
      R("small", "geo_part.cpp", ["core"], "every clockwise simple polygon of 4 vertices on a 5x5 grid", reach=["concave", "convex", "two parts"], params={"n": 4, "R": 2}),
      R("five", "geo_part.cpp", ["core"], "every clockwise simple polygon of 5 vertices on a 3x3 grid", reach=["concave", "convex", "two parts"], params={"n": 5, "R": 1}),
      R("chains", "geo_part.cpp", ["core"], "polygons of 7 vertices between an upper and a lower chain with 4 heights per vertex", reach=["concave", "convex", "several parts", "triangulated"], params={"n": 7, "sorted": 1, "H": 4}, thorough_params={"n": 8}),
    ])
    P("G05", [
      R("corridor", "geo_align.cpp", ["core"], "two boundaries of 2-3 points over the same stretch, every height on a grid of 3 with the left one above, 4 stored orientations, rotated", reach=["both inverted", "one inverted", "kept"], params={"mode": 0, "H": 2}, thorough_params={"H": 3, "rot": 1}),
      R("any", "geo_align.cpp", ["core"], "any two line strings of 0-3 points on 2x3 grids", reach=["degenerate", "kept"], params={"mode": 1, "R": 1}),
    ], ["lane bounds run alongside each other over the same stretch; for arbitrary line strings only the preservation of the geometry is checked"])
    P("G06", [
      R("offset", "geo_offset.cpp", ["core"], "line strings of 2-4 points that advance by 1-2 per point in one of 4 directions, sideways in [-2,2]; offsets k/4 to either side, k in [0,4]; basic, const and hybrid line strings", reach=["regular", "rejected"], params={"mode": 0, "n": 4}, thorough_params={"n": 5}),
      R("free", "geo_offset.cpp", ["core"], "line strings of 2-3 points anywhere on the grid [-2,2]^2 that do not turn back on themselves, same offsets", reach=["regular", "rejected"], params={"mode": 0, "n": 3, "mono": 0, "rot": 0}, thorough_params={"R": 3}),
      R("curvature", "geo_offset.cpp", ["core"], "three points, the first at the origin, the others on the grid [-3,3]^2", reach=["turn", "repeated"], params={"mode": 1, "R": 3}),
      R("crossings", "geo_offset.cpp", ["core"], "two segments on the grid [-1,1]^2 with each point at either of two heights, 3 tolerances, both directions and argument orders", reach=["crossing", "bridge", "apart"], params={"mode": 2, "R": 1}),
      R("crossings3", "geo_offset.cpp", ["core"], "the same with a line string of 3 points and a level one", reach=["crossing", "bridge", "apart"], params={"mode": 2, "R": 1, "na": 3, "zb": 0}, thorough_params={"zb": 1}),
    ], ["offset: line strings advance in one direction or have at most 3 points", "segments that overlap along a line have no unique crossing (excluded)"])
