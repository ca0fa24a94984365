how("C01", "After each add, every layer is compared with the closure of what was added, computed by the harness from its own record of who refers to whom: same ids, same data pointers, nothing else, exact sizes; ids of elements that had none are checked against all ids seen before. Harness `world.h` builds one small world with all element kinds.", "Sharing, cycles lanelet↔rule and id collisions depend on the combination; the engine covers all of them, and the ids themselves are symbolic where it matters.")
how("C02", "Two or three coroutine threads call `getId`/`registerId`; the harness records begin and end of each call. Every returned id must differ from all others returned and from all ids whose registration ended before the call began.", "The interleaving is a symbolic decision at each atomic operation; no test controls the schedule.")
how("C03", "A direct scan over the harness' own ownership table against `findUsages` of each layer and the free functions.", "The ownership pattern (shared, repeated, inverted, in holes, by parameter) is symbolic.")
how("C04", "Linear scans with bounding boxes and true distances computed by the harness, on maps filled one by one and at once (different R-tree builds), including trees of several levels.", "Position of every element relative to the query; a missed subtree only shows for particular boxes.")
how("C05", "A `std::vector` model of the point order; after every edit each access path (index, iterators in both directions, segments, front/back, 2d/3d/basic) of both views is compared with the model or its reverse.", "All mixtures of edits and views, all positions.")
how("C06", "A `std::map<std::string, Attribute>` model driven by the same operations; after each one both access styles are compared for all keys.", "Only particular histories (erase and re-insert, move, copy, hinted insertion) separate the iterator cache from the map.")
how("C07", "Text classifiers written from the documentation (what is an integer, a bool, an id); values written and read back in every order; histories of assignments, copies, moves and reads.", "Characters are symbolic bytes: every text of the stated length is decided, 32/64-bit limits included.")
how("C08", "The harness records the bounds and centre line in force and compares every derived result with one computed from scratch on fresh objects (and, for geometry, with mid points and direction computed directly).", "Stale caches show only after particular orders of read, replace, invert and reset.")
how("C09", "Per rule, a model of ordered roles; every query, every manoeuvre and the parameter list are compared after each operation; a rule rebuilt from the parameter list has to answer the same.", "Orders, duplicates, inverted references and expired lanelets multiply beyond what tests enumerate.")
how("C10", "Closure computation as in C01, for submaps: exact contents, carried rules, conversion to a map, id registration.", "Selections and reference patterns are symbolic.")
how("C11", "Every value read by two concurrent readers is compared with that of a single reader on an equal object; released memory is poisoned, never reused, and every access is checked.", "The schedule is symbolic at the level of single memory accesses; data races of this kind are practically invisible to tests. It found two real defects (see below).")
how("G01", "Direct definitions over segments in exact or long-double arithmetic: nearest point by minimising over all segments, orientation by cross products at the foot, arc length by summation.", "Kinks, visits of a vertex twice, queries beyond the ends or on the line are all on the grid.")
how("G02", "Rational point-in-polygon, segment intersection and clipping computed by the harness on the grid; all predicates compared with it and with each other under argument swap, inversion and orientation.", "All shapes and relative positions of the grid, touching cases included.")
how("G03", "Direct comparison of bound identities and end points for each predicate; duality and invariance under double inversion.", "Every way to share lines and points in either orientation.")
how("G04", "Areas of pieces (shoelace, integers) sum up to the polygon, every piece convex, correctly oriented, made of its vertices, edges not crossing.", "All simple polygons on the grid with reflex and collinear vertices.")
how("G05", "After aligning, side and direction are decided by cross products over the common stretch; points compared with the inputs.", "All orientations and heights.")
how("I01", "Structural comparison of the map before and after (`mapcmp.h`: ids, attributes, coordinates, order, orientation, roles, sharing), on the real writer and loader through real files.", "Sharing, inversion and role combinations; every subset of missing references.")
how("I02", "The harness writes a document of known content and damages it; which elements may be reported, which must be, and what must be loaded follow from the damage and a dependency table.", "Every damage at every place and every pair of them.")
how("I03", "As I01 with the binary format; in addition single elements in one archive with shared and cyclic references.", "Sharing patterns between archives' elements.")
how("P01", "Round trip, origin and zone rules from the definition; compared with the geodesy library called directly.", "Zone borders, special zones, hemispheres, poles; both error modes.")
how("T01", "Truth table of markings from the documentation.", "The complete product of types, subtypes, tags, directions and participants.")
how("T02", "Precedence evaluated from the documentation (participant hierarchy, then the subtype table); steps between elements from passability, direction and marking.", "The complete product of overrides, subtypes and locations.")
how("T03", "Precedence evaluated from the documentation.", "The complete product of rules, tags, locations and participants, unparsable values included.")
how("R01", "Bellman–Ford over the allowed steps as the harness knows them (from costs and permissions it chose); the returned path is checked step by step and its cost compared with the optimum.", "Step costs are symbolic: each optimum decision is a solver query, ties and infinite costs included.")
how("R02", "Enumeration of all maximal paths and cheapest costs by the harness under the same symbolic costs and limits.", "Limits exactly at, below and above the cost of each path; ties.")
how("R03", "Relations derived from shared boundaries, permissions and (for conflicts) rational overlap tests; symmetric counterparts; stretch cost computed by walking both lanes.", "All combinations of permissions, bidirectional lanelets, branches and rings.")
how("R04", "Route contents as the fixed point defined in the documentation; all queries compared with the graph restricted to it.", "All networks and destinations within the bounds; loops and vias.")
how("R05", "Direct definition of the stretch; polygon built by walking outer borders of the cells.", "All shapes of paths on the grid, border splits.")
how("M01", "Direct distances to shapes, poses on centre lines and the squared Mahalanobis distance written out in closed form.", "Poses, covariances and lanelet shapes on the grid; degenerate covariances.")
how("V01", "The defects are decided directly per primitive; tag tables copied from the documentation of the tagging scheme; filter expressions evaluated by the harness.", "All pairs of values and tags; all small point arrangements; all filter pairs.")
how("G06", "The mitred polyline built segment by segment; wherever it keeps its distance and no segment vanishes, the result must equal it. In all other cases the promised bounds are checked on points and along segments. Circle through three points from its centre; heights of crossings from rational parameters.", "The existing tests offset to the left only; this check found that right offsets cut sharp corners on the wrong side and miss inversions, that the joining walk could start over, and that 3d crossings were wrong on slopes.")
