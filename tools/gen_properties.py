#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per line)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": None}})

FB = "src/flatbush/mod.rs"
TREE = [("tree / level_indices", "flattened packed R-tree, padded with empty boxes to a multiple of the degree on every level", FB)]

prop("C01", "Index box query returns exactly the intersecting items",
 "A spatial index can be built without failing over any list of items (boxes, points, empty items, duplicates, items lined up on one horizontal or vertical line, any coordinate magnitude, any power-of-two degree of at least 2, with or without spatial sorting). A box query on it returns exactly the input positions of the items whose bounding box intersects the query box, touching edges and corners included, each reported once. Empty items, boxes with a NaN coordinate and empty queries match nothing.",
 ["inputs", "configurations"], "every item list (any size and placement), every degree 2^k with k>=1, sorted or unsorted construction, f32 and f64, every query box",
 "the tests query one list of 100 integer boxes with one box at degree 16; padding, tree depth, degenerate extents and touching boxes are not sampled",
 [FB, "src/flatbush/hilbert.rs", "src/planar/primitives/envelope.rs"],
 [("packed bulk load with padding", FB), ("Hilbert key of the box centre", "src/flatbush/hilbert.rs"), ("stack descent pruning on box intersection", FB)],
 ["Flatbush::new", "Flatbush::new_unsorted", "Flatbush::find_intersection_candidates"], TREE)

prop("C02", "Index self-join returns each intersecting pair exactly once",
 "For any spatial index, the self-join returns exactly the pairs of distinct items whose bounding boxes intersect (touching included). Each unordered pair is reported once, with the smaller input position first, and no item is paired with itself.",
 ["inputs", "configurations"], "every item list, every degree 2^k with k>=1, sorted or unsorted construction, f32 and f64",
 "the tests run one list of 100 boxes at degree 16; pairs that meet only at a boundary, in different subtrees, at several tree depths, or between duplicates are not sampled",
 [FB], [("simultaneous descent of node pairs, deduplicated by tree position", FB)], ["Flatbush::find_self_intersection_candidates"], TREE)

prop("C03", "Join of two indexes returns exactly the intersecting pairs",
 "For any two spatial indexes, whatever their sizes, degrees and construction modes (empty ones included), joining one with the other returns exactly the pairs (item of the first, item of the second) whose bounding boxes intersect, touching included. Each pair is reported once and swapping the two indexes yields the same pairs swapped.",
 ["inputs", "configurations"], "every two item lists and every pair of degrees and construction modes",
 "the tests join two halves of one list, both at degree 16 and with equal depth",
 [FB], [("descent of the deeper of the two nodes", FB)], ["Flatbush::find_other_rtree_intersection_candidates"], TREE)

prop("C04", "Index proximity query never misses an item within the distance",
 "For any point and any non-negative distance, the index's proximity query reports every item whose bounding box is within that distance of the point, each at most once. It reports nothing whose box is disjoint from the square centred on the point with that half-width (up to one rounding of the square's sides).",
 ["inputs", "configurations"], "every item list, degree, construction mode, point and distance >= 0",
 "no test calls the proximity query", [FB], [("box query with the square around the point", FB)], ["Flatbush::find_candidates_within"])

prop("C05", "Index tree walk covers every item under tight node boxes",
 "Walking an index from its root node through child nodes reaches every non-empty item exactly once at the leaf level, under its input position and with its own bounding box. Every internal node's box is exactly the smallest box covering its children, and levels decrease by one per step. The index's overall box is the smallest box covering all the items (empty when there are none).",
 ["inputs", "configurations"], "every item list, degree and construction mode",
 "one test compares the internal arrays for eight boxes at degree 4; nothing walks the tree", [FB],
 [("level-by-level packing", FB), ("padding with empty boxes", FB)], ["Flatbush::root_node", "Flatbush::get_children", "HasEnvelope for Flatbush"], TREE)

EN = "src/planar/primitives/envelope.rs"
prop("C06", "Planar envelope operations form a consistent box algebra",
 "Planar envelopes behave as closed axis-aligned rectangles plus an empty one: intersection and containment tests agree with closed-interval arithmetic on both axes and are always false against the empty envelope and envelopes with a NaN coordinate; merging (functionally, in place, or over a sequence) gives the smallest rectangle covering all inputs, with the empty envelope neutral, irrespective of order or grouping. Construction from two corners in any order gives ordered corners, the centre is the midpoint, and growing by a non-negative margin moves every side outwards by that margin. Validation accepts exactly the empty envelope and those with finite, ordered corners.",
 ["inputs"], "all rectangles, points and margins over f32 and f64, including degenerate, touching, nested and empty ones",
 "three tests check constructors; intersects, contains, merge, expand, buffer, center and validate are untested in the plane",
 [EN, "src/planar/primitives/position.rs"], [("per-axis comparisons and min/max", EN)], ["planar::primitives::Envelope"])

prop("C07", "One-dimensional geometry mirrors closed-interval arithmetic",
 "The one-dimensional types behave as closed intervals: interval intersection, containment, merging and in-place expansion agree with interval arithmetic, the empty interval is neutral for merging, neither it nor one with a NaN end contains or intersects anything, and construction orders the end points. Points, lines, multi-points and multi-lines return their members in input order and nothing past the end, are empty exactly when they hold no defined coordinate, and report the smallest interval covering their members. Validation accepts exactly finite (and, for intervals, ordered) coordinates. Position arithmetic is that of the coordinate.",
 ["inputs"], "all intervals and collections over f32 and f64",
 "the tests sample a dozen fixed intervals", ["src/linear/primitives/envelope.rs", "src/linear/primitives/position.rs", "src/linear/primitives/segment.rs", "src/linear/types/line.rs", "src/linear/types/multiline.rs", "src/linear/types/multipoint.rs", "src/linear/types/point.rs"],
 [("comparison of interval ends", "src/linear/primitives/envelope.rs")], ["linear::primitives", "linear::types"])

SG = "src/planar/primitives/segment.rs"
prop("C08", "Segment intersection matches exact geometry",
 "For two segments whose coordinates make the arithmetic exact (differences of coordinates that are integers of moderate size times a power of two, near the origin or far from it, however small or large as long as products neither overflow nor lose bits), the intersection is classified as disjoint, a single point, or an overlapping segment exactly as in exact geometry, including parallel, collinear, touching and zero-length segments whose bounding boxes meet, and independently of argument order and segment direction. A common point that is an end of either segment is returned as exactly that point, any other within rounding error; the ends of an overlap are exactly ends of the inputs. For arbitrary coordinates (whose products neither overflow nor underflow), segments sharing an end point and not close to parallel meet exactly there.",
 ["inputs"], "all pairs of segments, f32 and f64",
 "ten fixed pairs are tested, all with coordinates for which the division happens to be exact", [SG],
 [("parametric intersection with cross products", SG)], ["Segment::intersect_segment"])

prop("C09", "Side, containment, length and area primitives are exact",
 "For coordinates that make the arithmetic exact (near the origin or far from it, as long as the differences of the coordinates and the products of those differences are representable), the side test says left, on or right exactly as the sign of the oriented area, flips when the segment is reversed, and a segment contains exactly the points lying on it, end points included. Squared length and determinant are exact and length is its square root; a triangle's signed area is exact, positive for counter-clockwise and negated by swapping two corners, and its area is the absolute value. Coordinate-wise position arithmetic, products, minima and maxima agree with componentwise arithmetic, a NaN coordinate losing to any number in a minimum or maximum.",
 ["inputs"], "all segments, points and triangles over f32 and f64",
 "four triangle tests and no test of the side test, containment or determinants", [SG, "src/planar/primitives/triangle.rs", "src/planar/primitives/position.rs", "src/coordinate.rs"],
 [("cross product sign", SG)], ["Segment::position_location", "Segment::contains", "Segment::length", "Triangle::signed_area", "Position"])

prop("C10", "Line string validity means exactly: no self-intersection",
 "A line string is reported valid (and simple) exactly when it is empty, or has at least two positions, all finite, no two consecutive ones equal, and no two of its segments share a point other than the vertex joining consecutive segments and, for a closed one, the common first and last position. This holds for any number of vertices and any coordinates for which the configuration is not within rounding error of degenerate; in particular chains with arbitrary real coordinates are not rejected for the vertices that neighbouring segments share.",
 ["inputs"], "all vertex sequences over f32 and f64: lattice-degenerate ones with exact arithmetic, and well-conditioned real ones",
 "about twenty fixed short line strings are tested, with coordinates for which all divisions are exact and at most one index level", ["src/planar/validation/line_string.rs", SG, FB, "src/planar/types/line_string.rs"],
 [("R-tree self-join followed by segment intersection", "src/planar/validation/line_string.rs")], ["LineString::validate", "LineString::is_simple"])

prop("C11", "Multi-point validity and simplification",
 "A multi-point is valid exactly when all its points have finite coordinates and no two points are equal (positive and negative zero being equal); the empty one is valid. Simplifying a multi-point yields a valid geometry holding exactly the distinct finite points, in ascending lexicographic order, or the empty geometry if there are none; simplifying is idempotent and independent of the input order. A membership query answers whether an equal point is among the points.",
 ["inputs"], "all point multisets with duplicates, signed zeros, NaN and infinities, f32 and f64",
 "six fixed multi-points are tested", ["src/planar/validation/multi_point.rs", "src/planar/types/multi_point.rs"],
 [("hash set of positions", "src/planar/validation/multi_point.rs"), ("ordered set", "src/planar/types/multi_point.rs")], ["MultiPoint::validate", "MultiPoint::make_simple", "MultiPoint::contains_point"])

prop("C12", "Multi-line-string validity: members meet only at end points",
 "A multi-line-string is valid (and simple) exactly when every member line string is valid and any point shared by two members is an end point of both, where a closed member has no end points. It is decided correctly however many members there are and however they are placed, including members all on one horizontal or vertical line, empty members, members nested in each other's bounding boxes, and touching bounding boxes.",
 ["inputs"], "all collections of line strings, any number and size, f32 and f64",
 "thirteen fixed collections of at most three short members are tested", ["src/planar/validation/multi_line_string.rs", "src/planar/types/multi_line_string.rs", SG, FB],
 [("R-tree join of members, then of segments, then end-point test", "src/planar/validation/multi_line_string.rs")], ["MultiLineString::validate", "MultiLineString::is_simple"])

LR = "src/planar/algorithms/loop_relation.rs"
prop("C13", "Polygon validity: rings simple, holes inside and apart",
 "A polygon is valid (and simple) exactly when it has no exterior and no holes, or its exterior and all holes are closed simple rings, each hole lies inside the exterior and any two holes lie outside each other, where rings may touch each other in finitely many points but neither cross nor share a stretch of boundary. The verdict is right wherever the rings touch (vertex on vertex, vertex on edge, all vertices of one ring on the other), for concave rings, any number of holes, and either ring direction, and reaching it never fails.",
 ["inputs"], "all exteriors and hole lists on integer-like grids, and well-conditioned real ones, f32 and f64",
 "about twenty fixed polygons with at most two holes are tested", ["src/planar/validation/polygon.rs", LR, "src/planar/validation/line_string.rs", FB],
 [("ring-to-ring relation", LR), ("R-tree self-join of holes", "src/planar/validation/polygon.rs")], ["Polygon::validate", "Polygon::is_simple"])

prop("C14", "Multi-polygon validity: members' interiors do not overlap",
 "A multi-polygon is valid (and simple) exactly when each member polygon is valid and the interiors of any two members are disjoint, their boundaries meeting in at most finitely many points; a member lying in a hole of another is allowed. The verdict is right for any number of members, any nesting of islands in holes, any order of the members, and empty members, and reaching it never fails.",
 ["inputs"], "all collections of polygons on integer-like grids, f32 and f64",
 "six fixed collections of at most two members are tested", ["src/planar/validation/multi_polygon.rs", LR, FB],
 [("R-tree self-join of members, ring relation of exteriors, search of the enclosing hole", "src/planar/validation/multi_polygon.rs")], ["MultiPolygon::validate", "MultiPolygon::is_simple"])

prop("C15", "Validation is total and rejects non-finite coordinates",
 "Validating, or asking for simplicity of, any geometry of any type terminates with a verdict and never aborts, whatever the coordinate values (NaN, infinities, extreme magnitudes, signed zeros, subnormals) and however degenerate the shape. Any point, multi-point, line string, multi-line-string, polygon or multi-polygon having a NaN or infinite coordinate in it is reported invalid. A geometry is simple exactly when it validates.",
 ["inputs"], "all geometries over all float values, f32 and f64",
 "three tests put one NaN into a point, multi-point and line string", ["src/planar/validation/point.rs", "src/planar/validation/line_string.rs", "src/planar/validation/multi_point.rs", "src/planar/validation/multi_line_string.rs", "src/planar/validation/polygon.rs", "src/planar/validation/multi_polygon.rs", "src/planar/primitives/position.rs", "src/flatbush/hilbert.rs"],
 [("finite check per coordinate before any geometry", "src/planar/validation/line_string.rs")], ["validate", "is_simple"])

prop("C16", "Validity does not depend on how a shape is written down",
 "Whether a geometry is valid is unchanged by reversing any line string or ring, starting a ring at another of its vertices, reordering members, points or holes, swapping or mirroring the axes, translating by amounts that keep the arithmetic exact, scaling by a power of two, or switching between single and double precision when both represent the coordinates and arithmetic exactly. Inserting a further vertex at a lattice point on an edge leaves validity of lines, polygons and multi-polygons unchanged as well.",
 ["inputs"], "all geometries with exact arithmetic and all such transformations",
 "no test compares two spellings of one shape", ["src/planar/validation/line_string.rs", "src/planar/validation/multi_line_string.rs", "src/planar/validation/polygon.rs", "src/planar/validation/multi_polygon.rs", LR, SG],
 [("sign-based predicates", SG), ("ring relation", LR)], ["validate"])

prop("C17", "Convex hull of a polygon is the exact hull",
 "For a polygon whose exterior is a valid ring and whose coordinates make the side tests exact, the convex hull is a closed ring, in counter-clockwise order, whose vertices are exactly the extreme points of the exterior's vertices: every polygon vertex is inside or on it, all its vertices are polygon vertices, and no hull vertex is repeated or lies on a straight stretch. The result does not depend on the ring's direction, its starting vertex, the holes, or redundant vertices along straight edges.",
 ["inputs"], "all valid exterior rings with exact arithmetic",
 "three fixed rings are tested", ["src/planar/algorithms/convex_hull.rs", "src/planar/algorithms/implementation.rs"],
 [("Melkman's deque algorithm", "src/planar/algorithms/convex_hull.rs")], ["Polygon::convex_hull"])

prop("C18", "Boundaries follow the odd-count end-point rule",
 "The boundary of a point, multi-point or the empty geometry is empty; of a line string, its two ends, or empty if it is closed or has no positions; of a multi-line-string, exactly the positions that occur an odd number of times among the ends of its non-closed members, each once in ascending lexicographic order; of a polygon or multi-polygon, all its rings (exterior before holes, members in order, empty members contributing nothing). The boundary of a boundary of a polygon with closed rings is empty, and the boundary of a line or polygon geometry has a lower dimension.",
 ["inputs"], "all geometries",
 "no test calls boundary on multi-part or polygon types", ["src/planar/types/line_string.rs", "src/planar/types/multi_line_string.rs", "src/planar/types/polygon.rs", "src/planar/types/multi_polygon.rs", "src/planar/types/point.rs", "src/planar/types/multi_point.rs", "src/planar/types/empty.rs"],
 [("toggling ordered set of ends", "src/planar/types/multi_line_string.rs")], ["boundary"])

prop("C19", "The generic geometry behaves like the wrapped geometry",
 "Wrapping any geometry in the generic geometry type and unwrapping it as its own kind returns it unchanged, and unwrapping it as any other kind returns nothing. The generic geometry reports the wrapped geometry's kind name, dimension (0 for points, 1 for lines, 2 for polygons), bounding box, emptiness, simplicity and boundary. A geometry is empty exactly when it has no coordinates (a polygon: no exterior coordinates), its bounding box is then the empty one, and it unwraps as the empty geometry exactly in that case.",
 ["inputs"], "all geometries of all seven kinds",
 "six tests look at a point and a line string", ["src/planar/types/geometry.rs", "src/planar/types/empty.rs"],
 [("enum delegation", "src/planar/types/geometry.rs")], ["Geometry"])

prop("C20", "Line string accessors, closedness and length are consistent",
 "A line string of n positions returns its positions, its n-1 segments and its first and last points in input order, and nothing past the end; it is closed exactly when it has at least four positions and the first equals the last, and a ring exactly when closed and valid. Its length is the sum of the Euclidean lengths of its segments (within rounding). A multi-line-string is closed exactly when all members are, and its length is the sum of theirs.",
 ["inputs"], "all vertex sequences", "a dozen fixed line strings are tested, none for length or ring",
 ["src/planar/types/line_string.rs", "src/planar/types/multi_line_string.rs"], [("segment iterator", "src/planar/types/line_string.rs")], ["LineString", "MultiLineString"])

prop("C21", "WKT text is read back as exactly the geometry it denotes",
 "Reading the WKT text of any point, line string, polygon with holes, multi-point, multi-line-string or multi-polygon yields exactly one geometry of that kind with the same parts in the same order (first ring exterior, the others holes) and bit-for-bit the written double-precision coordinates, whatever the keyword case, whitespace or number notation. An empty point or polygon is read as the empty geometry, other empty kinds as empty geometries of their kind, empty points and polygons inside a collection of them are dropped, and a blank text yields no geometry.",
 ["inputs"], "all geometries, all finite doubles, all spellings",
 "thirteen fixed texts with small integers are tested", ["src/serde/wkt.rs"], [("conversion from the parser's types", "src/serde/wkt.rs")], ["serde::wkt::parse_wkt"])

prop("C22", "Malformed or unsupported WKT is an error, never a crash",
 "Reading any text of bounded nesting depth returns geometries or an error and never aborts. Every non-blank truncation of a well-formed text that stops before its last closing parenthesis, a text with an unknown keyword (a word that is none of the geometry kinds), a missing or non-numeric coordinate, a missing or doubled comma or opening parenthesis, or a missing closing parenthesis is an error. A geometry collection, which cannot be represented, is reported as an error.",
 ["inputs"], "all texts", "one malformed text is tested", ["src/serde/wkt.rs"], [("error propagation from the parser", "src/serde/wkt.rs")], ["serde::wkt::parse_wkt"])

prop("C23", "Queries are pure: repeatable, thread-safe, input untouched",
 "Every query and validation is a pure function: repeating it on the same value, on a separately built equal value, or from many threads sharing one value at the same time gives the same answer (the same list in the same order, the same verdict with the same message). It leaves the value it is asked of unchanged; geometries and indexes can be shared between threads and sent to them, and threads never race.",
 ["schedules", "inputs"], "all values, any number of repetitions and any interleaving of reader threads",
 "the tests call each function once, on one thread; the ring relation iterates randomly seeded hash tables", [FB, LR, "src/planar/validation/multi_point.rs", "src/planar/types/multi_line_string.rs"],
 [("no interior mutability", FB), ("ordered output sets", "src/planar/types/multi_line_string.rs")], ["all public queries"])

prop("C24", "A polygon's representative point lies on the polygon",
 "A polygon or multi-polygon yields a representative point exactly when it is non-empty, a multi-polygon taking it from its first non-empty member. For a valid geometry that point lies on the surface: inside the polygon or on its boundary, not in a hole's interior.",
 ["inputs"], "all polygons and multi-polygons", "no test calls it", ["src/planar/types/polygon.rs", "src/planar/types/multi_polygon.rs"],
 [("start of the exterior", "src/planar/types/polygon.rs")], ["Polygon::point_on_surface", "MultiPolygon::point_on_surface"])

prop("C25", "Every geometry's bounding box is tight",
 "The bounding box of any position, segment, point, multi-point, line string, multi-line-string, polygon (its exterior) or multi-polygon, built by any constructor or conversion, has as sides exactly the smallest and largest coordinates occurring in it, NaN coordinates being ignored as long as some number occurs on that axis. Empty parts contribute nothing, and a geometry without coordinates has the empty bounding box.",
 ["inputs"], "all geometries and constructors, f32 and f64", "a handful of fixed boxes are compared",
 ["src/planar/types/line_string.rs", "src/planar/types/multi_line_string.rs", "src/planar/types/multi_point.rs", "src/planar/types/multi_polygon.rs", "src/planar/types/polygon.rs", "src/planar/types/point.rs", SG, EN],
 [("box cached at construction", "src/planar/types/line_string.rs")], ["HasEnvelope"],
 [("_envelope", "box of the positions at construction time", "src/planar/types/line_string.rs")])

prop("C26", "No operation has undefined behaviour",
 "Whatever geometry, index, query or text it is given, every operation runs without undefined behaviour: no access outside live memory, no use of uninitialised or freed memory, no data race between threads sharing values, and no integer overflow that would end a debug build and silently wrap in a release build.",
 ["inputs", "schedules"], "all operations on all values the other properties range over, and concurrent readers",
 "the tests run without any sanitizer, on a handful of inputs", [FB, "src/flatbush/hilbert.rs", LR, "src/planar/algorithms/convex_hull.rs", "src/planar/validation/multi_point.rs", "src/serde/wkt.rs"],
 [("index arithmetic on the flattened tree", FB), ("safe Rust throughout, bounds-checked", "src/lib.rs")], ["the whole public interface"])

prop("C27", "Searching and validating prune instead of comparing everything",
 "When the items are small and spread evenly, work stays near the size of the answer. Building an index takes work linear in the items. A small box, point or distance query on a spatially sorted index looks at a few nodes per level, and a query strip or larger box at the items it crosses along its outline, not at all items. A self-join or join takes work linear in the items, and validating a line string, multi-line-string, polygon with holes or multi-polygon, or wrapping a ring in its convex hull, work linear in its vertices, not quadratic; validating or simplifying a multi-point and taking the boundary of a multi-line-string take about linear work too.",
 ["inputs"], "all evenly spread layouts, aspect ratios, scales, degrees, and geometries whose segments or members are short and spread out",
 "tests compare answers on a dozen items; an index that compares everything gives the same answers", [FB, "src/flatbush/hilbert.rs", LR, "src/planar/validation/line_string.rs", "src/planar/validation/multi_line_string.rs", "src/planar/validation/polygon.rs", "src/planar/validation/multi_polygon.rs"],
 [("space-filling-curve order of the items", "src/flatbush/hilbert.rs"), ("descent only into intersecting nodes", FB), ("segments and members paired through an index", "src/planar/validation/line_string.rs")], ["operations on a counting coordinate type during Flatbush and validate calls"])

prop("C28", "Memory is given back and stays proportional",
 "Once the results, geometries and indexes of any sequence of operations are dropped, the memory in use is back where it was: it does not keep growing however many distinct inputs are processed. An index retains memory proportional to its number of items (a bounded number of nodes of one box and one position each) and takes temporary memory of that order to build; a query or self-join takes temporary memory bounded by its answer and by the nodes it can have waiting.",
 ["inputs", "histories"], "all sequences of operations, all indexes",
 "tests neither repeat operations nor look at memory", [FB, LR, "src/planar/types/multi_point.rs", "src/serde/wkt.rs"],
 [("flat node vector, shrunk to fit", FB), ("no caches, no interior state", "src/lib.rs")], ["bytes allocated and not freed by the calling thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
