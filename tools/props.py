# The properties: one entry per id. gen.py turns these into properties.jsonl,
# MANIFEST.json and the check.json files.
P = []


def p(id, title, statement, over, quant, tests, files, mech, state=(), observe=(),
      technique="symbolic execution of the Go SSA, assertions decided by z3",
      bounds=(), assumptions=(), note="", main=False, na=None, extra=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                  files=files, mech=mech, state=state, observe=observe, technique=technique,
                  bounds=list(bounds), assumptions=list(assumptions), note=note, main=main, na=na,
                  extra=extra or {}))


p("C01", "The result is an end-preserving ordered selection of input vertices",
  "For every input line, every combination of options and every set of constraint geometries, the simplified line starts at the first input vertex, ends at the last one, and consists only of unmodified input vertices, each used once and in their input order. The stretches of input that its segments replace tile the whole line: every input segment is covered by exactly one of them.",
  ["inputs", "configurations"],
  "all lines, scores, thresholds, options and constraints; independent lines and feature classes",
  "the tests compare a few fixed lines with stored results; they cannot range over every way in which decomposition, constraint splits and merging can interleave",
  ["constdp/simplify.go", "constdp/fc_simplify.go", "constdp/fc_group.go", "decompose/decompose.go", "simplify.go"],
  [("stack decomposition into adjacent ranges", "decompose.DouglasPeucker"), ("end indices of all stretches collected in an ordered set", "constdp.Simplify, groupHullsByFC"), ("index list laid over the input coordinates", "main.setSimpleCoords")],
  state=[("Hulls", "the stretches kept", "dp.DouglasPeucker.Hulls"), ("SimpleSet", "the vertex numbers kept", "dp.DouglasPeucker.SimpleSet")],
  bounds=["arbitrary score tables: one line of 6 (thorough 7) vertices, every split vertex and every score in 0..2 free for each of its stretches",
          "pipelines: 7 concrete lines of 7-13 vertices (spiral, self-crossing, closed, touching itself, wave, bay, transversal), threshold any integer 0..16, 5 option sets, a point and a line constraint; pairs of them as feature classes"],
  main=True)

p("C02", "Decomposition honours the threshold and splits at the scored vertex",
  "Whatever the scoring function, unconstrained simplification replaces only stretches whose score is at most the threshold, keeps a vertex only if it is an end of the line or the vertex at which a stretch scoring above the threshold was split, and the accepted stretches, in order, tile the line. Plain and squared scoring accept exactly the same stretches for a non-negative threshold.",
  ["inputs"],
  "all score functions, thresholds and lines",
  "tests run two offset functions on a few lines; the guarantee is over every score a stretch can have, including exact ties with the threshold",
  ["decompose/decompose.go", "dp/dp.go", "offset/dp.go", "constdp/decompose.go"],
  [("explicit stack, accept or split at the scored vertex", "decompose.DouglasPeucker"), ("threshold comparison, plain and squared", "dp.ScoreRelation, dp.SquareScoreRelation")],
  bounds=["one line of 6 (thorough 7) vertices with an arbitrary table of split vertices and scores 0..2, threshold 0..2, and in quarters below one; both scoring modes"])

p("C03", "The perpendicular score is the farthest interior vertex and its distance",
  "For every line of three or more vertices the distance score chooses an interior vertex, no other interior vertex lies farther from the segment joining the two ends, and the value reported is exactly that vertex's distance to the segment (its square, for the squared score). A single segment scores zero.",
  ["inputs"], "all vertex positions, including coincident ends and vertices beyond the ends of the segment",
  "tests check a handful of lines; off-segment projections, ties and degenerate chords are chosen by coordinates the tests do not enumerate",
  ["offset/dp.go"], [("scan of the interior vertices keeping the maximum", "offset.maxOffset")],
  bounds=["fixed chords including a point chord, 3 interior vertices anywhere on an integer grid; one free vertex in lines of 3-13 vertices"])

p("C04", "The synchronised score is the largest distance to the time-expected position",
  "For every trajectory of three or more vertices, the synchronised distance score chooses an interior vertex, no other interior vertex lies farther from the position expected at its own time under uniform motion from the first end to the last (continued beyond them for times outside, and at the first end where the two have the same time), and the value reported is that distance (its square, for the squared score). A single segment scores zero.",
  ["inputs"], "all positions and times",
  "tests cover two trajectories; the score depends continuously on position, direction and time",
  ["offset/sed.go"], [("expected position by direction and speed, scan for the maximum", "offset.maxSEDOffset")],
  bounds=["fixed chords (several directions and durations, none among them, a point chord) with 2 (thorough 3) interior vertices of free position and time, up to one unit outside the times of the ends, which may run down; one free vertex and time in a 13-vertex trajectory"])

p("C05", "Merging joins only neighbours within threshold, never at protected vertices",
  "When fragments left by constraint splitting are merged again, every merged stretch is a union of neighbouring fragments whose score is within the threshold and which satisfies the active relations, no merge removes a protected vertex (a self-intersection vertex or a junction), and what is not merged is left exactly as it was. Where nothing forbids merging, no lone single-segment fragment remains. No stretch is lost or duplicated by merging.",
  ["inputs"], "all score functions, fragment layouts and protected-vertex sets",
  "tests merge a few fixed fragments; the order in which fragments are met and rejected ranges over many histories",
  ["constdp/node_aggregates.go", "merge/merge.go", "node/contig.go"],
  [("left-to-right scan over single-segment fragments with a tried-pair cache", "constdp.AggregateSimpleSegments"), ("merge predicate by score of the union", "merge.ContiguousFragmentsAtThreshold")],
  bounds=["one line of 5-7 vertices, arbitrary score table, every tiling of it into stretches, every set of protected vertices; merge validity arbitrary per stretch"])

p("C06", "Geometric relation: simplified segments meet a constraint iff the original did",
  "With the geometric relation on, for every constraint point, line or polygon within reach, each segment of the simplified line meets the constraint exactly if the stretch of the original line it replaces does. In particular the simplified line neither touches a constraint the original avoided nor comes off one that it touched.",
  ["inputs", "configurations"], "all constraint positions and thresholds",
  "tests use fixed constraints; whether a segment touches a constraint flips at exact coordinates no sample hits",
  ["relate/geom.go", "constrain/bygeom.go", "constdp/simple_0.go", "constdp/validate.go", "constdp/simple_1.go"],
  [("intersection of stretch and of its segment with each context geometry compared", "relate.IsGeomRelateValid"), ("split until no stretch is invalid", "constdp.Simplify loop"), ("merges revalidated", "constdp.ValidateMerge")],
  bounds=["concrete lines; one constraint (point, segment, triangle) moved over an integer grid, alone, among a dozen others or amid a few harmless ones, threshold free; short lines with a point in the room between stretch and segment under any combination of the other switches; two constraints of equal bounds; also the predicate itself on a free stretch"])

p("C07", "Distance relation: no simplified segment comes newly closer than the minimum",
  "With the distance relation on, for every constraint geometry, a segment of the simplified line is closer to it than the minimum distance only if the stretch of the original line it replaces is already closer than that.",
  ["inputs", "configurations"], "all constraint positions, minimum distances and thresholds",
  "tests use fixed constraints and one minimum distance",
  ["relate/dist.go", "constrain/bymindist.go", "constdp/validate.go", "knn/knn.go"],
  [("distances of stretch and segment to each context geometry compared with the minimum", "relate.IsDistRelateValid"), ("neighbour search by minimum distance", "knn.ContextNeighbours")],
  bounds=["concrete lines; one constraint (point, segment, triangle) moved over an integer grid, alone, among a dozen others or amid a few harmless ones, several minimum distances; short lines with a point nearby under any combination of the other switches; also the predicate itself on ten concrete stretches, at distances equal to the minimum for stretches along the axes, and for a segment shorter than the minimum"])

p("C08", "Homotopy: a stretch is never swept across a constraint it does not touch",
  "With the homotopy relation on, a stretch of the original line is replaced by a segment only if it can be deformed into that segment without passing over a constraint: for every point constraint touching neither, the closed curve formed by the stretch and the reversed segment does not wind around it, and a constraint touching one of the two but not the other prevents the replacement. A single point constraint prevents it in no other case; several constraints may prevent it together, where none does alone.",
  ["inputs", "configurations"], "all constraint positions and thresholds",
  "tests use fixed constraints; the side of a point relative to a curling stretch flips at coordinates no sample hits",
  ["homotopy/homotopy.go", "homotopy/deform.go", "homotopy/chain.go", "relate/sidedness.go", "constrain/byside.go"],
  [("triangle-by-triangle collapse of the chain", "homotopy.chainDeformation"), ("exclusive contacts rejected", "homotopy.filterContext")],
  bounds=["ten concrete stretches of 4-9 vertices and one of 23 that is caught by two points together; one constraint (point, segment, triangle, elbow) or two moved over an integer grid; whole simplifications of 4 (thorough 10) lines with the constraint moved, alone, among a dozen others or amid a few harmless ones, of short lines under any combination of the other switches, and of a long finger that can be drawn back only bend by bend"])

p("C09", "No new crossings: simplified segments cross only where originals did",
  "With avoidance of new self-intersections on, two segments of the simplified output of one line properly cross only if the stretches of the original line which they replace meet. In a feature class the same holds for segments of different lines.",
  ["inputs", "configurations"], "all thresholds and relative positions of the lines",
  "tests simplify fixed lines; a crossing appears or disappears at exact thresholds and offsets",
  ["constrain/byself.go", "constrain/bycls.go", "deform/cls.go", "deform/ln.go", "deform/noncontig.go", "deform/contig.go", "constdp/fc_simplify.go", "constdp/validate.go"],
  [("candidate stretches with meeting hulls checked pairwise", "deform.SelectFeatureClass"), ("merges revalidated against all stretches", "deform.Select via constrain.BySelfIntersection"), ("second pass over all lines of a class", "constdp.SimplifyFeatureClass")],
  bounds=["concrete spirals, bays and wave lines, one vertex or a whole second line moved over an integer grid, threshold free; classes of three and four lines in which a stretch is restored late because of another line, pieces that come to lie across their own line after such a split, pieces joined again across it, and two lines of as many vertices wound about each other"])

p("C10", "Planar self-intersection vertices of a line are always kept",
  "With preservation of planar self-intersections on, every vertex position through which a line passes more than once is kept at each of its occurrences, for any threshold and any other options.",
  ["inputs", "configurations"], "all lines and thresholds",
  "tests look at two fixed lines; which vertices coincide, and where such groups fall in sorted order, is an input",
  ["lnr/self.go", "lnr/vertices.go", "constrain/toself.go", "constrain/split.go", "rng/split.go", "constdp/node_aggregates.go"],
  [("lexicographic sort and grouping of equal vertices", "lnr.planarIntersects"), ("splitting of the covering stretches at all occurrences", "constrain.splitAtSelfIntersects"), ("merge barred at those vertices", "constdp.AggregateSimpleSegments")],
  bounds=["detection: lines of 5 (thorough 6) vertices anywhere on a 3x2 grid of step 1 and 1/4, every pattern of coincidences; simplification: one free vertex with a score dropping all, seven lines with arbitrary score tables, a 13-vertex line with any repeated pair and a 23-vertex line through two vertices three and four times at any threshold"])

p("C11", "Junction vertices shared by lines of a feature class are kept in each of them",
  "With preservation of planar intersections on, a vertex position that occurs in two or more lines of a feature class, or more than once in one of them, is kept at every occurrence in every one of those lines, for any threshold.",
  ["inputs", "configurations"], "all groups of lines and thresholds",
  "tests check one small class; which vertices coincide across lines, and where groups fall in sorted order, is an input",
  ["lnr/fc.go", "lnr/vertices.go", "constdp/fc_simplify.go", "constrain/toself.go"],
  [("one sorted vertex list for all lines, groups of equals recorded per line", "lnr.FCPlanarSelfIntersection"), ("junctions handed to each line's simplification", "constdp.SimplifyInstances")],
  bounds=["detection: two lines of 2-3 vertices anywhere on a 3x2 grid of step 1/4 or three on one of step 1, one free vertex among four lines of 3-7 vertices; feature class: one free vertex of two lines with a score dropping all, two lines that run along one another, three lines sharing vertices by choice and 10 (thorough 18) lines through one vertex at any threshold"])

p("C12", "Crossing segments of a line survive when non-planar crossings are preserved",
  "With preservation of non-planar self-intersections on, wherever two segments of a line cross, or an end of one lies within the other, both segments' end vertices are kept, so that the crossing is still there in the output.",
  ["inputs", "configurations"], "all lines and thresholds",
  "tests check one fixed line; which segments cross is an input",
  ["lnr/self.go", "constrain/toself.go", "constrain/split.go", "geometry/pln.go"],
  [("segment index searched for meeting pairs, shared-vertex contacts excluded", "lnr.nonPlanarIntersection"), ("splitting at the four end vertices", "constrain.splitAtSelfIntersects")],
  bounds=["detection: lines of 4 vertices anywhere on a 3x2 (thorough 3x3) grid of step 1 and 1/4, and one free vertex of a 7-vertex line; whole simplification: one free vertex with a score dropping all, fixed crossing lines with an arbitrary score table, a 13-vertex line and a bundle of slanting strokes at any threshold"])

p("C13", "The spatial database answers every search exactly, after any history",
  "After any sequence of loading and removing items, in bulk or one at a time, listing the database returns each item loaded and not removed exactly once and nothing else, and a rectangle search returns exactly those of them whose boxes meet the rectangle, edges included.",
  ["histories", "inputs"], "all histories of loads and removals, all boxes and queries",
  "tests replay fixed histories over fixed data; node splits, merges and box updates depend on order, count and position",
  ["hdb/load.go", "hdb/insert.go", "hdb/remove.go", "hdb/search.go", "hdb/split.go", "hdb/build.go", "hdb/select.go", "hdb/util.go", "hdb/mbr.go"],
  [("bulk packing", "hdb.buildTree"), ("choose subtree, insert, split", "hdb.insert"), ("remove and condense", "hdb.Remove"), ("pruned descent", "hdb.Search")],
  bounds=["every history of 4 (thorough 6) loads (1, 3 or 6 items) and removals (first, middle, last); databases of 0-640 items, small ones and long ones across many others, with free queries or one free box; removal, twice and of something absent, from 13 (thorough 24) boxes piled up in one place, and until nothing is left"])

p("C14", "Nearest-neighbour search is exact, ordered and complete",
  "A search for neighbours within a distance returns exactly the stored geometries at most that far from the query, nearest first; a search for k nearest returns the k nearest. Looking for neighbours of a stretch never returns the stretch itself.",
  ["inputs", "histories"], "all contents, query positions and distances",
  "tests check counts for a few queries",
  ["hdb/knn.go", "knn/knn.go", "knn/neighbours.go", "box/box.go"],
  [("best-first traversal with a priority queue", "hdb.Knn"), ("exact geometry distance for items, box distance for nodes", "knn.ScoreFn"), ("stop at the first item too far", "knn.PredicateFn")],
  bounds=["0-40 fixed points, segments and bent lines; query point free in one ordinate, several distances; points exactly at the distance asked for"])

p("C15", "Splitting and joining of ranges and stretches loses and duplicates nothing",
  "Splitting a range or stretch at any list of vertex numbers yields consecutive pieces that tile it, cut exactly at those numbers that lie strictly inside it; numbers outside or at its ends, and repeated ones, have no effect. Joining two adjacent ranges or stretches, in either order, gives exactly their union with every vertex once.",
  ["inputs"], "all ranges and index lists",
  "tests split a few ranges",
  ["rng/split.go", "rng/rng.go", "split/split.go", "merge/merge.go", "iter"],
  [("sorted split indices cut the range", "rng.Split"), ("sub-coordinates by offset within the stretch", "split.AtIndex, split.AtScoreSelection"), ("index lists concatenated without the shared vertex", "merge.ContiguousCoordinates")],
  bounds=["ranges within 0..9, index lists of up to 3-4 free numbers, every set of up to 5 (thorough 6) cuts; stretches of a 9-vertex line"])

p("C18", "Output: one line per input feature, in input order, holding its simplification",
  "The output file holds one GeoJSON feature per input feature that has lines (features of a collection count one by one), in input order and separated by newlines, with that feature's properties and exactly its simplified parts in their order: a LineString for one part, a MultiLineString for several. A third ordinate is written exactly for parts in which it is not zero throughout.",
  ["inputs"], "all numbers of features and parts, gaps in the numbering, orders and coordinates",
  "no test runs the writer on inputs with lines that yield no feature, many parts or mixed dimensions",
  ["encode.go", "main.go", "geometry/types.go"],
  [("grouping by feature number, sorting by part", "main.groupPlnsAsGeoJSONS"), ("encoding of a group", "main.createGeoJSONString")],
  bounds=["up to 4 input features with 1-3 parts, in any order and with gaps, and files of 20 and 104 features; coordinates on a grid; whole program runs over scratch files"], main=True)

p("C19", "Input: every line and constraint in the file is read, once, with its coordinates",
  "Reading an input file yields, for every non-blank line of text, one line per LineString and per part of a MultiLineString, whether given as a bare geometry, a feature or a member of a feature collection, in file order with its coordinates and the properties of its feature; features without a geometry, and geometries of other kinds, are skipped. Reading constraints yields likewise every point, line and polygon, and every part of a multi-part one.",
  ["inputs"], "all files of geometries",
  "tests compare counts for two files, one of them with itself",
  ["geometry/geojson.go", "geometry/geojson_geom.go", "geometry/utils.go", "geometry/pln.go"],
  [("one JSON document per text line, dispatch on type", "geometry.parseInputLinearFeatures, parseConstraintFeatures"), ("parts to objects with composed ids", "geometry.geoJsonLineString and siblings")],
  bounds=["files of up to 3 text lines, each any of the geometry kinds, bare or as feature or collection; coordinates on a grid"])

p("C20", "Configuration: every documented option reaches the simplifier unchanged",
  "Each documented configuration key sets exactly the option it names, whether the configuration is given as a file or as base64 text, and no other; keys left out stay off or zero, and surrounding white space and the letter case of the simplification type do not matter.",
  ["configurations"], "all combinations of option values",
  "no test covers the mapping from configuration to options",
  ["cfg.go", "main.go", "util.go"],
  [("JSON decoding by key", "main.ArgObj"), ("field-by-field copy", "main.optsFromCfg"), ("base64 transport", "main.parseInput")],
  bounds=["all 2^7 switch combinations and free numeric values; zero included; file and base64 route; files of one or two lines; whole program runs that tell each option by its effect"], main=True)

p("C21", "Concurrent simplification processes each line exactly once and terminates",
  "Simplifying a set of lines concurrently finishes under every schedule, without deadlock or data race, with each line simplified exactly once to the result it would have on its own; the concurrent validity checks of stretches likewise report each invalid stretch under every schedule.",
  ["schedules"], "all interleavings of the workers, for any number of lines",
  "a test run observes one schedule, and not the ones in which a worker is slow or a channel fills",
  ["constdp/fc_simplify.go", "constdp/simple_0.go"],
  [("workers draining a channel of lines, results closed after a wait group", "constdp.SimplifyInstances"), ("chunked checks with results collected over a channel", "constdp.processConstSimplification")],
  technique="symbolic execution of the Go SSA with schedules as choices, happens-before race detection, z3",
  bounds=["1-2 (thorough 1-3) lines, a class of 2 lines and 1-3 (thorough 1-4) stretches under every schedule that departs from first-come-first-served by at most 1 (thorough 2) delays; 7-25 (thorough 40) lines, 9 and 17 (thorough 33) lines of 13 vertices at any threshold, and 0-27 (thorough 59) stretches under that schedule; race detection by happens-before on it; thresholds and a constraint position free"],
  note="A finding is replayed natively up to 300 times, with random pauses between the statements of concurrent files, before it is reported.")

p("C22", "The stretch queue is a double-ended queue",
  "For any sequence of appends and pops at either end, the queue returns the stretches in the order of a double-ended queue and reports its size, first and last accordingly; clearing empties it.",
  ["histories"], "all sequences of operations",
  "tests perform one sequence",
  ["node/queue.go"], [("lock around a deque", "node.Queue")],
  bounds=["every sequence of 5 (thorough 7) operations on different stretches and on one and the same; queues of up to 260 stretches filled and drained at either end"])

p("C23", "Results do not depend on other independent lines, on order, or on map order",
  "When lines are simplified independently, the result for a line is the same whatever other lines are simplified with it and in whatever order, and running the same input again, or in another iteration order of internal maps, gives the same result. Nothing in the input coordinates or the constraint geometries is modified.",
  ["inputs", "schedules"], "all lines, orders and map orders",
  "tests run one set in one order",
  ["constdp/fc_simplify.go", "constdp/simple_1.go", "constdp/simplify.go", "simplify.go"],
  [("one context database and state per line", "constdp.NewConstDP"), ("ordered set of kept vertices", "constdp.Simplify")],
  bounds=["3-8 concrete lines that cross, touch and repeat one another, in two orders and alone, any threshold, five option sets, three constraints; a second run with up to 2 (class: 1; thorough 3 and 2) entries of internal maps passed over"], main=True)

p("C24", "Crossings that remain stay together and within the allowed displacement",
  "With avoidance of new self-intersections on, wherever two stretches replaced in one line that are not neighbours, or two stretches of different lines of a feature class, meet, the segments replacing them still meet, and no point where the stretches meet is farther from where the segments meet than the non-planar displacement.",
  ["inputs", "configurations"],
  "all thresholds, displacements and relative positions of the lines",
  "tests select hulls for fixed layouts; a crossing moves or is lost at exact thresholds and offsets",
  ["deform/noncontig.go", "deform/cls.go", "deform/ln.go", "constdp/simple_0.go", "constdp/validate.go", "constdp/fc_simplify.go"],
  [("points in common of the stretches compared with those of the segments", "deform.nonContiguousCandidates"), ("both stretches split when displaced too far", "constdp.deformNodes"), ("merges revalidated", "constdp.ValidateMerge")],
  bounds=["self-crossing lines of 8-14 vertices with one vertex moved along a row, and pairs of lines of a class, one moved; threshold any integer 0..20; displacements 1 and 4 (thorough also 0 and 9); two lines whose segments come to lie along one another"])
