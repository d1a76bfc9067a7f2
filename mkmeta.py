#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []          # properties
CLAIMED = []    # (id, level_note)
NA = []         # (id, reason)
TECH = "deterministic simulation with fault injection (seeded search over operation schedules, draws and faults)"

def prop(pid, title, statement, over, qtext, why, files, mech, note=None, na=None, state=None, observe=None):
    files = [g for f in files for g in (sorted(os.path.relpath(x, "/repo") for x in glob.glob("/repo/" + f)) if "*" in f else [f])]
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
    assert len(title) <= 80, title
    if na: NA.append({"property": pid, "reason": na})
    elif note: CLAIMED.append((pid, note))

S = "frackit/sampling/"; N = "frackit/entitynetwork/"; G = "frackit/geometry/"; IO = "frackit/io/"
SEEN = "Seeded search, not exhaustive: assurance grows with the runs reported in the evidence file. "

prop("P01", "Uniform point samplers stay inside their domain",
     "Every point drawn from a uniform point sampler on a box, cylinder or hollow cylinder lies in that (closed) domain, up to rounding relative to its size, whatever the domain's position, orientation and size, and however samplers are copied, interleaved and seeded.",
     ["inputs", "schedules", "fault_sequences"], "all domains, all entropy values (also a stuck or repeating source), all interleavings of live samplers",
     "Tests draw a few hundred points from a handful of fixed domains with one unpredictable seed each.",
     [S + "boxpointsampler.hh", S + "cylinderpointsampler.hh", S + "makepointsampler.hh", S + "makeuniformpointsampler.hh", G + "box.hh", G + "cylinder.hh", G + "hollowcylinder.hh"],
     [("coordinate distributions mapped into the domain", S + "boxpointsampler.hh, " + S + "cylinderpointsampler.hh operator()")],
     SEEN + "Real samplers, engine and distributions under simulated entropy; membership is decided by independent vector arithmetic.")
prop("P02", "Uniform point samplers are uniform by volume",
     "The points of a uniform point sampler are distributed uniformly by volume over its domain: the fraction of points in any sub-region converges to the region's share of the volume, in particular radially in (hollow) cylinders.",
     ["inputs", "histories"], "all domains and long sample histories from any entropy",
     "Tests only look at membership of single points; no test looks at the distribution.",
     [S + "uniformpointsamplertraits.hh", S + "boxpointsampler.hh", S + "cylinderpointsampler.hh", S + "makepointsampler.hh"],
     [("squared-radius distribution", S + "makepointsampler.hh"), ("sqrt of the drawn value", S + "cylinderpointsampler.hh")],
     SEEN + "Chi-square tests with a false-alarm probability below 1e-9 per run over simulated histories of 20000 points; smaller biases stay unseen.")
prop("P03", "Sampled disks have the drawn center, axes and orientation",
     "A sampled disk is centered at the drawn point, its axes are orthonormal and are the standard basis rotated successively by the drawn angles around x, y and z, its axis lengths are the accepted draws with the minor axis clipped to the major one, and non-positive lengths are never used.",
     ["inputs", "fault_sequences"], "all draws of all distributions, including bursts of inadmissible values",
     "Tests sample a few disks from benign distributions and check nothing but that this runs.",
     [S + "disksampler.hh", G + "disk.hh", G + "vector.hh"],
     [("rejection loops and successive rotations", S + "disksampler.hh operator()")],
     SEEN + "All distributions and the centre sampler are decided by the simulator; the oracle rotates with its own arithmetic.")
prop("P04", "Sampled polygons and quadrilaterals are convex, planar and as drawn",
     "A sampled polygon or quadrilateral is convex, lies in the plane given by the drawn strike and dip angles, has the drawn number of corners, its bounding box is centered at the drawn point, and it extends over at least 80 and at most 100 percent of the drawn lengths in strike and dip direction; the edge-length form has no dimension below the minimum edge length.",
     ["inputs", "fault_sequences"], "all draws and inner random numbers, all length scales, bursts of inadmissible values",
     "Tests sample a few polygons at one scale with one unpredictable seed; convexity depends on the inner random numbers.",
     [S + "polygonsampler.hh", S + "quadrilateralsampler.hh", G + "polygon.hh", G + "quadrilateral.hh"],
     [("edge pairing, sorting by angle, rotation, centering", S + "polygonsampler.hh sampleCorners()")],
     SEEN + "Distributions decided by the simulator, inner engine run from simulated entropy.")
prop("P05", "Sampling makes progress or reports a documented error, and recovers",
     "A sampler returns as soon as admissible values are drawn, polygon-based samplers raise an error after about 100 inadmissible draws instead of looping, failures of distributions, point samplers, entropy or memory surface unchanged, and afterwards the sampler still delivers proper geometries.",
     ["inputs", "fault_sequences", "histories"], "all bursts of inadmissible draws and failures at every draw, all continuations",
     "Tests never produce an inadmissible draw or a failure.",
     [S + "polygonsampler.hh", S + "quadrilateralsampler.hh", S + "disksampler.hh"],
     [("retry loops with counters", S + "polygonsampler.hh sampleCorners()"), ("retry loops", S + "disksampler.hh operator(), " + S + "quadrilateralsampler.hh")],
     SEEN + "Liveness is progress within a bounded number of draws; hangs without draws are cut off by CPU time.")
prop("P06", "Sampling sessions are reproducible and isolated",
     "The outputs of a sampling session are a function of its parameters and its own entropy only: they do not change when other sessions run interleaved or memory is laid out differently, and they do change with the entropy.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of sessions, all heap layouts, all entropy values",
     "Tests run one sampler at a time from real entropy and cannot repeat a run.",
     [S + "disksampler.hh", S + "polygonsampler.hh", S + "quadrilateralsampler.hh", S + "boxpointsampler.hh", S + "cylinderpointsampler.hh", S + "multigeometrysampler.hh"],
     [("private engine per sampler seeded from the entropy source", S + "*sampler.hh constructors")],
     SEEN + "Bit-exact comparison of interleaved and solo executions of the real samplers.")
prop("P07", "Multi-geometry sampling serves the registered samplers in turn",
     "Every sample of a multi-geometry sampler comes from the sampler registered under the reported id; with the sequential strategy the samplers take turns in order of registration, each exactly once per round; duplicate ids, unknown ids and empty samplers raise errors, and a registration that fails leaves no trace.",
     ["histories", "fault_sequences"], "all histories of registrations, samples, sampler failures and allocation failures",
     "Tests register three samplers once and sample in one loop.",
     [S + "multigeometrysampler.hh", S + "sequentialsamplingstrategy.hh", S + "samplingstrategy.hh"],
     [("id list and current index", S + "sequentialsamplingstrategy.hh"), ("id lookup over the sampler tuple", S + "multigeometrysampler.hh operator()")],
     SEEN + "Real multi sampler and strategy; tagged stub samplers.")
prop("P08", "The sampling status is an exact counter model",
     "Counts, totals and the finished state always equal the history of accepted samples, targets and resets; querying never changes them; the printed status shows these numbers in any state, and a failed update can be repeated.",
     ["histories", "fault_sequences"], "all histories over arbitrary ids, all target values including zero, allocation failures",
     "No test covers the status class beyond one linear use.",
     [S + "status.hh"], [("count and target maps", S + "status.hh")],
     SEEN + "Step-by-step refinement against a counter model.")

prop("P09", "Accepted networks satisfy the active constraints pairwise",
     "With entity-network constraints, a candidate is accepted exactly if it fulfils every active constraint (minimum distance, minimum intersection angle, minimum intersection magnitude, minimum distance of intersections to boundaries) against every accepted entity, so a grown network - of planar entities or of segments - satisfies its constraints pairwise; deactivated constraints never reject, and copies carry the constraints.",
     ["histories", "inputs"], "all accept/reject histories over disks, quadrilaterals and polygons, or over segments, with constraints changed in between",
     "Tests evaluate a few hand-placed pairs; the guarantee is about all pairs of a randomly grown network.",
     [N + "constraints.hh", "frackit/intersection/intersect.hh", "frackit/distance/distance.hh", "frackit/distance/distancetoboundary.hh", "frackit/intersection/intersectiontraits.hh"] ,
     [("evaluation of a pair", N + "constraints.hh evaluate()")],
     SEEN + "A three-valued independent model decides pairs; borderline pairs are not judged.")
prop("P10", "Constraint evaluation does not depend on how entities are passed",
     "The result of a constraint evaluation is the conjunction over all pairs, and is the same for single entities and sets, for values and base-class pointers, and for both argument orders; an evaluation that runs out of memory reports this and changes nothing.",
     ["inputs", "histories", "fault_sequences"], "all sets of entities in all call forms, allocation failures at every point",
     "Tests use one call form each.",
     [N + "constraints.hh", "frackit/geometryutilities/applyongeometry.hh"],
     [("overloads for sets and pointers", N + "constraints.hh evaluate()")],
     SEEN + "Real code; the oracle is an independent pair model.")
prop("P11", "A constraints matrix is the conjunction of its relations",
     "The constraints matrix accepts a candidate for a set exactly if the constraints of every relation between this set and a non-empty set are fulfilled, each relation is evaluated in both set orders alike, unrelated sets never matter, and repeated relations are rejected without a trace.",
     ["histories", "fault_sequences"], "all histories of adding relations, evaluating and accepting, with failing constraints and memory",
     "Tests fill one matrix and do not look at single relations.",
     [N + "constraintsmatrix.hh", N + "multigeometryentityset.hh"],
     [("pairs per constraints object", N + "constraintsmatrix.hh")],
     SEEN + "Real matrix and sets; stub constraints record calls in half of the runs, real constraints in the other half.")
prop("P12", "Multi-geometry entity sets keep and export entities by id and in order",
     "A multi-geometry entity set is a map from ids to lists of one geometry type: adding appends exactly one entity or raises an error and changes nothing, functions are applied to exactly the set with the given id, and exporting hands each entity exactly once, in order and with its id to the network builder.",
     ["histories", "fault_sequences"], "all histories of additions, applications and exports with wrong types, failing builders and memory",
     "Tests add one entity per type and never export to a failing builder.",
     [N + "multigeometryentityset.hh", "frackit/geometryutilities/assign.hh"],
     [("tuple of maps", N + "multigeometryentityset.hh")],
     SEEN + "Real sets against a map model after every step.")

prop("P13", "A built network is a conforming decomposition of its entities",
     "The entity fragments of a built network lie on their primary entities, carry exactly that entity's index, together cover each entity's area exactly once, never overlap, and meet in shared edges along all intersections of the entities, whatever the order, sets and types in which the entities were added.",
     ["inputs", "histories", "schedules"], "all sets of planar entities, all orders of addition, all heap layouts (they decide the iteration order of the shape maps)",
     "Tests fragment a few fixed entities and look at fragment counts, not at indices, areas or conformity.",
     [N + "networkbuilder.hh", N + "entitynetwork.hh", "frackit/occ/breputilities.hh", "frackit/geometryutilities/getboundingbox.hh"],
     [("fragmentation and assignment of indices", N + "networkbuilder.hh build()")],
     SEEN + "Entities in general position (plus given coplanar neighbours); area, intersection segments and ownership come from independent polygon arithmetic.")
prop("P14", "A network build depends only on what was added since the last clear",
     "Whatever happened to a builder before - failed additions, failed or repeated builds, other length scales, changed tolerances, clears - a build yields the network of exactly the accepted content, the builder tells reliably whether a network exists, and a failed build or addition can be repeated.",
     ["histories", "fault_sequences", "crash_points"], "all histories of additions, failing additions, builds, failing builds, setting changes and clears",
     "Tests use each builder once, without failure.",
     [N + "networkbuilder.hh"],
     [("builder state: maps of shapes, cached tolerance, built flag", N + "networkbuilder.hh")],
     SEEN + "Every successful build is compared with independent geometry for the content of a reference model; sub-domain networks without any sub-domain are not judged.")
prop("P15", "Contained networks are confined, conforming and conserve area and volume",
     "In networks with sub-domains, entities of a confining sub-domain (or of any one if confined to their union) cover exactly their part inside of it, others keep their full area, the sub-domain fragments together have the sub-domain's volume and belong to its id, and entities embedded in sub-domains are faces of the sub-domain fragments.",
     ["inputs", "histories", "schedules"], "all sub-domains (boxes, cylinders, spheres, solids with holes; stacked or apart), all combinations of confinement, all orders and heap layouts",
     "Tests build a few fixed layouts and check fragment counts only.",
     [N + "networkbuilder.hh", N + "containedentitynetwork.hh", N + "entitynetwork.hh", "frackit/occ/breputilities.hh"],
     [("confinement, fragmentation and index maps", N + "networkbuilder.hh build(), confineAndMapOverlapIndices_")],
     SEEN + "Areas inside domains come from independent numerical integration; tolerance 0.2 percent.")
prop("P16", "Written network files describe exactly the built network",
     "The .brep file contains each fragment of the network once and conforming, and the .geo file's physical groups, as numbered by the mesh generator on import, contain exactly the fragments of each entity, each sub-domain and the intersections of entities, with the given mesh sizes; writing again gives the same files.",
     ["inputs", "histories", "schedules"], "all networks with and without sub-domains, all heap layouts, repeated writes under several names and sizes",
     "Tests write one network and never read the files back.",
     [IO + "gmshwriter.hh", IO + "brepwriter.hh", N + "entitynetwork.hh", N + "containedentitynetwork.hh"],
     [("numbering of physical groups", IO + "gmshwriter.hh"), ("sub-shape maps of the compound", IO + "brepwriter.hh")],
     SEEN + "The mesh generator's import numbering (map order per dimension) is modelled, the mesh generator itself is not available.")
prop("P17", "Writing returns normally only if complete files are on disk",
     "When a write of a network returns normally, complete files are on disk; every disk failure (open, write, full disk, close) is reported as an error; transient conditions (short writes, interrupts) are survived, and a write that failed or ran out of memory can be repeated.",
     ["fault_sequences", "crash_points", "histories"], "all disk failures at every byte and system call, all histories of disturbed and undisturbed writes",
     "Tests never meet a failing disk.",
     [IO + "gmshwriter.hh", IO + "brepwriter.hh"],
     [("file streams", IO + "gmshwriter.hh, " + IO + "brepwriter.hh write()")],
     SEEN + "Real streams and OpenCASCADE output over interposed system calls.")
prop("P18", "Reading a shape file delivers the complete shape or an error",
     "Reading a shape delivers the complete shape stored in the file or raises an error: missing, unreadable, cut-off or foreign files and failing reads never yield a null or different shape.",
     ["fault_sequences", "inputs", "crash_points"], "all disk failures at every byte, cut-off and foreign files, memory failures",
     "Tests read one intact file.",
     ["frackit/occ/breputilities.hh"], [("readShape()", "frackit/occ/breputilities.hh")],
     SEEN + "Real streams and OpenCASCADE input over interposed system calls; bit flips inside a well-formed file are out of scope (the format has no checksum).")

prop("P19", "The Python samplers keep the guarantees of the library",
     "Points sampled through the Python package lie in and are uniformly distributed over their domain (or follow the given samplers), and its disk, polygon and quadrilateral samplers (also in the deprecated form) deliver convex, planar geometries with the drawn center, orientation and lengths, redraw inadmissible values, give up with an error where documented, pass on failures of samplers unchanged, and keep working afterwards.",
     ["inputs", "fault_sequences", "histories"], "all domains, draws, random numbers, bursts of inadmissible values and failing samplers",
     "The Python tests sample a handful of geometries and check almost nothing.",
     ["python/frackit/sampling/__init__.py", "frackit/python/sampling/*.hh", "frackit/python/geometry/*.hh"],
     [("pure Python samplers", "python/frackit/sampling/__init__.py"), ("bindings of the uniform samplers", "frackit/python/sampling/boxpointsampler.hh, frackit/python/sampling/cylinderpointsampler.hh")],
     SEEN + "CPython is embedded in the simulated process; the random module draws from the simulator.")
prop("P20", "The Python network layer decides, builds and writes like the library",
     "Constraints evaluated in Python on single entities or lists on either side are the conjunction over all pairs; the Python constraints matrix accepts a candidate exactly if all relations defined for its set are fulfilled and rejects inadmissible id pairs without a trace; networks filled, built and written through the Python builders and writer are the conforming networks of what was added.",
     ["inputs", "histories", "fault_sequences"], "all call forms, all histories of relations, evaluations, additions, builds, clears and writes with failing constraints and disks",
     "The Python tests evaluate a few fixed pairs and build one network without looking at it.",
     ["python/frackit/entitynetwork/__init__.py", "python/frackit/io/__init__.py", "frackit/python/entitynetwork/*.hh", "frackit/python/io/gmshwriter.hh", "frackit/python/geometry/brepwrapper.hh"],
     [("list forms and the matrix", "python/frackit/entitynetwork/__init__.py"), ("builder wrappers", "frackit/python/entitynetwork/networkbuilderwrappers.hh")],
     SEEN + "CPython is embedded in the simulated process; same oracles as P09, P11, P13, P15, P16 and P17.")

prop("P21", "Whole generation runs keep every promise end to end",
     "A generation run as in the examples - sample candidates for several sets, filter them by contained area, by the constraints among the entities and with the domain's boundary, accept and count them, export the sets into a builder, build and write - accepts exactly the admissible candidates, counts exactly what it accepted, yields the conforming (contained, confined) network of exactly the accepted entities, depends on nothing but parameters and entropy, and survives failures of single steps.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all generation runs: parameters, domains, entropy, heap layouts, memory failures at any step",
     "No test runs the pipeline; the examples are run once with unpredictable entropy and nothing about their result is checked.",
     ["appl/example3/example3.cc", S + "multigeometrysampler.hh", S + "status.hh", N + "constraintsmatrix.hh", N + "multigeometryentityset.hh", N + "networkbuilder.hh", "frackit/magnitude/containedmagnitude.hh", IO + "gmshwriter.hh"],
     [("generation loop", "appl/example1/example1.cc, appl/example2/example2.cc, appl/example3/example3.cc")],
     SEEN + "Everything but the user's loop, entropy and memory is real; borderline decisions are not judged, entities in special position are filtered out by the loop.")

prop("P22", "Generation loops written in Python keep every promise end to end",
     "A generation script as the Python examples - domain from a shape file or a primitive, samplers fed by functions of the script, filtering by contained area, by constraints among the sets and with the domain's boundary, counting, filling a builder, building, writing - accepts exactly the admissible candidates, counts exactly what it accepted, yields the conforming (contained, confined) network and the files of exactly the accepted entities, repeats itself bit by bit for a seed of the random module, and goes on after failing samplers, failing builds and a failing disk.",
     ["inputs", "histories", "fault_sequences"], "all scripts of this form: parameters, domains, seeds, heap layouts, failures of samplers, memory and disk at any step",
     "The Python examples are run with unpredictable seeds and nothing about their result is checked.",
     ["appl/example1/example1.py", "appl/example3/example3.py", "python/frackit/sampling/__init__.py", "python/frackit/entitynetwork/__init__.py", "frackit/python/sampling/*.hh", "frackit/python/entitynetwork/*.hh", "frackit/python/occutilities/*.hh", "frackit/python/geometry/*.hh"],
     [("generation script", "appl/example3/example3.py")],
     SEEN + "CPython, the compiled bindings and the library are real; memory failures are confined to the library's build() because pybind11 itself does not survive them.")
prop("P23", "Shapes handled and stored from Python keep their content",
     "Shapes obtained in Python by wrapping geometries, boolean operations, translations, taking sub-shapes, collecting compounds and reading files have exactly the content they should (volume, area, extent, solids, sub-shapes), stay unchanged whatever is done with other shapes, and a shape that was written without an error is read back identical, while every failure of the disk is reported.",
     ["inputs", "histories", "fault_sequences"], "all histories of operations on a pool of shapes, all disk faults at any byte or system call",
     "The Python tests intersect and write single shapes without looking at the result.",
     ["frackit/python/occutilities/*.hh", "frackit/python/geometry/brepwrapper.hh", "frackit/occ/breputilities.hh", "python/frackit/occutilities/__init__.py"],
     [("wrappers of shape functions", "frackit/python/occutilities/breputilities.hh")],
     SEEN + "CPython is embedded in the simulated process; arguments are in general position; OpenCASCADE is real.")
prop("P24", "Constraints hold against curved surfaces and face shapes alike",
     "Candidates decided against the lateral surface of a cylindrical domain, against sets of planar and curved face shapes (domain boundaries) or accepted entities given as face shapes are accepted exactly if all constraints active at that moment are fulfilled - distance, intersection angle, size and boundary distance of the intersection curves, equi-dimensional intersections - whatever the argument order and form.",
     ["inputs", "histories", "fault_sequences"], "all accept/reject histories, constraint changes, surfaces, forms and orders of arguments, allocation failures",
     "Tests evaluate a handful of fixed placements.",
     ["frackit/entitynetwork/constraints.hh", "frackit/entitynetwork/constraints_impl/*.hh", "frackit/intersection/algorithms/algo_cylsurface_planargeom.hh", "frackit/intersection/algorithms/algo_face_face_3d.hh", "frackit/intersection/intersectionangle.hh", "frackit/intersection/emptyintersection.hh", "frackit/distance/distance.hh", "frackit/distance/distancetoboundary.hh", "frackit/magnitude/length.hh"],
     [("evaluation of constraints", "frackit/entitynetwork/constraints.hh")],
     SEEN + "Placements too close to a decision limit are not judged; distances of closed curves to polygon edges are documented as not implemented.")
prop("P25", "Networks of line entities are conforming decompositions",
     "A built network of one-dimensional entities, crossing or joined, with or without planar or solid sub-domains, consists of edges that together are exactly the parts of the entities in the regions they are confined to, carry the index of their entity and the id of their set, share vertices where entities meet, and are embedded in the fragments of the sub-domains, which keep their measure; contained lengths are those of the parts inside; failed additions and builds leave the builder usable, and writers refuse what they do not support.",
     ["inputs", "histories", "fault_sequences"], "all line networks, orders of insertion, confinement settings, allocation failures, repeated builds",
     "The tests build planar networks in solids, and one two-dimensional network whose content is not checked.",
     ["frackit/entitynetwork/networkbuilder.hh", "frackit/entitynetwork/entitynetwork.hh", "frackit/entitynetwork/containedentitynetwork.hh", "frackit/occ/breputilities.hh", "frackit/io/gmshwriter.hh", "frackit/io/brepwriter.hh", "frackit/magnitude/containedmagnitude.hh"],
     [("network builders", "frackit/entitynetwork/networkbuilder.hh"), ("contained lengths", "frackit/magnitude/containedmagnitude.hh")],
     SEEN + "Line entities keep a distance from degenerate coincidences; OpenCASCADE is real.")
prop("P26", "Point samplers place points exactly where the given distributions say",
     "A point sampler with distributions of the user's own, given directly or through makePointSampler, places every point at the drawn coordinates: (x, y, z) for boxes; for (hollow) cylinders at the root of the drawn squared radius, the drawn angle and height in the frame of the bottom face. The distributions are set up for the extents of the geometry, keep their state from draw to draw, are not shared between samplers or their copies, and their failures surface and leave the sampler usable.",
     ["inputs", "histories", "fault_sequences"], "all domains, all distributions and their draws (also beyond the domain), failures at every draw, all interleavings of samplers and copies",
     "Tests use uniform distributions only.",
     [S + "boxpointsampler.hh", S + "cylinderpointsampler.hh", S + "makepointsampler.hh"],
     [("distributions stored and drawn from", S + "boxpointsampler.hh, " + S + "cylinderpointsampler.hh"), ("intervals of the distributions", S + "makepointsampler.hh")],
     SEEN + "All three distributions are stateful stand-ins decided by the simulator; every point is recomputed from the recorded draws.")

PURE = "A pure function of its arguments: no schedule, time, I/O, randomness, state or multi-party behaviour for it to depend on, so there is nothing for a simulator to control; input generation alone would be another technique. It is exercised where histories depend on it: "
prop("P30", "Intersections of geometries are correct",
     "The intersection of two geometries is exactly the set of points they share, as points, segments, arcs, edges or faces, and does not depend on the argument order.",
     ["inputs"], "all pairs of geometries", "Tests compare fixed placements.", ["frackit/intersection/intersect.hh", "frackit/intersection/algorithms/*.hh"], [("algorithms", "frackit/intersection/algorithms")],
     na=PURE + "P09, P10, P11 (constraints), P13 to P16 (fragmentation).")
prop("P31", "Distances and angles between geometries are correct",
     "Distances between geometries, distances to boundaries and intersection angles equal their mathematical definition up to rounding.",
     ["inputs"], "all pairs of geometries", "Tests compare fixed placements.", ["frackit/distance/*.hh", "frackit/intersection/intersectionangle.hh"], [("computeDistance", "frackit/distance/distance.hh")],
     na=PURE + "P09, P10, P20.")
prop("P32", "Geometry primitives and vector arithmetic are correct",
     "Containment, projections, corners, bounding boxes, bases, rotations and conversions to and from OpenCASCADE of the geometry classes equal their mathematical definition up to rounding.",
     ["inputs"], "all geometries", "Tests compare fixed instances.", ["frackit/geometry/*.hh", "frackit/common/math.hh", "frackit/occ/*.hh"], [("geometry classes", "frackit/geometry")],
     na=PURE + "P01 to P04, P13 to P16, P18, P19.")
prop("P33", "Magnitudes are correct",
     "Lengths, areas and volumes of geometries and shapes, also of the part contained in a domain, equal their mathematical definition up to discretization error.",
     ["inputs"], "all geometries and domains", "Tests compare fixed instances.", ["frackit/magnitude/*.hh"], [("computeMagnitude, computeContainedMagnitude", "frackit/magnitude")],
     na=PURE + "P09 (intersection lengths).")



open(os.path.join(HERE, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck",
     "hooks": {"guard": "none", "enable": "no hooks were added to /repo: every seam is a library boundary (std::random_device, operator new/malloc, file system calls) or a template/interface parameter of frackit, interposed at link time by the simulator in /verif/sim", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "technique": TECH, "level": "exploration", "level_note": n} for i, n in CLAIMED],
     "not_applicable": NA}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
