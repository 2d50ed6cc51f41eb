"""Writes properties.jsonl (kept in one readable place, one entry per property)."""
import json, os

GEN = "SeismicMesh/generation/mesh_generator.py"
GUT = "SeismicMesh/generation/utils.py"
MIG = "SeismicMesh/migration/migration.py"
CPP = "SeismicMesh/migration/cpp/cpputils.cpp"
BLK = "SeismicMesh/decomp/blocker.py"
SIZ = "SeismicMesh/sizing/mesh_size_function.py"
SFN = "SeismicMesh/sizing/size_function.py"
GEO = "SeismicMesh/geometry/utils.py"
SDF = "SeismicMesh/geometry/signed_distance_functions.py"
FGE = "SeismicMesh/geometry/cpp/fast_geometry.cpp"
DC2 = "SeismicMesh/generation/cpp/delaunay_class.cpp"
DC3 = "SeismicMesh/generation/cpp/delaunay_class3.cpp"
FHJ = "SeismicMesh/sizing/cpp/FastHJ.cpp"

SERIAL = "four tests run two ranks on real MPI, with one mesh, one axis and whatever schedule happens, and compare a total area or volume; "

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Parallel mesh generation finishes on every rank",
     "When all ranks of a communicator call generate_mesh with the same arguments, every rank's call returns, whatever the message "
     "timing MPI permits (delays, slow ranks, sends that buffer or that wait for their receiver), for every number of ranks, axis, "
     "domain, sizing, initial point set and option that the ranks have vertices for; no rank is left waiting for a message that never comes.",
     ["schedules", "configurations", "inputs"],
     "all schedules MPI permits x 1..6 ranks x axes x domains/sizings/user points/options",
     SERIAL + "a deadlock needs a rank with nothing to send, a rendezvous send or a particular decomposition.",
     [GEN, MIG, GUT, BLK],
     [("ghost exchange with both neighbours each iteration", MIG), ("r0m allreduce, extents bcast", GEN), ("gather on the root", MIG)],
     [("iteration count", "same on all ranks", GEN)], ["generate_mesh"])

prop("C02", "A parallel call leaves no message behind",
     "When all ranks have returned from a call, every message the call sent has been received by that call: a later call on the same "
     "communicator, even one that a fast rank enters while others are still in the previous one, gives the result it gives on its own.",
     ["schedules", "histories"],
     "all sequences of public parallel calls on one communicator x all schedules",
     SERIAL + "stale messages only show in a later call, of another size or kind.",
     [GEN, MIG, SIZ], [("matched send/recv pairs, tags 11..13", MIG)], observe=["generate_mesh", "get_sizing_function_from_segy", "sliver_removal"])

prop("C03", "A parallel mesh does not depend on message timing",
     "For fixed arguments and number of ranks the mesh that rank 0 returns, the ghost vertices a rank receives and a mesh gathered from parts are the same, vertex for vertex and cell for cell, for every "
     "relative speed of the ranks, every order in which messages from different ranks arrive, buffered or synchronous sends, and whatever "
     "the ranks' clocks show.",
     ["schedules"], "all schedules and clock skews/jumps of one parallel job",
     SERIAL + "a single run on real MPI sees one schedule.",
     [GEN, MIG], [("receives name their source; merges in rank order", MIG)], observe=["generate_mesh"])

prop("C04", "Parallel meshing neither loses nor invents vertices",
     "During parallel mesh generation every vertex belongs to the mesh exactly once: with a domain that removes nothing, the mesh gathered "
     "after any number of iterations has exactly as many vertices as the initial point set, and a vertex that the forces do not move is "
     "still at its initial position. The initial points which the ranks create together have every row of the grid exactly once: no two ranks "
     "own (nearly) the same row and no strip between two ranks is left without points.",
     ["schedules", "inputs", "configurations"],
     "all initial point sets x ranks x axes x iteration counts x schedules",
     SERIAL + "losing or doubling vertices changes no area, since the triangulation fills the gap.",
     [GEN, MIG, GEO, FGE], [("delete exactly the inserted ghosts after each iteration", GEN)],
     [("recv_ix", "number of ghosts appended to the local vertices", GEN), ("inv", "vertex permutation of the reduced triangulation", GEO)],
     ["generate_mesh"])

prop("C05", "The parallel triangulation is the serial Delaunay triangulation",
     "With vertices held in place, the triangulation generate_mesh returns on N ranks has exactly the cells of the serial Delaunay "
     "triangulation of the same points, for every cutting axis and number of ranks, provided no Delaunay edge joins blocks that are not neighbours.",
     ["inputs", "configurations", "schedules"],
     "all point sets (uniform, clustered, graded, gridded, 2D and 3D) x ranks x axes x schedules, under the stated adjacency condition",
     SERIAL + "a missing or surplus ghost vertex only changes cells near a cut for some point sets.",
     [GEN, MIG, CPP, GEO, FGE, DC2, DC3],
     [("send vertices of cells whose circumball meets the neighbour's box", CPP), ("drop cells that are external to the rank's box", FGE)],
     observe=["generate_mesh"])

prop("C06", "User-defined points are distributed to exactly one rank each",
     "Initial points supplied by the user are partitioned over the ranks: each point is handed, unmodified, to exactly one rank, ranks hold "
     "consecutive slices along the requested axis, and every rank knows the true extents of every slice.",
     ["inputs", "configurations", "schedules"],
     "all point sets (including coincident coordinates, points on cuts, skewed densities) x ranks x axes x schedules",
     SERIAL + "none passes initial points.",
     [BLK, MIG, GEN], [("blocker", BLK), ("localize_points", MIG)], observe=["decomp.blocker", "migration.localize_points", "generate_mesh"])

prop("C07", "Ghost exchange delivers exactly what each neighbour was sent",
     "In a ghost exchange every rank receives exactly the vertices its lower and upper neighbours addressed to it - each once, coordinates "
     "bit for bit, none addressed to someone else - whatever the number of vertices in each direction, including none, and whatever the "
     "message timing; and every vertex of a cell whose circumcircle (circumsphere) reaches into a neighbour's extents is addressed to that neighbour.",
     ["inputs", "schedules", "configurations"],
     "all export counts per direction x ranks x local triangulations x schedules",
     SERIAL + "a missing or surplus ghost goes unnoticed, and no rank there has two neighbours.",
     [MIG, CPP], [("enqueue", MIG), ("exchange", MIG), ("where_to2/where_to3", CPP)], observe=["migration.enqueue", "migration.exchange"])

prop("C08", "Gathering on the root is the exact union of the ranks' meshes",
     "Collecting the ranks' partial meshes on rank 0 yields every cell of every part, with its own coordinates and no other cell, for any sizes "
     "of the parts including equal ones and ranks left without cells, any number of ranks and any message timing.",
     ["inputs", "schedules", "configurations"], "all partial meshes x ranks x schedules",
     SERIAL + "with two parts most offset errors vanish.",
     [MIG], [("offsets by prefix sum of vertex counts", MIG), ("Reduce of counts", MIG)], observe=["migration.aggregate", "generate_mesh"])

prop("C09", "Every rank meshes with the global mesh sizes",
     "In parallel, the mesh sizes a rank uses in its part of the domain are those of the global sizing function, up to interpolation on a grid of "
     "spacing h0: at any point of the rank's slab the local size lies within the range of global sizes over a neighbourhood of one h0.",
     ["inputs", "configurations", "schedules"], "all sizing functions x query points in each slab x ranks x axes x schedules",
     SERIAL + "no sizes are compared.",
     [MIG, GEN, SIZ, SFN], [("localize_sizing_function", MIG)], observe=["migration.localize_sizing_function", "generate_mesh"])

prop("C10", "A mesh generated in parallel is a valid mesh of the domain",
     "The mesh rank 0 returns from a parallel call is a sound simplicial mesh - finite vertices, all used, none duplicated, positively oriented cells, "
     "no facet in more than two cells, no hole or crack along the cuts between ranks - that covers the domain to within the edge length, has no cell whose center is outside it and follows the borders of its subdomains. This holds for "
     "domains whose slabs are several edge lengths thick, so that no Delaunay edge joins ranks that are not neighbours and no vertex moves past a neighbour's slab.",
     ["schedules", "configurations", "inputs"], "all domains, sizings, options x 2..6 ranks x axes x schedules",
     SERIAL + "overlaps, unused vertices and thin cracks stay within their tolerance.",
     [GEN, MIG, GEO], [("ghosts + removal of external cells + gather + fix_mesh", GEN)], observe=["generate_mesh"])

prop("C11", "Root holds the result; other ranks do no serial work and agree",
     "Called by all ranks of a communicator, sliver_removal, write_velocity_model, plot_sizing_function and get_sizing_function_from_segy give on rank 0 exactly what the "
     "serial call gives and do not touch the file system on other ranks. The three operations without a result for the other ranks (sliver_removal, write_velocity_model, "
     "plot_sizing_function) return there without waiting for anyone; get_sizing_function_from_segy waits for rank 0 alone and leaves all ranks agreeing on the extents and minimum size of the sizing function.",
     ["schedules", "configurations"], "all ranks counts x schedules x workloads of root-only operations",
     SERIAL + "sliver removal, writing and plotting are only tested with one rank.",
     [GEN, SIZ], [("rank guards", GEN), ("bcast of bbox", SIZ)], observe=["sliver_removal", "write_velocity_model", "get_sizing_function_from_segy"])

prop("C12", "A call communicates only within the communicator it was given",
     "A call given a sub-communicator exchanges no message outside it: the groups of a split world can mesh different things at the same time, at any "
     "relative speed, and each gets exactly the mesh it gets when it runs alone.",
     ["schedules", "configurations"], "all splits of 2..6 ranks into groups with independent workloads x schedules",
     "no test passes a communicator other than the world or runs two groups; " + SERIAL + "so a use of the wrong communicator goes unnoticed.",
     [GEN, MIG, SIZ], [("comm argument threaded through every call", GEN)], observe=["generate_mesh(comm=...)"])

prop("C13", "A call's result depends on its arguments alone",
     "generate_mesh, sliver_removal and sizing-function calls return the same result for the same arguments regardless of calls made before (including ones that "
     "failed or were interrupted), of other threads calling at the same time, of the clock, and of the process's random number state, which they leave as they found it.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of earlier, aborted and concurrent calls x thread interleavings x clock jumps x random states",
     "tests make one call after another in one thread with the default seed and never interrupt one.",
     [GEN, SIZ, GEO, DC2, DC3], [("own RandomState(seed)", GEN), ("no module-level mutable state", GEN)], observe=["generate_mesh", "sliver_removal", "get_sizing_function_from_segy"])

prop("C14", "Caller's data is never modified",
     "Arrays and objects passed in - initial points, fixed points, velocity data, bounding boxes, option values, domains and sizing functions - are bit for bit "
     "unchanged after the call, whether it returns, raises, or is interrupted at any point.",
     ["fault_sequences", "inputs", "crash_points"], "all public entry points x inputs x points of failure or interruption",
     "tests never compare inputs afterwards and never interrupt a call.",
     [GEN, SIZ, SDF, GEO, BLK], [("copies before in-place updates", GEN)], observe=["generate_mesh", "sliver_removal", "get_sizing_function_from_segy"])

prop("C15", "A failing user callback surfaces to the caller",
     "If the domain or sizing function raises at any call, the exception reaches the caller of generate_mesh or sliver_removal unchanged and no mesh is returned; "
     "the call can then be repeated with working callbacks and gives the normal result.",
     ["fault_sequences"], "every callback x every call index at which it fails x kind of exception",
     "tests never make a callback fail.",
     [GEN], [("no exception handler around callbacks", GEN)], observe=["generate_mesh", "sliver_removal"])

prop("C16", "A call that fails on one rank fails on all",
     "When a parallel generate_mesh or get_sizing_function_from_segy call cannot be carried out because its arguments are bad, a rank would have no vertices, the iteration diverges, "
     "or the velocity file cannot be read on the rank that reads it, every rank raises; none returns a result and none is left waiting.",
     ["fault_sequences", "schedules", "configurations"], "all documented error conditions and read faults x ranks x schedules",
     SERIAL + "no test makes a parallel call fail.",
     [GEN, SIZ, BLK], [("bcast of the decomposition error", GEN), ("allreduce of vertex counts", GEN), ("checks before the first message", GEN)],
     observe=["generate_mesh", "get_sizing_function_from_segy"])

prop("C17", "Running out of memory is reported, never turned into a wrong mesh",
     "If a memory allocation fails during a call, the call raises (or succeeds with the normal result); it never crashes the process or returns a different mesh, "
     "and a later call works normally (unless the failure was inside CGAL's insertion into a 3D triangulation, after which CGAL's own thread-local workspace stays dirty).",
     ["fault_sequences"], "every allocation made by the compiled extensions during a call",
     "tests never make an allocation fail.",
     [DC2, DC3, CPP, FGE, FHJ, GEN], [("exceptions propagate through the bindings", DC2)], observe=["generate_mesh", "get_sizing_function_from_segy"])

prop("C18", "A velocity model is read completely or the call fails",
     "Reading a velocity model (SEG-Y or binary) either raises or yields exactly the stored values in the documented axis order, under any I/O error, short read, "
     "interrupted call, truncated or oversized file; a sizing function is never built from partial data.",
     ["fault_sequences", "inputs"], "all read faults at each system call x file kinds, byte orders, types, axis orders, truncation lengths",
     "tests read two intact files.",
     [SIZ], [("_read_bin", SIZ), ("_read_segy", SIZ)], observe=["read_velocity_model", "get_sizing_function_from_segy", "write_velocity_model"])

prop("C19", "A velocity model reported as written is on disk in full",
     "If write_velocity_model returns normally, the file contains exactly the velocity values, shape and units; if the disk is full or a write, open or close fails, the call raises. "
     "A failed, interrupted or killed write never alters the source file, and never leaves a file that reads as a model that was not written.",
     ["fault_sequences", "crash_points"], "all write/open/close faults at each system call, short writes, full disk at each size",
     "tests never make a write fail, nor read the file back in full.",
     [SIZ], [("h5py file closed by the with statement", SIZ)], observe=["write_velocity_model"])

NA = []


def na(id, title, statement, files, mech, why_tests, reason):
    prop(id, title, statement, ["inputs"], "all inputs", why_tests, files, [(mech, files[0])])
    NA.append(dict(property=id, reason=reason))


PURE = "pure function of its input: no schedule, clock, I/O, fault or second party for a simulator to control; "
prop("C26", "The triangulation classes stay Delaunay over any history of operations",
     "After any sequence of insertions, moves and removals on DelaunayTriangulation and DelaunayTriangulation3 the vertices are those given (coinciding ones once), the finite cells are a Delaunay triangulation of them - "
     "positively oriented, covering the convex hull, no vertex inside a circumball - and the edges, counts and iterators agree with it (moves in 3D that start or end with all vertices coplanar excepted: CGAL). Triangulations that exist at the same time, also the copies that move and remove return, do not "
     "affect each other, also when an operation on one of them runs out of memory, which is raised.",
     ["histories", "inputs", "fault_sequences"], "all sequences of operations over several triangulations x point sets (coinciding, collinear, cocircular) x refused allocations",
     "tests make one triangulation of a few points each; the meshing loop is the only user of move.",
     [DC2, DC3], [("insert, move, remove", DC2), ("insert, move, remove", DC3)], observe=["DelaunayTriangulation", "DelaunayTriangulation3"])

na("C21", "Mesh sizes stay within the bounds asked for",
   "Sizes of a sizing function built from a velocity model lie between hmin and hmax before gradation limiting, and resolve the requested wavelength and time step.",
   [SIZ], "clamping and CFL", "tests check two models", PURE + "numerical property of array arithmetic")
na("C22", "Gradation is bounded",
   "After limiting with grade g no size exceeds a neighbouring size plus g times their distance, and no size is increased.",
   [FHJ, SIZ], "fast Hamilton-Jacobi limiter", "tests check a checksum", PURE + "numerical property of one C++ routine")
na("C23", "Signed distance functions have the right sign and algebra",
   "Every primitive is negative exactly inside its shape and unions, intersections, differences, rotations, translations and stretches act on the shapes as named.",
   [SDF], "primitives and set operations", "tests sample volumes", PURE + "geometric identity")
na("C24", "Mesh clean-up utilities preserve the mesh",
   "fix_mesh and the boundary and topology helpers keep the set of cells as geometry and return each boundary facet exactly once.",
   [GEO, FGE], "sorting and uniquing", "tests check fixed meshes", PURE + "deterministic array transformation (its use after a parallel gather is covered by C08 and C10)")
na("C25", "Sliver removal reaches the dihedral bound it reports",
   "When sliver_removal reports success no cell has a dihedral angle outside the bounds.",
   [GEN, FGE], "dihedral angles and perturbation", "tests check three meshes", PURE + "convergence property of a serial numerical iteration; its failure handling is covered by C13-C15")
na("C27", "Mesh quality after generation",
   "A 2D mesh generated with defaults has minimum cell quality above the documented value.",
   [GEN, GEO], "force equilibrium and smoothing", "tests check a few meshes", PURE + "convergence of a numerical iteration, and not guaranteed for all inputs")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
