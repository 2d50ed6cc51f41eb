MIG = "SeismicMesh/migration/migration.py"
GEN = "SeismicMesh/generation/mesh_generator.py"
GUT = "SeismicMesh/generation/utils.py"
GEO = "SeismicMesh/geometry/utils.py"
SIZ = "SeismicMesh/sizing/mesh_size_function.py"
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug("exchange-order", "C01",
    "three or more ranks and sends that wait for their receiver (large ghost messages)",
    "the ghost exchange settles with the upper neighbour first and lets only the topmost rank receive first: with synchronous sends a middle rank, "
    "its lower and its upper neighbour wait for each other for ever",
    [(MIG, """    # send points below
    if rank != 0:  # rank 0 can't send below
        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)

    # receive points from above
    if rank != size - 1:
        new_points.append(comm.recv(source=rank + 1, tag=11))

    # send points above
    if rank != (size - 1):  # topmost rank can't send to above
        # all put the topmost rank receive from above
        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)

    # receive points from below
    if rank != 0:
        # all but the bottommost rank receive from below
        new_points.append(comm.recv(source=rank - 1, tag=11))
""", """    if rank == size - 1:
        # the topmost rank receives first so that the others can get rid of theirs
        new_points.append(comm.recv(source=rank - 1, tag=11))
        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
    else:
        # settle with the rank above
        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)
        new_points.append(comm.recv(source=rank + 1, tag=11))
        # then with the rank below
        if rank != 0:
            comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)
            new_points.append(comm.recv(source=rank - 1, tag=11))
""")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

# every send waits until it is received, as MPI allows
rs, w = job(3, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 3.0)), 0.1, comm=c, max_iter=2, verbose=0), sync=True)
p, t = results(rs)[0]
assert len(t) > 100
""")

bug("extents-to-everyone", "C02",
    "three or more ranks and initial points supplied by the user",
    "the root sends the extents to every rank along with each block, but a rank receives them once: with more than two ranks messages stay behind "
    "and a later call on the communicator receives the extents of an earlier one",
    [(MIG, """            comm.send(blocks[local], dest=local, tag=12)
        elif rank == local:
            points = np.reshape(comm.recv(source=0, tag=12), (-1, dim))
        if rank == 0:
            points = blocks[0]
        if rank != 0:
            extents = None
        extents = comm.bcast(extents, 0)
""", """            comm.send(blocks[local], dest=local, tag=12)
            for other in range(1, size):
                comm.send(extents, dest=other, tag=13)
        elif rank == local:
            points = np.reshape(comm.recv(source=0, tag=12), (-1, dim))
            extents = comm.recv(source=0, tag=13)
        if rank == 0:
            points = blocks[0]
""")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

def fn(c):
    out = []
    for s in (1.0, 5.0):
        rs = np.random.RandomState(3)
        pts = s * rs.rand(300, 2) * [1, 3]
        r = 0 == c.rank
        blocks, ext = sm.decomp.blocker(pts, c.rank, c.size, axis=1) if r else (None, None)
        out.append(sm.migration.localize_points(blocks, ext, c, 2))
    return out

rs, w = job(3, fn)
res = results(rs)
assert not w.box, f"{len(w.box)} messages were never received"
for r in res:
    for (p, e), (p0, e0) in zip(r, res[0]):
        assert np.allclose(np.array(e), np.array(e0))
""")

bug("gather-any-source", "C03",
    "three or more ranks, and a higher rank that finishes before a lower one",
    "the root appends the partial meshes in the order in which they arrive: vertices and cells of the gathered mesh come in an order that depends on timing",
    [(MIG, """    for r in np.arange(1, size):
        if rank == r:
            comm.send(points, dest=0, tag=12)
            comm.send(faces, dest=0, tag=13)
        if rank == 0:
            tmp = np.reshape(comm.recv(source=r, tag=12), (off_p[r], dim))
            tmp2 = (
                np.reshape(comm.recv(source=r, tag=13), (off_t[r], dim + 1))
                + csum_p[r - 1]
            )
            gpoints = np.append(gpoints, tmp, axis=0)
            gfaces = np.append(gfaces, tmp2, axis=0)
""", """    for _ in np.arange(1, size):
        if rank == 0:
            # take whatever is there rather than wait for a slow rank
            r, tmp, tmp2 = comm.recv(source=MPI.ANY_SOURCE, tag=12)
            tmp = np.reshape(tmp, (off_p[r], dim))
            tmp2 = np.reshape(tmp2, (off_t[r], dim + 1)) + len(gpoints)
            gpoints = np.append(gpoints, tmp, axis=0)
            gfaces = np.append(gfaces, tmp2, axis=0)
    if rank != 0:
        comm.send((rank, points, faces), dest=0, tag=12)
""")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

def fn(c):
    return sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 4.0)), 0.1, comm=c, max_iter=3, verbose=0)

def agg(c):
    rs = np.random.RandomState(c.rank)
    p = rs.rand(12 + c.rank, 2) + [c.rank, 0]
    from scipy.spatial import Delaunay
    return sm.migration.aggregate(p, Delaunay(p).simplices.astype(int), c, c.size, c.rank, dim=2)

for f in (fn, agg):
    for n in (3, 4):
        ref = results(job(n, f)[0])[0]
        for order in ([3, 2, 1, 0], [0, 2, 1, 3], [2, 3, 0, 1]):
            r = results(job(n, f, order=[x for x in order if x < n])[0])[0]
            assert np.array_equal(r[0], ref[0]) and np.array_equal(r[1], ref[1]), f"{n} ranks, order {order}: another mesh"
""")

bug("on-border-is-out", "C05",
    "a cell all of whose vertices lie on the border of the rank's extents or outside (points on a grid, or rows of equal coordinates)",
    "a vertex exactly on the border of the rank's extents counts as outside, so that cells whose local vertices are all on the border are dropped by every rank",
    [(GEO, "    isOut = np.reshape(signed_distance > 0.0, (-1, (dim + 1)))\n", "    isOut = np.reshape(signed_distance >= 0.0, (-1, (dim + 1)))\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results, cells

g = np.stack(np.meshgrid(np.arange(9.0), np.arange(24.0), indexing="ij"), axis=-1).reshape(-1, 2)
rs = np.random.RandomState(0)
g[:, 0] += 0.05 * rs.rand(len(g))

def fn(c):
    return sm.generate_mesh(lambda x: np.full(len(x), -1e3), 1.0, comm=c, bbox=(0.0, 8.1, 0.0, 23.0), points=g.copy(),
                            max_iter=1, delta_t=0.0, mesh_improvement=False, verbose=0)

p, t = results(job(3, fn)[0])[0]
import collections
e = collections.Counter(tuple(sorted(x)) for c in t.tolist() for x in ((c[0], c[1]), (c[1], c[2]), (c[0], c[2])))
# facets that only one cell has are on the outside
for (a, b), k in e.items():
    if k == 1:
        q = p[[a, b]]
        out = (q[:, 0] < 0.06).all() or (q[:, 0] > 7.99).all() or (q[:, 1] == 0).all() or (q[:, 1] == 23).all()
        assert out, f"hole at {q.tolist()}"
""")

bug("offset-of-previous", "C08",
    "three or more ranks holding parts of different size",
    "the cells of a part are offset by r times the vertex count of the previous part, which is right for two ranks and for parts of equal size only",
    [(MIG, "                + csum_p[r - 1]\n", "                + r * off_p[r - 1]\n")],
    """
import numpy as np
import SeismicMesh as sm
from scipy.spatial import Delaunay
from fakempi import job, results, cells

def part(r):
    p = np.random.RandomState(r).rand(10 + 3 * r, 2) + [r, 0]
    return p, Delaunay(p).simplices.astype(int)

def fn(c):
    return sm.migration.aggregate(*part(c.rank), c, c.size, c.rank, dim=2)

p, t = results(job(4, fn)[0])[0]
assert t.max() < len(p)
assert cells(p, t) == sorted(x for r in range(4) for x in cells(*part(r)))
""")

bug("halo-below-only", "C09",
    "a sizing function that is not linear near the upper cut of a slab",
    "the local sizing grid is not extended above the slab: its last row lies up to one edge length below the cut, and sizes beyond are extrapolated",
    [(MIG, "                tuple(slice(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox)\n",
      "                tuple(slice(min - 3 * h0, max, h0) for min, max in _bbox)\n"),
     (MIG, "            vecs = [np.arange(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox]\n",
      "            vecs = [np.arange(min - 3 * h0, max, h0) for min, max in _bbox]\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

h0 = 0.1
bbox = np.array([[0.0, 1.0], [0.0, 1.77]])

def fh(x):
    y = np.asarray(x[1]) if isinstance(x, tuple) else np.asarray(x)[..., 1]
    return h0 * (1 + 3 * np.maximum(0, 1 - np.abs(y - 0.83) / 0.12))   # a bump just below the cut at 0.885

def fn(c):
    return sm.migration.localize_sizing_function(fh, h0, bbox, 2, 1, c)

l = results(job(2, fn)[0])
q = np.stack([np.full(50, 0.5), np.linspace(0.5, 0.885, 50)], axis=1)
got = l[0](q)
near = np.stack([fh(q + [0, d]) for d in np.linspace(-h0, h0, 21)])
assert (got <= near.max(axis=0) + 1e-9).all() and (got >= near.min(axis=0) - 1e-9).all(), "sizes outside the range of the global ones nearby"
""")

bug("ghosts-any-source", "C03",
    "three or more ranks, and an upper neighbour whose ghosts arrive before those of the lower one or after, by chance",
    "a middle rank takes the ghost messages in the order in which they arrive, so that the order of the vertices it inserts, and with it the mesh, depends on timing",
    [(MIG, """    # receive points from above
    if rank != size - 1:
        new_points.append(comm.recv(source=rank + 1, tag=11))

    # send points above
    if rank != (size - 1):  # topmost rank can't send to above
        # all put the topmost rank receive from above
        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)

    # receive points from below
    if rank != 0:
        # all but the bottommost rank receive from below
        new_points.append(comm.recv(source=rank - 1, tag=11))
""", """    # send points above without waiting
    above = None
    if rank != (size - 1):  # topmost rank can't send to above
        above = comm.isend(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)

    # receive from the neighbors, whichever is first
    for _ in range((rank != 0) + (rank != size - 1)):
        new_points.append(comm.recv(source=MPI.ANY_SOURCE, tag=11))
    if above is not None:
        above.wait()
"""), (MIG, "        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)\n", "        below = comm.isend(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)\n"),
     (MIG, "    return np.concatenate(new_points, axis=0)\n", "    if rank != 0:\n        below.wait()\n    return np.concatenate(new_points, axis=0)\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

def fn(c):
    return sm.generate_mesh(sm.Disk([0.0, 0.0], 1.0), 0.1, comm=c, max_iter=4, verbose=0)

ref = results(job(3, fn)[0])[0]
for order in ([2, 1, 0], [0, 2, 1], [2, 0, 1], [1, 2, 0]):
    r = results(job(3, fn, order=order)[0])[0]
    assert r[0].shape == ref[0].shape and np.array_equal(r[0], ref[0]) and np.array_equal(r[1], ref[1]), f"order {order}: another mesh"
""")

bug("r0m-over-the-world", "C12",
    "a communicator other than the world is passed",
    "the smallest mesh size is agreed on over the world instead of the communicator given: groups of a split world disturb each other, or wait for ranks that make no call",
    [(GEN, "        r0m = comm.allreduce(r0m, op=MPI.MIN)\n", "        r0m = MPI.COMM_WORLD.allreduce(r0m, op=MPI.MIN)\n")],
    """
from mpi4py import MPI
import numpy as np
import threading
from fakempi import job, results, Comm

tls = threading.local()

class World:
    def __getattr__(self, n):
        return getattr(tls.world, n)

MPI.COMM_WORLD = World()
import SeismicMesh as sm

def fn(c):
    tls.world = c
    group = [0, 1] if c.me < 2 else [2, 3]
    sub = Comm(c.w, c.me, group, cid=str(group))
    h = 0.1 if c.me < 2 else 0.05
    f = lambda x: h * (1 + np.abs(np.asarray(x)[..., 1] - 0.3 * (c.me >= 2)))
    return sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 2.0)), f, h0=h, comm=sub, max_iter=2, verbose=0)

def alone(h, off):
    def g(c):
        tls.world = c
        f = lambda x: h * (1 + np.abs(np.asarray(x)[..., 1] - off))
        return sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 2.0)), f, h0=h, comm=c, max_iter=2, verbose=0)
    return results(job(2, g)[0])[0]

r = results(job(4, fn)[0])
for k, a in ((0, alone(0.1, 0.0)), (2, alone(0.05, 0.3))):
    assert r[k][0].shape == a[0].shape and np.array_equal(r[k][0], a[0]), f"group of rank {k} gets another mesh than alone"
""")

bug("ghosts-in-single-precision", "C07",
    "three or more ranks, ghost vertices whose coordinates are not representable in single precision",
    "ghosts from a rank between two others are sent in single precision to halve the messages: a neighbour inserts vertices that differ from the real ones by one part in 1e7, and cells along a cut get vertices of their own",
    [(MIG, "        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)\n", "        below = exports[1 : NSB + 1, 0:dim]\n        if rank < size - 1:\n            # ranks with two neighbors have the most to send\n            below = below.astype(np.float32)\n        comm.send(below, dest=rank - 1, tag=11)\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

rs = np.random.RandomState(1)
tabs = []
for r in range(3):
    below, above = rs.rand(5, 2), rs.rand(4, 2)
    e = np.zeros((10, 3))
    e[0, 0], e[0, 1] = 5, 4
    e[1:6, :2], e[6:10, :2] = below, above
    tabs.append((e, below, above))
got = results(job(3, lambda c: sm.migration.exchange(c, c.rank, c.size, tabs[c.rank][0], dim=2))[0])
for r in range(3):
    want = ([tabs[r + 1][1]] if r < 2 else []) + ([tabs[r - 1][2]] if r else [])
    want = sorted(map(tuple, np.concatenate(want).tolist()))
    assert sorted(map(tuple, np.asarray(got[r]).tolist())) == want, f"rank {r} did not receive what was sent"
""")

bug("coincident-points-dropped", "C06",
    "a set of user-defined points in which two points coincide",
    "a rank drops repeated points of the block it receives, the root does not: the points are no longer distributed as supplied",
    [(MIG, "            points = np.reshape(comm.recv(source=0, tag=12), (-1, dim))\n", "            points = np.unique(np.reshape(comm.recv(source=0, tag=12), (-1, dim)), axis=0)\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

rs = np.random.RandomState(3)
pts = rs.rand(200, 2) * [1, 3]
pts[150:] = pts[:50]

def fn(c):
    blocks, ext = sm.decomp.blocker(pts.copy(), c.rank, c.size, axis=1) if c.rank == 0 else (None, None)
    return sm.migration.localize_points(blocks, ext, c, 2)[0]

got = np.concatenate([np.asarray(x) for x in results(job(3, fn)[0])])
assert sorted(map(tuple, got.tolist())) == sorted(map(tuple, pts.tolist())), f"{len(pts)} points supplied, {len(got)} distributed"
""")

bug("options-remembered", "C13",
    "two calls of sliver_removal in a process, the first with an option the second leaves to its default",
    "the default options are a module-level dictionary that each call updates: an option given to one call becomes the default of the following ones",
    [(GEN, '''    sliver_opts = {
        "verbose": 1,
        "max_iter": 50,
        "perform_checks": False,
        "axis": 1,
        "min_dh_angle_bound": 10.0,
        "max_dh_angle_bound": 180.0,
        "points": None,
        "delta_t": 0.30,
        "geps_mult": 0.1,
        "subdomains": [],
        "gamma": 1.0,
        "preserve": False,
    }
''', "    sliver_opts = _SLIVER_DEFAULTS\n"),
     (GEN, '''def _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound):
    """calculate the minimum dihedral angle in mesh"""
''', '''_SLIVER_DEFAULTS = {
    "verbose": 1,
    "max_iter": 50,
    "perform_checks": False,
    "axis": 1,
    "min_dh_angle_bound": 10.0,
    "max_dh_angle_bound": 180.0,
    "points": None,
    "delta_t": 0.30,
    "geps_mult": 0.1,
    "subdomains": [],
    "gamma": 1.0,
    "preserve": False,
}


def _calc_dihedral_angles(p, t, min_dh_bound, max_dh_bound):
    """Calculate the minimum dihedral angle in mesh"""
''')],
    """
import numpy as np
import SeismicMesh as sm

dom = sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0))
p = np.random.RandomState(3).rand(80, 3)
a = sm.sliver_removal(p, dom, 0.3, max_iter=3, verbose=0)
sm.sliver_removal(p, dom, 0.3, max_iter=3, verbose=0, preserve=True, gamma=0.8)
b = sm.sliver_removal(p, dom, 0.3, max_iter=3, verbose=0)
assert a[0].shape == b[0].shape and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
""")

bug("force-buffer", "C13",
    "two threads that mesh at the same time with the same number of vertices, one of which computes forces between another's computing and using its own",
    "the array of forces is kept and reused from iteration to iteration by the module, not by the call: threads overwrite each other's forces",
    [(GUT, "    return spsparse.coo_matrix((S, (II, J)), shape, dtype).toarray()\n", '''    # the same shape is asked for in every iteration
    out = _DENSE.get(shape)
    if out is None:
        _DENSE.clear()
        out = _DENSE[shape] = np.empty(shape)
    return spsparse.coo_matrix((S, (II, J)), shape, dtype).toarray(out=out)
'''), (GUT, "def dense(Ix, J, S, shape=None, dtype=None):\n", "_DENSE = {}\n\n\ndef dense(Ix, J, S, shape=None, dtype=None):\n")],
    """
import threading
import numpy as np
import SeismicMesh as sm

pts = np.random.RandomState(0).rand(60, 2)

def mesh(fh):
    return sm.generate_mesh(lambda x: np.full(len(x), -1.0), fh, h0=0.1, bbox=(0.0, 1.0, 0.0, 1.0), points=pts.copy(), max_iter=4, delta_t=0.05, verbose=0)

a = lambda x: 0.1 * (1 + np.asarray(x)[..., 0])
b = lambda x: 0.1 * (2 - np.asarray(x)[..., 0])
want = mesh(a)
# another call runs while this one is between computing and using its forces
import SeismicMesh.generation.mesh_generator as g
real = g._compute_forces
inner = [False]

def forces(*args):
    f = real(*args)
    if threading.current_thread() is threading.main_thread():
        t = threading.Thread(target=mesh, args=(b,))
        t.start()
        t.join()
    return f

g._compute_forces = forces
got = mesh(a)
assert got[0].shape == want[0].shape and np.array_equal(got[0], want[0]) and np.array_equal(got[1], want[1]), "disturbed by another thread"
""")

bug("subdomains-in-place", "C14",
    "the subdomains option, and a caller who looks at the list again or passes it to another call",
    "the list of subdomains supplied by the caller is turned into the list of level sets in place",
    [(GEN, '''    levels = [fd]
    if gen_opts["subdomains"] is not None:
        for subdomains in gen_opts["subdomains"]:
            fd_subdomains, _, _ = _unpack_domain(subdomains, gen_opts)
            levels.append(fd_subdomains)
''', '''    levels = [] if gen_opts["subdomains"] is None else gen_opts["subdomains"]
    for i, subdomain in enumerate(levels):
        levels[i], _, _ = _unpack_domain(subdomain, gen_opts)
    levels.insert(0, fd)
''')],
    """
import numpy as np
import SeismicMesh as sm

sub = [sm.Disk([0.5, 0.5], 0.25)]
keep = list(sub)
sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 1.0)), 0.1, max_iter=3, verbose=0, subdomains=sub)
assert len(sub) == 1 and sub[0] is keep[0], "the caller's list changed"
""")

bug("best-effort-projection", "C15",
    "a domain function that raises while the boundary of the finished mesh is improved, after it worked in all iterations before",
    "an error of the domain function in the last step is swallowed: a mesh whose boundary was not improved is returned as if nothing had happened",
    [(GEN, '''    for iteration in range(5):
        d = fd(p[bid])

''', '''    for iteration in range(5):
        try:
            d = fd(p[bid])
        except Exception:  # an improvement only, keep what there is
            break

''')],
    """
import numpy as np
import SeismicMesh as sm

class Broken(Exception):
    pass

def calls(stop):
    n = [0]
    dom = sm.Disk([0.0, 0.0], 1.0)

    def fd(x):
        n[0] += 1
        if n[0] == stop:
            raise Broken()
        return dom.eval(x)
    try:
        sm.generate_mesh(fd, 0.3, bbox=(-1.0, 1.0, -1.0, 1.0), max_iter=2, verbose=0)
    except Broken:
        return -1
    return n[0]

total = calls(0)
for k in range(1, total + 1):
    assert calls(k) == -1, f"the exception at call {k} of {total} did not surface"
""")

bug("bad-h0-on-root-only", "C16",
    "a negative h0 (or edge length) in a parallel call",
    "only the root checks h0: it raises while the other ranks go on and wait for it",
    [(GEN, '''    # these parameters originate from the original DistMesh
''', '''    # parameters of the original DistMesh
'''), (GEN, '''    bbox = np.array(bbox).reshape(-1, 2)

    if hmin is not None:
        h0 = hmin
    else:
        h0 = gen_opts["h0"]

    # check h0
    if h0 < 0:
''', '''    bbox = np.array(bbox).reshape(-1, 2)

    if hmin is not None:
        h0 = hmin
    else:
        h0 = gen_opts["h0"]

    # check h0, one message is enough
    if comm.rank == 0 and h0 < 0:
''')],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job

fh = lambda x: np.full(len(x), 0.1)
rs, w = job(2, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 3.0)), fh, h0=-0.1, points=np.random.RandomState(0).rand(60, 2) * [1, 3], comm=c, max_iter=2, verbose=0))
assert all(r[0] == "raised" and isinstance(r[1], ValueError) for r in rs), rs
""")

bug("partial-active-set", "C17",
    "an allocation that fails while the list of active nodes of the gradation limiter grows",
    "when the list of active nodes cannot grow, the limiter goes on with those it has: the rest is never looked at again and the sizes keep steep gradients",
    [("SeismicMesh/sizing/cpp/FastHJ.cpp", '''  std::vector<int> B;
  for (std::size_t i = 0; i < A.size(); i++) {
    if (A[i] == value) {
      B.push_back(i);
    }
  }
  return B;
''', '''  std::vector<int> B;
  try {
    for (std::size_t i = 0; i < A.size(); i++) {
      if (A[i] == value) {
        B.push_back(i);
      }
    }
  } catch (const std::bad_alloc &) {
    // large model: go on with the nodes found so far
  }
  return B;
''')],
    """
import os
import resource
import sys
import numpy as np
from _FastHJ import limgrad

n = 1200
f = np.full((n, n), 1000.0)
f[-1, -1] = 1.0
f = f.flatten("F")
want = limgrad([n, n, 1], 1.0, 0.5, 10000, f)

def used():
    with open("/proc/self/statm") as s:
        return int(s.read().split()[0]) * 4096

bad = 0
for extra in range(4, 130, 3):
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            lim = used() + extra * 1000000
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            try:
                got = limgrad([n, n, 1], 1.0, 0.5, 10000, f)
                resource.setrlimit(resource.RLIMIT_AS, (lim, -1)) if False else None
                code = 0 if all(np.array_equal(got[i::16], want[i::16]) for i in range(16)) else 1
            except MemoryError:
                code = 2
        finally:
            os._exit(code)
    c = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(c) and os.WEXITSTATUS(c) == 1:
        bad += 1
assert not bad, f"{bad} of the runs returned sizes that are not limited"
""")

bug("reads-on-every-rank", "C11",
    "write_velocity_model called by all ranks of a parallel run, where only the root can see the file",
    "every rank reads the velocity model, only the root writes it: ranks on nodes without the file fail, the others read it for nothing",
    [(SIZ, '''    opts.update(kwargs)
    if comm.rank == 0:

        if ofname is None:
            warnings.warn("No output filename specified, name will be `filename`")
            ofname = filename

        vp, nz, nx, ny = read_velocity_model(
            filename=filename,
            nz=opts["nz"],
            nx=opts["nx"],
            ny=opts["ny"],
            byte_order=opts["byte_order"],
            axes_order=opts["axes_order"],
            axes_order_sort=opts["axes_order_sort"],
            dtype=opts["dtype"],
        )

''', '''    opts.update(kwargs)

    if ofname is None:
        warnings.warn("No output filename specified, name will be `filename`")
        ofname = filename

    vp, nz, nx, ny = read_velocity_model(
        filename=filename,
        nz=opts["nz"],
        nx=opts["nx"],
        ny=opts["ny"],
        byte_order=opts["byte_order"],
        axes_order=opts["axes_order"],
        axes_order_sort=opts["axes_order_sort"],
        dtype=opts["dtype"],
    )

    if comm.rank == 0:
''')],
    """
import os
import tempfile
import numpy as np
import SeismicMesh as sm
from fakempi import Comm, World

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "v.bin")
    np.arange(24, dtype="<f4").tofile(f)
    kw = dict(nz=4, nx=3, ny=2, byte_order="little")
    w = World(2)
    sm.write_velocity_model(f, os.path.join(d, "o"), comm=Comm(w, 0), **kw)
    assert os.path.exists(os.path.join(d, "o.hdf5"))
    os.unlink(f)
    # this rank's node does not have the file
    sm.write_velocity_model(f, os.path.join(d, "o"), comm=Comm(w, 1), **kw)
""")

bug("agree-only-if-larger", "C01",
    "a callable sizing function whose minimum over a rank's own points is h0 on one rank and larger on another",
    "a rank whose smallest size is h0 already does not take part in the agreement on the smallest size: the others wait for it",
    [(GEN, '''    # Make sure decimation occurs uniformly accross ranks
    if comm.size > 1:
''', '''    # Make sure decimation occurs uniformly accross ranks
    # (a callable size is nowhere less than h0)
    if comm.size > 1 and (lsf or r0m > h0):
''')],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

fh = lambda x: 0.1 * (1 + 0.3 * np.maximum(0.0, np.asarray(x)[..., 1] - 1.0))
rs, w = job(2, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 3.0)), fh, h0=0.1, comm=c, max_iter=2, verbose=0))
p, t = results(rs)[0]
assert len(t) > 50
""")

bug("row-twice", "C04",
    "two or more ranks, no initial points supplied, and a row of the initial grid exactly on a cut",
    "every rank cuts its rows out of one grid but both neighbours keep a row that lies on the cut between them",
    [(GUT, "    points = create_staggered_grid(h0, dim, _bbox)\n    return points\n",
      "    points = create_staggered_grid(h0, dim, np.asarray(bbox))\n    keep = points[:, axis] >= np.linspace(bbox[axis, 0], bbox[axis, 1], size + 1)[rank]\n"
      "    if rank < size - 1:\n        keep &= points[:, axis] <= np.linspace(bbox[axis, 0], bbox[axis, 1], size + 1)[rank + 1]\n    return points[keep]\n")],
    """
import numpy as np
from SeismicMesh.generation.utils import make_init_points

for dim in (2, 3):
    for n in (2, 3, 4):
        bbox = np.array([[0.0, 1.0], [0.0, 0.5 * n], [0.0, 1.0]][:dim])
        p = np.concatenate([make_init_points(bbox, r, n, 1, 0.125, dim) for r in range(n)])
        q = np.unique(np.round(p, 9), axis=0)
        assert len(q) == len(p), f"{len(p) - len(q)} of {len(p)} initial points occur twice"
""")

bug("offsets-16-bit", "C08",
    "parts of the mesh with more than 32767 vertices or cells",
    "the sizes of the parts are exchanged as 16-bit integers: larger parts are cut or their cells point at wrong vertices",
    [(MIG, "    off_p = np.zeros((size), dtype=int)\n    off_t = np.zeros((size), dtype=int)\n", "    off_p = np.zeros((size), dtype=np.int16)\n    off_t = np.zeros((size), dtype=np.int16)\n"),
     (MIG, "    soff_p = np.zeros((size), dtype=int)\n    soff_t = np.zeros((size), dtype=int)\n\n    soff_p[rank] = len(points)\n    soff_t[rank] = len(faces)\n",
      "    soff_p = np.zeros((size), dtype=np.int16)\n    soff_t = np.zeros((size), dtype=np.int16)\n\n    soff_p[rank] = np.int64(len(points)).astype(np.int16)\n    soff_t[rank] = np.int64(len(faces)).astype(np.int16)\n")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results, cells

def part(r):
    n = 200
    g = np.stack(np.meshgrid(np.arange(n + 0.0), np.arange(n + 0.0), indexing="ij"), axis=-1).reshape(-1, 2) + [r * n, 0]
    i = np.arange(n * n).reshape(n, n)
    t = np.concatenate([np.stack([i[:-1, :-1], i[1:, :-1], i[1:, 1:]], axis=-1).reshape(-1, 3), np.stack([i[:-1, :-1], i[1:, 1:], i[:-1, 1:]], axis=-1).reshape(-1, 3)])
    return g, t

def fn(c):
    return sm.migration.aggregate(*part(c.rank), c, c.size, c.rank, dim=2)

p, t = results(job(2, fn)[0])[0]
assert t.max() < len(p) and cells(p, t) == sorted(cells(*part(0)) + cells(*part(1)))
""")

bug("time-limit", "C03",
    "a rank whose clock jumps forward by an hour during an iteration",
    "an iteration that seems to take over an hour is made the last, on the rank whose clock says so",
    [(GEN, '''        # Number of iterations reached, stop.
        if count == (max_iter - 1):
            if comm.rank == 0:
''', '''        # Number of iterations reached or out of time, stop.
        if count == (max_iter - 1) or time.time() - start > 3600:
            if comm.rank == 0:
''')],
    """
import time
import numpy as np
import SeismicMesh as sm
import SeismicMesh.generation.mesh_generator as g

dom = sm.Rectangle((0.0, 1.0, 0.0, 1.0))
a = sm.generate_mesh(dom, 0.1, max_iter=5, verbose=0)

class Clock:
    now = 1e9

    def time(self):
        Clock.now += 86400.0
        return Clock.now

g.time = Clock()
b = sm.generate_mesh(dom, 0.1, max_iter=5, verbose=0)
assert a[0].shape == b[0].shape and np.array_equal(a[0], b[0]), "the mesh depends on the clock"
""")

bug("skips-unreadable-traces", "C18",
    "a SEG-Y file some of whose traces cannot be read (truncated file, I/O error)",
    "traces that cannot be read are left at zero",
    [(SIZ, '''        for index, trace in enumerate(f.trace):
            vp[:, index] = trace
''', '''        for index in range(nx):
            try:
                vp[:, index] = f.trace[index]
            except (IndexError, OSError):
                warnings.warn("Trace %d is unreadable" % index)
''')],
    """
import builtins
import numpy as np
import segyio
import segyio.trace
import SeismicMesh as sm
import os
import tempfile

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "v.segy")
    v = np.arange(2000, 2000 + 40, dtype=np.float32).reshape(8, 5)
    segyio.tools.from_array2D(f, v)
    ok = sm.read_velocity_model(f)[0]

    real = segyio.trace.Trace.__getitem__

    class Broken:
        pass

    # the disk does not deliver the third trace
    import ctypes
    read0 = segyio.trace.Trace.__getitem__
    readi = segyio.trace.Trace.__iter__

    def item(self, i):
        if i == 3:
            raise OSError(5, "Input/output error")
        return read0(self, i)

    def it(self):
        for k, x in enumerate(readi(self)):
            if k == 3:
                raise OSError(5, "Input/output error")
            yield x

    segyio.trace.Trace.__getitem__ = item
    segyio.trace.Trace.__iter__ = it
    try:
        got = sm.read_velocity_model(f)[0]
    except Exception:
        got = None
    assert got is None or np.array_equal(got, ok), "values are missing and nobody was told"
""")

bug("repeats-short-files", "C18",
    "a binary velocity model that is shorter than the dimensions say (truncated, short read)",
    "the values of a file that is too short are repeated until there are enough of them",
    [(SIZ, "        vp = vp.reshape(*axes, order=axes_order_sort)\n", "        vp = np.resize(vp, nz * nx * ny).reshape(*axes, order=axes_order_sort)\n")],
    """
import os
import tempfile
import numpy as np
import SeismicMesh as sm

with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "v.bin")
    v = np.arange(24, dtype="<f4")
    for n in (24, 20, 12, 23):
        v[:n].tofile(f)
        try:
            got = sm.read_velocity_model(f, 4, 3, 2, "little", (0, 1, 2), "F", "float32")[0]
        except Exception:
            assert n < 24
            continue
        assert n == 24, f"{n} of 24 values are in the file, {got.size} were returned"
""")

bug("up-to-date", "C19",
    "an output file that exists already and is not older than the model, written with other options, from another model, or incompletely",
    "an existing output file that is not older than the velocity model is taken for the result",
    [(SIZ, '''        ofname += ".hdf5"
        print(f"Writing velocity model: {ofname}", flush=True)
''', '''        ofname = ofname + ".hdf5"
        if os.path.exists(ofname) and os.path.getmtime(ofname) >= os.path.getmtime(filename):
            print(f"Velocity model is up to date: {ofname}", flush=True)
            return
        print(f"Writing velocity model: {ofname}", flush=True)
'''), (SIZ, "import warnings\n", "import os\nimport warnings\n")],
    """
import os
import tempfile
import h5py
import numpy as np
import SeismicMesh as sm

with tempfile.TemporaryDirectory() as d:
    f, o = os.path.join(d, "v.bin"), os.path.join(d, "o")
    np.arange(24, dtype="<f4").tofile(f)
    for order in ("C", "F", "C"):
        kw = dict(nz=4, nx=3, ny=2, byte_order="little", axes_order_sort=order)
        sm.write_velocity_model(f, o, **kw)
        want = sm.read_velocity_model(f, 4, 3, 2, "little", (0, 1, 2), order, "float32")[0]
        with h5py.File(o + ".hdf5", "r") as h:
            assert np.array_equal(h["velocity_model"][()], want)
""")

bug("skip-empty-parts", "C02",
    "a rank whose part of the mesh is empty (initial points of the user beyond the domain)",
    "the root doesn't receive the part of a rank that has no cells, although the rank sends it: the messages stay behind for the next call",
    [(MIG, "        if rank == 0:\n            tmp = np.reshape(", "        if rank == 0 and off_t[r] > 0:\n            tmp = np.reshape(")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

pts = np.random.RandomState(0).rand(400, 2) * [1.0, 3.0]
rs, w = job(3, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 0.9)), 0.1, comm=c, max_iter=2, verbose=0, points=pts))
results(rs)
assert not w.box, f"{len(w.box)} messages were never received"
""")

bug("progress-total", "C01",
    "verbose=3 or more",
    "the progress message shows the number of vertices of all ranks, which only the rank that prints it asks for",
    [(GEN, """        if comm.rank == 0:
            print_msg2(
                "Iteration #%d, max movement is %f, there are %d vertices and %d cells"
                % (count + 1, maxdp, len(p), len(t)),
            )
""", """        if comm.rank == 0:
            num_vertices = len(p)
            if gen_opts["verbose"] > 2:
                # of all ranks
                num_vertices = comm.reduce(num_vertices, root=0)
            print_msg2(
                "Iteration #%d, max movement is %f, there are %d vertices and %d cells"
                % (count + 1, maxdp, num_vertices, len(t)),
            )
""")],
    """
import SeismicMesh as sm
from fakempi import job, results

for verbose in (0, 1, 2, 3):
    rs, w = job(2, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 1.0)), 0.1, comm=c, max_iter=4, verbose=verbose))
    assert len(results(rs)[0][1]) > 100
""")

bug("rounded-extents", "C05",
    "a domain of a size of some micrometres",
    "the extents that tell which cells are a rank's own are rounded to a micrometre",
    [(GEO, """            vertices, entities, extent[0], extent[2], extent[1], extent[3]
        )
    elif dim == 3:""", """            vertices, entities, *(round(float(extent[i]), 6) for i in (0, 2, 1, 3))
        )
    elif dim == 3:""")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import cells, job, results

for s in (1.0, 1e-3, *np.linspace(1e-6, 5e-6, 9)):
    pts = np.random.RandomState(1).rand(300, 2) * s
    box = (-s, 2 * s, -s, 2 * s)
    dom = lambda p: np.full(len(p), -1e9)
    kw = dict(bbox=box, max_iter=1, verbose=0, points=pts, mesh_improvement=False)
    p0, t0 = sm.generate_mesh(dom, 0.1 * s, **kw)
    rs, w = job(2, lambda c: sm.generate_mesh(dom, 0.1 * s, comm=c, **kw))
    p, t = results(rs)[0]
    assert cells(p0 / s, t0) == cells(p / s, t), f"{len(t0)} cells in serial, {len(t)} in parallel"
""")

bug("try-pointwise", "C15",
    "a sizing function that raises a TypeError in one of its calls but not in the next",
    "a sizing function that raises a TypeError is taken for one of single points and called again point by point: its error is swallowed",
    [(GEN, """    elif callable(edge_length):
        fh = edge_length
""", """    elif callable(edge_length):

        def fh(x):
            try:
                return edge_length(x)
            except TypeError:
                # it takes one point at a time
                return np.array([edge_length(xi) for xi in x]).ravel()

""")],
    """
import numpy as np
import SeismicMesh as sm

for kind in (ValueError, TypeError):
    for at in (1, 2, 3):
        n = [0]

        def fh(p):
            n[0] += 1
            if n[0] == at:
                raise kind("no sizes today")
            return 0.1 + 0.05 * np.abs(np.reshape(p, (-1, 2))[:, 0])

        try:
            r = sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 1.0)), fh, h0=0.1, max_iter=5, verbose=0)
        except kind as e:
            assert str(e) == "no sizes today"
        else:
            raise AssertionError(f"{kind.__name__} in call {at} is lost, a mesh of {len(r[1])} cells is returned")
""")

bug("unchecked-malloc", "C17",
    "an allocation failure in the gradation limiter",
    "the gradation limiter gets its work space from malloc and does nothing when there is none: sizes without gradation",
    [("SeismicMesh/sizing/cpp/FastHJ.cpp", """  std::vector<int> aset(dims[0] * dims[1] * dims[2], -1);
""", """  int *aset = (int *)std::malloc(sizeof(int) * ffun.size());
  if (aset == NULL)
    return ffun;
  std::fill(aset, aset + ffun.size(), -1);
"""), ("SeismicMesh/sizing/cpp/FastHJ.cpp", """std::vector<int> findIndices(const std::vector<int> &A, const int value) {
  std::vector<int> B;
  for (std::size_t i = 0; i < A.size(); i++) {""", """std::vector<int> findIndices(const int *A, const std::size_t size, const int value) {
  std::vector<int> B;
  for (std::size_t i = 0; i < size; i++) {"""), ("SeismicMesh/sizing/cpp/FastHJ.cpp", "findIndices(aset, iter - 1);", "findIndices(aset, ffun.size(), iter - 1);"),
     ("SeismicMesh/sizing/cpp/FastHJ.cpp", """    // std::cout << "ITER: " << iter << std::endl;
  }
  return ffun_s;""", """    // std::cout << "ITER: " << iter << std::endl;
  }
  std::free(aset);
  return ffun_s;"""), ("SeismicMesh/sizing/cpp/FastHJ.cpp", "#include <cmath>\n", "#include <cmath>\n#include <cstdlib>\n")],
    """
import os
import subprocess
import sys
import tempfile

import numpy as np

N = 4096 * 3 + 7
if len(sys.argv) > 1:
    from _FastHJ import limgrad

    f = np.full(N, 1e4)
    f[::64] = 10.0
    want = np.array(limgrad([N, 1, 1], 1.0, 0.1, 100, f)).ravel()
    os.environ["FAIL"] = "1"
    lib = __import__("ctypes").CDLL(sys.argv[1])
    lib.fail_now()
    try:
        got = np.array(limgrad([N, 1, 1], 1.0, 0.1, 100, f)).ravel()
    except MemoryError:
        sys.exit(0)
    assert np.array_equal(got, want), "out of memory, and sizes without gradation"
    sys.exit(0)

# malloc has nothing to give for the work space
SRC = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
static int on;
void fail_now(void) { on = 1; }
void *malloc(size_t n) {
  static void *(*real)(size_t);
  if (!real) real = dlsym(RTLD_NEXT, "malloc");
  if (on && n == SIZE) return NULL;
  return real(n);
}
'''
with tempfile.TemporaryDirectory() as d:
    with open(d + "/f.c", "w") as f:
        f.write(SRC.replace("SIZE", str(4 * N)))
    subprocess.run(["gcc", "-shared", "-fPIC", "-fno-builtin", "-O1", d + "/f.c", "-o", d + "/f.so", "-ldl"], check=True)
    env = dict(os.environ, LD_PRELOAD=d + "/f.so")
    r = subprocess.run([sys.executable, __file__, d + "/f.so"], env=env)
    assert r.returncode == 0
""")

bug("chunked-exchange", "C07",
    "a rank that sends exactly a multiple of 1000 vertices (but some) to a neighbour",
    "ghost vertices are sent in chunks of 1000, the receiver stops after a chunk that is shorter: a multiple of 1000 never ends",
    [(MIG, """# @profile
def enqueue(""", """CHUNK = 1000


def _send_chunks(comm, a, dest):
    n = max(1, -(-len(a) // CHUNK))
    for i in range(n):
        comm.send(a[i * CHUNK : (i + 1) * CHUNK], dest=dest, tag=11)


def _recv_chunks(comm, source):
    chunks = [comm.recv(source=source, tag=11)]
    while len(chunks[-1]) == CHUNK:
        chunks.append(comm.recv(source=source, tag=11))
    return np.concatenate(chunks, axis=0)


# @profile
def enqueue("""),
     (MIG, "        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)\n", "        _send_chunks(comm, exports[1 : NSB + 1, 0:dim], rank - 1)\n"),
     (MIG, "        new_points.append(comm.recv(source=rank + 1, tag=11))\n", "        new_points.append(_recv_chunks(comm, rank + 1))\n"),
     (MIG, "        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)\n", "        _send_chunks(comm, exports[NSB + 1 : NSB + 1 + NSA, 0:dim], rank + 1)\n"),
     (MIG, "        new_points.append(comm.recv(source=rank - 1, tag=11))\n", "        new_points.append(_recv_chunks(comm, rank - 1))\n")],
    """
import numpy as np
from SeismicMesh import migration
from fakempi import job, results

rng = np.random.RandomState(0)
for below in (0, 1, 64, 999, 1000, 1001, 2000):
    ex = [np.vstack([[[a, b, 0.0]], np.hstack([rng.rand(a + b, 2), np.zeros((a + b, 1))])]) for a, b in ((0, 70), (below, 3), (64, 0))]
    rs, w = job(3, lambda c: migration.exchange(c, c.rank, 3, ex[c.rank], dim=2))
    got = results(rs)
    assert not w.box
    assert np.array_equal(got[0], ex[1][1 : below + 1, :2])
""")

bug("unbuffered-read", "C18",
    "a read of a binary velocity model that gives less than was asked for (a signal, a network file system, more than 2 GB)",
    "the values are read with one read call into an array of zeros, after a look at the size of the file: a short read leaves zeros",
    [(SIZ, """    with open(filename, "r") as file:
        print(f"Reading binary file: {filename}")
""", """    with open(filename, "rb", buffering=0) as file:
        print(f"Reading binary file: {filename}")

        def values(dt):
            if os.fstat(file.fileno()).st_size != (count - 1) * dt.itemsize:
                raise ValueError(f"{filename} does not hold {count - 1} values")
            vp = np.zeros(count - 1, dtype=dt)
            file.readinto(vp.view(np.uint8))
            return vp

"""), (SIZ, """            vp = np.fromfile(
                file, dtype=np.dtype(dtype).newbyteorder(">"), count=count
            )
""", """            vp = values(np.dtype(dtype).newbyteorder(">"))
"""), (SIZ, """            vp = np.fromfile(
                file, dtype=np.dtype(dtype).newbyteorder("<"), count=count
            )
""", """            vp = values(np.dtype(dtype).newbyteorder("<"))
"""), (SIZ, "import warnings\n", "import os\nimport warnings\n")],
    """
import builtins
import io
import os
import tempfile
import numpy as np
import SeismicMesh as sm


class Short(io.FileIO):
    # reads at most 40 bytes at once, as a system call may
    def readinto(self, b):
        return super().readinto(memoryview(b)[:40])

    def read(self, n=-1):
        return super().read(min(n, 40) if n >= 0 else 40)


real = builtins.open


def short(file, mode="r", buffering=-1, *a, **k):
    if "b" in mode and str(file).endswith("v.bin"):
        f = Short(file, mode.replace("b", ""))
        return f if buffering == 0 else io.BufferedReader(f)
    return real(file, mode, buffering, *a, **k)


with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "v.bin")
    v = np.arange(1.0, 25.0, dtype="<f4")
    v.tofile(f)
    builtins.open = short
    try:
        got = sm.read_velocity_model(f, 4, 3, 2, "little", (0, 1, 2), "F", "float32")[0]
    except Exception:
        got = None
    finally:
        builtins.open = real
    assert got is None or set(got.ravel()) == set(v), "values are missing and nobody was told"
""")

bug("keeps-suffix", "C19",
    "a binary velocity model whose own name ends in .hdf5 and no output name, or an output name that is the model's",
    "the suffix isn't appended to a name that has it already: without an output name the model itself is overwritten",
    [(SIZ, """        ofname += ".hdf5"
        print(f"Writing""", """        if not ofname.endswith(".hdf5"):
            ofname += ".hdf5"
        print(f"Writing""")],
    """
import os
import tempfile
import warnings
import numpy as np
import SeismicMesh as sm

warnings.simplefilter("ignore")
with tempfile.TemporaryDirectory() as d:
    for name in ("v.bin", "v.hdf5"):
        f = os.path.join(d, name)
        np.arange(24, dtype="<f4").tofile(f)
        before = open(f, "rb").read()
        sm.write_velocity_model(f, nz=4, nx=3, ny=2, byte_order="little")
        assert open(f, "rb").read() == before, "the velocity model itself was overwritten"
""")

bug("coarse-when-large", "C09",
    "a rank whose part of the domain has more than 20000 mesh sizes",
    "the grid on which mesh sizes are handed to a rank is coarsened when it has many points: narrow features of the sizing function get lost",
    [(MIG, """            grid = np.mgrid[
                tuple(slice(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox)
            ].astype(float)
""", """            # large grids are thinned out
            num = np.prod((_bbox[:, 1] - _bbox[:, 0]) / h0 + 6)
            step = h0 * np.ceil((num / 20000) ** (1.0 / dim))
            grid = np.mgrid[
                tuple(slice(min - 3 * h0, max + 3 * h0, step) for min, max in _bbox)
            ].astype(float)
"""), (MIG, "            vecs = [np.arange(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox]\n",
      "            vecs = [np.arange(min - 3 * h0, max + 3 * h0, step) for min, max in _bbox]\n")],
    """
import numpy as np
from SeismicMesh import migration
from fakempi import job, results

for width in (1.0, 30.0):
    bbox = np.array([[0.0, 1.0], [0.0, width]])
    h0 = 0.02

    def fh(x):
        x = x if isinstance(x, tuple) else tuple(np.asarray(x).T)
        return np.where(np.abs(x[0] - 0.53) < 1.2 * h0, h0, 10 * h0)

    rs, w = job(2, lambda c: migration.localize_sizing_function(fh, h0, bbox.copy(), 2, 1, c))
    for f in results(rs):
        q = np.column_stack([np.full(500, 0.53), np.linspace(0.1, width / 2.2, 500)])
        assert f(q).max() < 1.01 * h0, f"size {f(q).max()} where the sizing function has {h0} for 2.4 h0 around"
""")

bug("barrier-of-the-world", "C12",
    "a split world whose groups do different things and perform_checks=True",
    "ranks wait for each other before the checks, all of the world and not those of the call's communicator",
    [(GEN, """    # perform linting if asked
    if comm.rank == 0 and opts["perform_checks"]:
""", """    # perform linting if asked, not while others still write their messages
    if opts["perform_checks"] and comm.size > 1:
        MPI.COMM_WORLD.Barrier()
    if comm.rank == 0 and opts["perform_checks"]:
""")],
    """
import SeismicMesh as sm
import SeismicMesh.generation.mesh_generator as g
from fakempi import Comm, World, job, results

# two groups of two ranks; only one has anything to do
class Fake:
    pass


world = World(4)
members = {0: [0, 1], 1: [0, 1], 2: [2, 3], 3: [2, 3]}
import threading

ident = {}


class WorldComm:
    def __getattr__(self, name):
        return getattr(Comm(world, ident[threading.get_ident()]), name)


real = g.MPI


class MPI:
    COMM_WORLD = WorldComm()

    def __getattr__(self, name):
        return getattr(real, name)


g.MPI = MPI()


def run(r):
    ident[threading.get_ident()] = r
    if r > 1:
        return None
    c = Comm(world, r, group=members[r], cid="low")
    return sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 1.0)), 0.1, comm=c, max_iter=3, verbose=0, perform_checks=True)


rs = world.run([lambda r=r: run(r) for r in range(4)])
assert len(results(rs)[0][1]) > 100
""")

bug("options-checked-by-root", "C16",
    "an option that doesn't exist, two or more ranks",
    "only the root checks the names of the options: it raises and the others wait for it",
    [(GEN, """    gen_opts.update(kwargs)
    _parse_kwargs(kwargs)
""", """    gen_opts.update(kwargs)
    if comm.rank == 0:
        _parse_kwargs(kwargs)
""")],
    """
import SeismicMesh as sm
from fakempi import Deadlock, job

rs, w = job(2, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 1.0)), 0.1, comm=c, max_iter=3, verbose=0, nonsense=1))
for r, (how, e) in enumerate(rs):
    assert how == "raised" and isinstance(e, ValueError), f"rank {r}: {how} {e!r}"
""")

bug("any-memory-order", "C06",
    "initial points of the user as an array in Fortran order (a transposed array of coordinates)",
    "the points of a rank are sent as they lie in memory: coordinates of an array in Fortran order are mixed up",
    [(MIG, "            comm.send(blocks[local], dest=local, tag=12)\n", "            comm.send(blocks[local].ravel(order=\"K\"), dest=local, tag=12)\n"),
     ("SeismicMesh/decomp/blocker.py", "    num_points, dim = points.shape\n", "    num_points, dim = points.shape\n    columns = np.isfortran(points)\n"),
     ("SeismicMesh/decomp/blocker.py", "        blocks.append(block)\n", "        # keep them as they were\n        blocks.append(np.asfortranarray(block) if columns else block)\n")],
    """
import numpy as np
from SeismicMesh import decomp, migration
from fakempi import job, results

pts = np.random.RandomState(0).rand(60, 2)
for a in (pts, np.asfortranarray(pts)):
    def run(c):
        blocks = ext = None
        if c.rank == 0:
            blocks, ext = decomp.blocker(points=a, rank=0, num_blocks=3, axis=1)
        return migration.localize_points(blocks, ext, c, 2)[0]
    rs, w = job(3, run)
    got = np.vstack(results(rs))
    assert sorted(map(tuple, got)) == sorted(map(tuple, pts)), "other points than the user's"
""")

bug("domain-grown", "C14",
    "a Rectangle or Cube as the domain and a sizing function with a domain pad",
    "the domain is enlarged in place when the sizing function has a domain pad",
    [(GEN, """    if bbox0 != bbox1 and bbox1 is not None:
        if dim == 2:
            tmp = geometry.Rectangle(bbox)
""", """    if bbox0 != bbox1 and bbox1 is not None:
        if isinstance(domain, (geometry.Rectangle, geometry.Cube)):
            # no need for another one
            tmp = domain
            tmp.bbox0 = tmp.bbox = bbox
        elif dim == 2:
            tmp = geometry.Rectangle(bbox)
""")],
    """
import numpy as np
import SeismicMesh as sm

v = np.full((10, 10), 2000.0)
for pad in (0.0, 500.0):
    ef = sm.get_sizing_function_from_segy("x", (-2000.0, 0.0, 0.0, 2000.0), velocity_data=v, nz=10, nx=10, hmin=300.0, wl=5, freq=2.0, domain_pad=pad)
    r = sm.Rectangle((-2000.0, 0.0, 0.0, 2000.0))
    before = (tuple(r.bbox), r.eval(np.array([[10.0, 10.0], [-2100.0, 30.0]])).tolist())
    sm.generate_mesh(r, ef, max_iter=2, verbose=0)
    assert before == (tuple(r.bbox), r.eval(np.array([[10.0, 10.0], [-2100.0, 30.0]])).tolist()), "the caller's domain has changed"
""")

bug("merged-later", "C10",
    "slivers at a cut between ranks: few iterations, or initial points of the user, in 2D",
    "the parts of the ranks are no longer merged before cells of poor quality are removed from the border: at a cut, which looks like a border then, both copies of a cell go",
    [(GEN, """    if comm.rank == 0 and dim == 2:
        p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
        p, t = geometry""", """    if comm.rank == 0 and dim == 2:
        if comm.size == 1:
            p, t, _ = geometry.fix_mesh(p, t, dim=dim, delete_unused=True)
        p, t = geometry""")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import cells, job, results

dom = lambda p: np.full(len(p), -1e9)
for seed in range(6):
    pts = np.random.RandomState(seed).rand(200, 2)
    kw = dict(bbox=(-1.0, 2.0, -1.0, 2.0), max_iter=1, verbose=0, points=pts, mesh_improvement=False)
    p0, t0 = sm.generate_mesh(dom, 0.1, **kw)
    rs, w = job(2, lambda c: sm.generate_mesh(dom, 0.1, comm=c, **kw))
    p, t = results(rs)[0]
    assert cells(p0, t0) == cells(p, t), f"{len(t0)} cells in serial, {len(t)} in parallel"
""")

bug("half-a-row-less", "C04",
    "a cut between ranks more than half a row above the last row of points below it",
    "the rows of the initial points end half a mesh size beyond the limit and no longer a whole one, the ranks above still start as if they did: a row is missing at some cuts",
    [(GUT, "    points = np.mgrid[tuple(slice(min, max + h0, h0) for min, max in bbox)].astype(\n", "    points = np.mgrid[tuple(slice(min, max + h0 / 2, h0) for min, max in bbox)].astype(\n")],
    """
import numpy as np
from SeismicMesh.generation import utils

for h0 in (0.1, 0.07, 0.13):
    for n in (1, 2, 3):
        bbox = np.array([[0.0, 1.0], [0.0, 2.0]])
        rows = np.unique(np.round(np.concatenate([np.unique(utils.make_init_points(bbox, r, n, 1, h0, 2)[0::1, 1]) for r in range(n)]), 9))
        # rows of points are h0 apart, every other one is shifted by h0 / 2
        assert np.diff(rows).max() < 0.6 * h0 * 1.001, f"a strip of {np.diff(rows).max() / h0:.2f} h0 without points on {n} ranks"
""")

bug("forgotten-isend", "C03",
    "ghost vertices that are sent without buffering",
    "the vertices for the neighbours are sent with a non-blocking send from a scratch array that is used again for the next neighbour without waiting",
    [(MIG, """    # send points below
    if rank != 0:  # rank 0 can't send below
        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)

    # receive points from above
    if rank != size - 1:
        new_points.append(comm.recv(source=rank + 1, tag=11))

    # send points above
    if rank != (size - 1):  # topmost rank can't send to above
        # all put the topmost rank receive from above
        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)

    # receive points from below
    if rank != 0:
        # all but the bottommost rank receive from below
        new_points.append(comm.recv(source=rank - 1, tag=11))
""", """    # one scratch array for both directions
    scratch = np.empty((max(NSB, NSA), dim))
    requests = []

    def _recv_from(other):
        status = MPI.Status()
        comm.Probe(source=other, tag=11, status=status)
        buf = np.empty((status.Get_count(MPI.DOUBLE) // dim, dim))
        comm.Recv(buf, source=other, tag=11)
        new_points.append(buf)

    # send points below
    if rank != 0:  # rank 0 can't send below
        scratch[:NSB] = exports[1 : NSB + 1, 0:dim]
        requests.append(comm.Isend(scratch[:NSB], dest=rank - 1, tag=11))

    # receive points from above
    if rank != size - 1:
        _recv_from(rank + 1)

    # send points above
    if rank != (size - 1):  # topmost rank can't send to above
        # all put the topmost rank receive from above
        scratch[:NSA] = exports[NSB + 1 : NSB + 1 + NSA, 0:dim]
        requests.append(comm.Isend(scratch[:NSA], dest=rank + 1, tag=11))

    # receive points from below
    if rank != 0:
        # all but the bottommost rank receive from below
        _recv_from(rank - 1)

    MPI.Request.Waitall(requests)
""")],
    """
import numpy as np
from SeismicMesh import migration
import SeismicMesh.migration.migration as m
from fakempi import Comm, World, job, results

rng = np.random.RandomState(0)


class Status:
    n = 0

    def Get_count(self, t=None):
        return self.n


class Request:
    Waitall = staticmethod(lambda rs: [r.wait() for r in rs])


real = m.MPI


class MPI:
    def __getattr__(self, name):
        return {"Status": Status, "Request": Request}.get(name) or getattr(real, name)


m.MPI = MPI()


# buffers are sent late: the content is read when the message is received
class Late(Comm):
    def Isend(self, buf, dest, tag=0):
        b = [self.cid, self.rank, dest, tag, None, False]
        self.w.box.append(b)
        b[4] = Ref(buf)
        comm = self

        class R:
            def wait(self):
                comm.w.wait_for(comm.me, lambda: b[5])

        return R()

    Send = None

    def Probe(self, source, tag, status):
        find = lambda: next((x for x in self.w.box if x[0] == self.cid and x[2] == self.rank and x[1] == source), None)
        self.w.wait_for(self.me, find)
        status.n = find()[4].a.size

    def Recv(self, buf, source, tag=0):
        v = self.recv(source=source, tag=tag)
        buf[...] = v.a if isinstance(v, Ref) else v


class Ref:
    def __init__(self, a):
        self.a = a

    def __deepcopy__(self, memo):
        return self


ex = [np.vstack([[[a, b, 0.0]], np.hstack([rng.rand(a + b, 2), np.zeros((a + b, 1))])]) for a, b in ((0, 7), (5, 6), (4, 0))]
for order in ([0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]):
    w = World(3, sync=False, order=order)
    rs = w.run([lambda r=r: migration.exchange(Late(w, r), r, 3, ex[r], dim=2) for r in range(3)])
    got = results(rs)
    assert np.array_equal(got[0], ex[1][1:6, :2]) and np.array_equal(got[2], ex[1][6:12, :2])
""")

DC2 = "SeismicMesh/generation/cpp/delaunay_class.cpp"
DC3 = "SeismicMesh/generation/cpp/delaunay_class3.cpp"

bug("moves-by-number", "C26",
    "a move after an insertion or removal, without a look at the vertices in between",
    "vertices to move are found by the number they were given when the vertices were last read, which an insertion or removal makes stale",
    [(DC2, """             // store all vertex handles
             for (Vi vi = dt.finite_vertices_begin();
                  vi != dt.finite_vertices_end(); vi++) {
               handles.push_back(vi);
             }
""", """             // store all vertex handles by their numbers
             handles.resize(dt.number_of_vertices());
             for (Vi vi = dt.finite_vertices_begin();
                  vi != dt.finite_vertices_end(); vi++) {
               if (vi->info() < handles.size())
                 handles[vi->info()] = vi;
             }
"""), (DC2, """               dt.move(handles[to_move[i]], new_pos[i]);
""", """               if (handles[to_move[i]] != Vertex_handle())
                 dt.move(handles[to_move[i]], new_pos[i]);
""")],
    """
import numpy as np
from _delaunay_class import DelaunayTriangulation

walk = lambda d: [(v.point.x, v.point.y) for v in d.finite_vertices()]
for s in range(30):
    rng = np.random.RandomState(s)
    d = DelaunayTriangulation()
    d.insert(rng.rand(40).tolist())
    d.get_finite_vertices()
    d.remove([int(i) for i in rng.permutation(20)[:3]])
    d.insert(rng.rand(10).tolist())
    v = walk(d)
    i = int(rng.randint(len(v)))
    d.move([i], [0.25, 0.75])
    v[i] = (0.25, 0.75)
    assert sorted(map(tuple, d.get_finite_vertices().tolist())) == sorted(v), s
""")

bug("short-moves-left-out", "C26",
    "a move in 3D of less than 1e-4",
    "a vertex that is to be moved by less than 1e-4 is left where it is, whatever the unit of length is",
    [(DC3, """               dt.move(handles[to_move[i]], new_pos[i]);
""", """               // it is there
               if (CGAL::squared_distance(handles[to_move[i]]->point(),
                                          new_pos[i]) < 1e-8)
                 continue;
               dt.move(handles[to_move[i]], new_pos[i]);
""")],
    """
import numpy as np
from _delaunay_class3 import DelaunayTriangulation3

for scale in (1.0, 1e-5):
    rng = np.random.RandomState(1)
    d = DelaunayTriangulation3()
    d.insert((rng.rand(60) * scale).tolist())
    v = d.get_finite_vertices()
    for i in (3, 8, 11):
        v[i] = rng.rand(3) * scale
    d.move([3, 8, 11], v[[3, 8, 11]].ravel().tolist())
    assert np.array_equal(d.get_finite_vertices(), v), scale
""")

bug("edges-of-neighbours", "C26",
    "edges of some cells only, where a cell that was not asked for lies on the other side of an edge",
    "the edges of a 2D triangulation's faces are reported by the face with the smaller address, also when that one was not asked for",
    [(DC2, "                     if (face > nei_face && face_handles.count(nei_face)) continue; // report interior edges once\n",
      "                     if (face > nei_face && !dt.is_infinite(nei_face)) continue; // report interior edges once\n")],
    """
import itertools
import numpy as np
from _delaunay_class import DelaunayTriangulation

rng = np.random.RandomState(1)
d = DelaunayTriangulation()
d.insert(rng.rand(100).tolist())
d.get_finite_vertices()
t = d.get_finite_cells()
for some in (np.ones(len(t), int), (rng.rand(len(t)) < 0.5).astype(int), (rng.rand(len(t)) < 0.1).astype(int)):
    want = sorted({tuple(sorted(e)) for c in t[some == 1].tolist() for e in itertools.combinations(c, 2)})
    got = sorted(tuple(sorted(e)) for e in d.get_edges(some.tolist()).tolist())
    assert got == want
""")

bug("subdomains-of-the-root", "C10",
    "subdomains, two or more ranks, a subdomain in the part of another rank than the root",
    "only the root looks at the subdomains: in the parts of the other ranks the mesh does not follow their borders",
    [(GEN, "    if gen_opts[\"subdomains\"] is not None:\n        for subdomains", "    if comm.rank == 0 and gen_opts[\"subdomains\"] is not None:\n        for subdomains")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

for y in (0.5, 1.5):
    kw = dict(subdomains=[sm.Disk([0.5, y], 0.25)], axis=1, max_iter=10, verbose=0)
    rs, w = job(2, lambda c: sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 2.0)), 0.08, comm=c, **kw))
    p, t = results(rs)[0]
    d = np.hypot(p[:, 0] - 0.5, p[:, 1] - y) - 0.25
    assert not ((d > 0.004) & (d < 0.045)).any(), f"vertices just outside the subdomain around (0.5, {y})"
""")

bug("clipped-before", "C10",
    "a domain with a dent (Difference, Union), two or more ranks",
    "the cells outside are not removed again after gathering and smoothing, because the ranks had removed theirs",
    [(GEN, "                t = _remove_triangles_outside(p, t, fd, h0 * 0.001)\n                p, t, _", "                if comm.size == 1:\n                    t = _remove_triangles_outside(p, t, fd, h0 * 0.001)\n                p, t, _")],
    """
import numpy as np
import SeismicMesh as sm
from fakempi import job, results

for r, x, h, n in [(0.437, 0.248, 0.0711, 3), (0.5176, -0.0196, 0.0542, 2), (0.4316, -0.1966, 0.0657, 2), (0.5956, -0.2757, 0.0656, 4)]:
    dom = sm.Union([sm.Disk([x, 0.0], 0.6), sm.Disk([0.0, 1.0], r)])
    rs, w = job(n, lambda c: sm.generate_mesh(dom, h, comm=c, axis=1, max_iter=1, verbose=0))
    p, t = results(rs)[0]
    f = dom.eval(p[t].mean(axis=1))
    assert f.max() < 0.001 * h * 1.001, f"a cell whose center is {f.max() / h:.2f} edge lengths outside"
""")
