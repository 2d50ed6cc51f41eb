"""Edits that keep the behaviour: refactorings and other legitimate ways to do the same.
Usage: ./run.sh tools/seed/refactors.py [name..]   (each on a scratch copy of /repo; prints any check that isn't quiet)"""
import os, shutil, subprocess, sys, tempfile, time

MIG = "SeismicMesh/migration/migration.py"
GEN = "SeismicMesh/generation/mesh_generator.py"
GUT = "SeismicMesh/generation/utils.py"
BLK = "SeismicMesh/decomp/blocker.py"
GEO = "SeismicMesh/geometry/utils.py"
SIZ = "SeismicMesh/sizing/mesh_size_function.py"
R = []


def ref(id, props, *edits):
    R.append((id, props.split(), edits))


XCH = """    # send points below
    if rank != 0:  # rank 0 can't send below
        comm.send(exports[1 : NSB + 1, 0:dim], dest=rank - 1, tag=11)

    # receive points from above
    if rank != size - 1:
        new_points.append(comm.recv(source=rank + 1, tag=11))

    # send points above
    if rank != (size - 1):  # topmost rank can't send to above
        # all put the topmost rank receive from above
        comm.send(exports[NSB + 1 : NSB + 1 + NSA, 0:dim], dest=rank + 1, tag=11)

    # receive points from below
    if rank != 0:
        # all but the bottommost rank receive from below
        new_points.append(comm.recv(source=rank - 1, tag=11))
"""

ref("exchange-nonblocking", "C01 C02 C03 C05 C07 C10 C12 C16 C17", (MIG, XCH, """    below = exports[1 : NSB + 1, 0:dim]
    above = exports[NSB + 1 : NSB + 1 + NSA, 0:dim]
    requests = []
    if rank != 0:
        requests.append(comm.isend(below, dest=rank - 1, tag=11))
    if rank != size - 1:
        requests.append(comm.isend(above, dest=rank + 1, tag=11))
    if rank != size - 1:
        new_points.append(comm.recv(source=rank + 1, tag=11))
    if rank != 0:
        new_points.append(comm.recv(source=rank - 1, tag=11))
    MPI.Request.waitall(requests)
"""))

ref("exchange-sendrecv", "C01 C02 C03 C05 C07 C10 C12", (MIG, XCH, """    below = exports[1 : NSB + 1, 0:dim]
    above = exports[NSB + 1 : NSB + 1 + NSA, 0:dim]
    down = rank - 1 if rank != 0 else MPI.PROC_NULL
    up = rank + 1 if rank != size - 1 else MPI.PROC_NULL
    got = comm.sendrecv(below, dest=down, sendtag=11, source=up, recvtag=11)
    if got is not None:
        new_points.append(got)
    got = comm.sendrecv(above, dest=up, sendtag=12, source=down, recvtag=12)
    if got is not None:
        new_points.append(got)
"""))

ref("exchange-buffers", "C01 C02 C03 C05 C07 C10 C12 C17", (MIG, XCH, """    below = np.ascontiguousarray(exports[1 : NSB + 1, 0:dim])
    above = np.ascontiguousarray(exports[NSB + 1 : NSB + 1 + NSA, 0:dim])
    requests = []
    for data, other in ((below, rank - 1), (above, rank + 1)):
        if 0 <= other < size:
            requests.append(comm.Isend(data, dest=other, tag=11))
    for other in (rank + 1, rank - 1):
        if 0 <= other < size:
            status = MPI.Status()
            comm.Probe(source=other, tag=11, status=status)
            buffer = np.empty(status.Get_count(MPI.DOUBLE), dtype=float)
            comm.Recv(buffer, source=other, tag=11)
            new_points.append(buffer.reshape(-1, dim))
    for request in requests:
        request.Wait()
"""))

ref("exchange-odd-even", "C01 C02 C03 C05 C07 C12", (MIG, XCH, """    def _send(what, other):
        if 0 <= other < size:
            comm.send(what, dest=other, tag=11)

    def _recv(other):
        if 0 <= other < size:
            new_points.append(comm.recv(source=other, tag=11))

    below = exports[1 : NSB + 1, 0:dim]
    above = exports[NSB + 1 : NSB + 1 + NSA, 0:dim]
    if rank % 2 == 0:
        _send(below, rank - 1)
        _send(above, rank + 1)
        _recv(rank + 1)
        _recv(rank - 1)
    else:
        _recv(rank + 1)
        _recv(rank - 1)
        _send(above, rank + 1)
        _send(below, rank - 1)
"""))

ref("aggregate-gather", "C01 C02 C03 C05 C08 C10 C12 C16", (MIG, """    if rank == 0:
        csum_p = np.cumsum(off_p)
        gpoints = points
        gfaces = faces
    for r in np.arange(1, size):
        if rank == r:
            comm.send(points, dest=0, tag=12)
            comm.send(faces, dest=0, tag=13)
        if rank == 0:
            tmp = np.reshape(comm.recv(source=r, tag=12), (off_p[r], dim))
            tmp2 = (
                np.reshape(comm.recv(source=r, tag=13), (off_t[r], dim + 1))
                + csum_p[r - 1]
            )
            gpoints = np.append(gpoints, tmp, axis=0)
            gfaces = np.append(gfaces, tmp2, axis=0)
    if rank == 0:
        return gpoints, gfaces
    else:
        return True, True
""", """    parts = comm.gather((points, faces), root=0)
    if rank != 0:
        return True, True
    start = np.concatenate(([0], np.cumsum(off_p)[:-1]))
    gpoints = np.concatenate([part[0].reshape(-1, dim) for part in parts], axis=0)
    gfaces = np.concatenate(
        [part[1].reshape(-1, dim + 1) + s for part, s in zip(parts, start)], axis=0
    )
    return gpoints, gfaces
"""))

ref("aggregate-allgather-counts", "C01 C02 C03 C08 C10", (MIG, """    soff_p = np.zeros((size), dtype=int)
    soff_t = np.zeros((size), dtype=int)

    soff_p[rank] = len(points)
    soff_t[rank] = len(faces)

    off_p = np.zeros((size), dtype=int)
    off_t = np.zeros((size), dtype=int)

    comm.Reduce(soff_p, off_p, op=MPI.SUM, root=0)
    comm.Reduce(soff_t, off_t, op=MPI.SUM, root=0)
""", """    counts = comm.allgather((len(points), len(faces)))
    off_p = np.array([c[0] for c in counts], dtype=int)
    off_t = np.array([c[1] for c in counts], dtype=int)
"""))

ref("scatter-points", "C01 C02 C03 C05 C06 C16", (MIG, """    for local in range(1, size):
        if rank == 0:
            comm.send(blocks[local], dest=local, tag=12)
        elif rank == local:
            points = np.reshape(comm.recv(source=0, tag=12), (-1, dim))
        if rank == 0:
            points = blocks[0]
        if rank != 0:
            extents = None
        extents = comm.bcast(extents, 0)
    return points, extents
""", """    points = comm.scatter(blocks if rank == 0 else None, root=0)
    extents = comm.bcast(extents if rank == 0 else None, root=0)
    return np.reshape(points, (-1, dim)), extents
"""))

ref("localize-helper", "C01 C03 C09 C11", (MIG, """            grid = np.mgrid[
                tuple(slice(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox)
            ].astype(float)
            # interpolate global --> local sizing grid
            lh = fh(tuple(grid[d] for d in range(dim)))
            # updated grid vectors
            vecs = [np.arange(min - 3 * h0, max + 3 * h0, h0) for min, max in _bbox]
""", """            # updated grid vectors
            vecs = []
            for lo, hi in _bbox:
                vecs.append(np.arange(lo - 3 * h0, hi + 3 * h0, h0))
            grid = np.meshgrid(*vecs, indexing="ij")
            # interpolate global --> local sizing grid
            lh = fh(tuple(grid))
"""))

ref("blocker-digitize", "C01 C05 C06", (BLK, """    which = np.searchsorted(cuts[1:-1], x, side="right")
""", """    which = np.digitize(x, cuts[1:-1])
"""))

ref("blocker-sort", "C01 C05 C06", (BLK, """        block = points[which == i]
""", """        (index,) = np.nonzero(which == i)
        block = np.take(points, index, axis=0)
"""))

ref("init-points-arange", "C01 C04 C09 C10", (GUT, """    for i in range(dim):
        if i == axis:
            new_lims = np.linspace(_bbox[i, 0], _bbox[i, 1], size + 1)
            start = new_lims[0]
            for r in range(rank):
                # starting point must be lasts + h0
                tmp = np.mgrid[slice(start, new_lims[r + 1] + h0, h0)]
                if len(tmp) > 0:
                    start = tmp[-1] + h0
            _bbox[i, :] = start, new_lims[rank + 1]
""", """    limits = np.linspace(_bbox[axis, 0], _bbox[axis, 1], size + 1)
    first = limits[0]
    for upper in limits[1 : rank + 1]:
        rows = np.mgrid[slice(first, upper + h0, h0)]
        first = rows[-1] + h0 if len(rows) else first
    _bbox[axis] = first, limits[rank + 1]
"""))

ref("extents-allgather", "C01 C02 C03 C05 C10 C12", (GEN, """        extent = [*np.amin(p, axis=0), *np.amax(p, axis=0)]
        return [comm.bcast(extent, r) for r in range(comm.size)]
    else:
        return []
""", """        return comm.allgather([*np.amin(p, axis=0), *np.amax(p, axis=0)])
    return []
"""))

ref("agree-with-min", "C01 C02 C03 C16", (GEN, """        converges = bool(maxdp < 1000 * h0)
        if comm.size > 1:
            converges = comm.allreduce(converges, op=MPI.LAND)
        assert converges""", """        worst = np.array([maxdp if np.isfinite(maxdp) else np.inf])
        if comm.size > 1:
            top = np.empty(1)
            comm.Allreduce(worst, top, op=MPI.MAX)
            worst = top
        converges = bool(worst[0] < 1000 * h0)
        assert converges"""))

ref("project-helper", "C10 C14 C15 C05", (GEN, """        ix = np.logical_and(d > 0.0, d < hmin / 1.5)
    if ix.any():

        def _deps_vec(i):
            a = [0] * dim
            a[i] = deps
            return a

        dgrads = [(fd(p[ix] + _deps_vec(i)) - d[ix]) / deps for i in range(dim)]
        dgrad2 = sum(dgrad**2 for dgrad in dgrads)
        dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
        p[ix] -= (d[ix] * np.vstack(dgrads) / dgrad2).T  # Project
""", """        ix = (d > 0.0) & (d < hmin / 1.5)
    if not ix.any():
        return p
    outside = p[ix]
    steps = deps * np.eye(dim)
    dgrads = [(fd(outside + step) - d[ix]) / deps for step in steps]
    dgrad2 = sum(dgrad**2 for dgrad in dgrads)
    dgrad2 = np.where(dgrad2 < deps, deps, dgrad2)
    p[ix] = outside - (d[ix] * np.vstack(dgrads) / dgrad2).T  # Project
"""))

ref("write-atomically", "C19 C02 C11 C13", (SIZ, """        with open(ofname, "wb") as file:
            file.write(image.getbuffer())
""", """        partial = ofname + ".part"
        try:
            with open(partial, "wb") as file:
                file.write(image.getbuffer())
            os.replace(partial, ofname)
        except BaseException:
            if os.path.exists(partial):
                os.remove(partial)
            raise
"""), (SIZ, "import warnings\n", "import os\nimport warnings\n"))

ref("write-in-pieces", "C19 C02 C13", (SIZ, """        with open(ofname, "wb") as file:
            file.write(image.getbuffer())
""", """        data = image.getvalue()
        with open(ofname, "wb") as file:
            for start in range(0, len(data), 4096):
                file.write(data[start : start + 4096])
            file.flush()
            os.fsync(file.fileno())
"""), (SIZ, "import warnings\n", "import os\nimport warnings\n"))

ref("read-bytes", "C18 C11 C13 C16 C19", (SIZ, """    with open(filename, "r") as file:
        print(f"Reading binary file: {filename}")
        if byte_order == "big":
            vp = np.fromfile(
                file, dtype=np.dtype(dtype).newbyteorder(">"), count=count
            )
        elif byte_order == "little":
            vp = np.fromfile(
                file, dtype=np.dtype(dtype).newbyteorder("<"), count=count
            )
        else:
            raise ValueError("Please specify byte_order as either: little or big.")
        vp = vp.reshape""", """    if byte_order not in ("big", "little"):
        raise ValueError("Please specify byte_order as either: little or big.")
    kind = np.dtype(dtype).newbyteorder(">" if byte_order == "big" else "<")
    with open(filename, "rb") as file:
        print(f"Reading binary file: {filename}")
        vp = np.frombuffer(file.read(count * kind.itemsize), dtype=kind)
        vp = vp.reshape"""))

ref("segy-collect", "C18 C11 C13 C16", (SIZ, """        vp = np.zeros(shape=(nz, nx))
        for index, trace in enumerate(f.trace):
            vp[:, index] = trace
""", """        vp = np.empty((nz, nx))
        for index in range(nx):
            vp[:, index] = f.trace[index]
"""))

ref("options-merged", "C13 C16 C14 C12 C11", (SIZ, "    sz_opts.update(kwargs)\n", "    sz_opts = {**sz_opts, **kwargs}\n"),
    (GEN, "    gen_opts.update(kwargs)\n", "    gen_opts = dict(gen_opts, **kwargs)\n"))

ref("edges-helper", "C01 C05 C10 C12", (GEN, """    edges = np.concatenate([t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]]])
    if dim == 3:
        edges = np.concatenate(
            (edges, t[:, [0, 3]], t[:, [1, 3]], t[:, [2, 3]]), axis=0
        )
    return geometry.unique_edges(edges)
""", """    pairs = [(0, 1), (1, 2), (2, 0)]
    if dim == 3:
        pairs += [(0, 3), (1, 3), (2, 3)]
    return geometry.unique_edges(np.concatenate([t[:, list(ij)] for ij in pairs]))
"""))

ref("smooth-direct", "C05 C10 C12 C15", (GEO, """    ml = pyamg.ruge_stuben_solver(matrix)
    move = np.column_stack([ml.solve(rhs[:, 0]), ml.solve(rhs[:, 1])])
    # AMG may diverge (on meshes of poor quality for instance)
    residual = np.linalg.norm(rhs - matrix @ move, axis=0)
    if not (residual <= 1e-4 * np.linalg.norm(rhs, axis=0)).all():
        move = spsolve(matrix.tocsc(), rhs)
""", """    move = spsolve(matrix.tocsc(), rhs)
"""))

if __name__ == "__main__":
    only = sys.argv[1:]
    for id, props, edits in R:
        if only and id not in only:
            continue
        w = tempfile.mkdtemp(prefix="refac.")
        try:
            shutil.copytree("/repo", w + "/r", symlinks=True)
            for f, old, new in edits:
                s = open(f"{w}/r/{f}").read()
                assert s.count(old) >= 1, (id, f, old)
                open(f"{w}/r/{f}", "w").write(s.replace(old, new))
            for p in [p for p in props if p not in os.environ.get("SKIP", "").split()]:
                t = time.time()
                r = subprocess.run(["./run.sh", "check.py", "--property", p], cwd="/verif", env=dict(os.environ, DST_REPO=w + "/r", VERIF_SEED="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out = [x for x in r.stdout.splitlines() if not x.startswith(("case:", "decisions"))]
                print(id, p, r.returncode, f"{time.time() - t:.0f} s", "" if r.returncode == 0 else "\n   ".join([""] + out[-4:]), flush=True)
        finally:
            shutil.rmtree(w)
