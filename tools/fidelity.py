"""Does the simulated MPI behave as the installed one?

    python tools/fidelity.py            runs every program below in the simulator
                                        (many schedules) and under mpiexec, and
                                        compares what each rank returns

Not a check of SeismicMesh: it validates the simulator's stub of MPI."""
import hashlib
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))


def p2p(comm, MPI):
    r, n = comm.rank, comm.size
    out = []
    if n > 1:
        up, down = (r + 1) % n, (r - 1) % n
        q = comm.isend(("hello", r), dest=up, tag=3)
        out.append(comm.recv(source=down, tag=3))
        q.wait()
        out.append(comm.sendrecv(r * 10, dest=down, source=up))
        a, b = np.full(5, float(r)), np.zeros(5)
        comm.Sendrecv(a, dest=up, recvbuf=b, source=down)
        out.append(b.tolist())
        qs = [comm.Isend(np.array([r, k]), dest=up, tag=k) for k in (5, 6)]
        bufs = {k: np.zeros(2, dtype=int) for k in (6, 5)}
        rs = [comm.Irecv(bufs[k], source=down, tag=k) for k in (6, 5)]
        MPI.Request.Waitall(qs + rs)
        out.append([bufs[5].tolist(), bufs[6].tolist()])
        if r == 0:
            st = MPI.Status()
            got = {}
            for _ in range(n - 1):
                v = comm.recv(source=MPI.ANY_SOURCE, tag=9, status=st)
                got[st.Get_source()] = v
            out.append(sorted(got.items()))
        else:
            comm.send([r] * r, dest=0, tag=9)
        if r == 1:
            comm.Send(np.arange(7.0), dest=0, tag=2)
        if r == 0:
            st = MPI.Status()
            comm.Probe(source=1, tag=2, status=st)
            k = st.Get_count(MPI.DOUBLE)
            x = np.empty(k)
            comm.Recv(x, source=1, tag=2)
            out.append((k, x.tolist()))
        if r == 0:
            q = comm.irecv(source=n - 1, tag=4)
            while not comm.iprobe(source=n - 1, tag=7):
                pass
            out.append(comm.recv(source=n - 1, tag=7))
            while True:
                ok, v = q.test()
                if ok:
                    break
            out.append(v)
        if r == n - 1:
            comm.send("a", 0, tag=4)
            comm.send("b", 0, tag=7)
    out.append(comm.sendrecv("x", dest=r, source=r))
    return out


def objects(comm, MPI):
    r, n = comm.rank, comm.size
    return [comm.bcast({"r": r}, root=n - 1), comm.gather(r * r, root=0), comm.allgather((r,)), comm.scatter([k * 2 for k in range(n)] if r == 0 else None),
            comm.alltoall([(r, k) for k in range(n)]), comm.reduce(r + 1, op=MPI.SUM, root=n - 1), comm.allreduce(r, op=MPI.MAX), comm.allreduce(r > 0, op=MPI.LAND),
            comm.allreduce([r], op=MPI.SUM), comm.scan(r), comm.exscan(r), comm.barrier(), comm.allreduce((float(n - r), r), op=MPI.MINLOC)]


def buffers(comm, MPI):
    r, n = comm.rank, comm.size
    out = []
    a = np.arange(3) + r
    for op in (MPI.SUM, MPI.MIN, MPI.MAX, MPI.PROD):
        b = np.zeros(3, dtype=a.dtype)
        comm.Allreduce(a, b, op=op)
        out.append(b.tolist())
    b = a.copy()
    comm.Allreduce(MPI.IN_PLACE, b)
    out.append(b.tolist())
    b = np.zeros(3, dtype=a.dtype)
    comm.Reduce(a, b, root=n - 1)
    out.append(b.tolist())
    x = np.arange(4.0) * (r == 0)
    comm.Bcast([x, MPI.DOUBLE], root=0)
    out.append(x.tolist())
    g = np.zeros((n, 3), dtype=a.dtype)
    comm.Gather(a, g if r == 0 else None, root=0)
    out.append(g.tolist() if r == 0 else None)
    comm.Allgather(a, g)
    out.append(g.tolist())
    s = np.zeros(2)
    comm.Scatter(np.arange(2.0 * n) if r == 0 else None, s, root=0)
    out.append(s.tolist())
    counts = [k + 1 for k in range(n)]
    mine = np.full(r + 1, float(r))
    v = np.zeros(sum(counts))
    comm.Gatherv(mine, [v, counts] if r == 0 else None, root=0)
    out.append(v.tolist())
    displs = [int(sum(counts[:k])) for k in range(n)]
    comm.Allgatherv(mine, [v, counts, displs, MPI.DOUBLE])
    out.append(v.tolist())
    w = np.zeros(r + 1)
    comm.Scatterv([v, counts, displs, MPI.DOUBLE] if r == 0 else None, w, root=0)
    out.append(w.tolist())
    z = np.zeros(n)
    comm.Alltoall(np.arange(float(n)) + 100 * r, z)
    out.append(z.tolist())
    t = np.zeros(3, dtype=a.dtype)
    comm.Scan(a, t)
    out.append(t.tolist())
    return out


def later(comm, MPI):
    r, n = comm.rank, comm.size
    q = comm.Ibarrier()
    x = np.full(2, float(r))
    q2 = comm.Ibcast(x, root=n - 1)
    y = np.zeros(1)
    a, b = np.array([r + 0.5]), np.array([float(r)])
    q3 = comm.Iallreduce(a, y)
    g = np.zeros(n)
    q4 = comm.Iallgather(b, g)
    v = comm.sendrecv(r, dest=(r + 1) % n, source=(r - 1) % n)
    MPI.Request.Waitall([q4, q3, q2, q])
    return [v, x.tolist(), y.tolist(), g.tolist()]


def split(comm, MPI):
    r, n = comm.rank, comm.size
    c = comm.Split(r % 2, -r)
    d = comm.Dup()
    out = [c.rank, c.size, c.allgather(r), d.allgather(r)]
    e = comm.Split(0 if r == 0 else MPI.UNDEFINED, 0)
    out.append(e is None or e == MPI.COMM_NULL)
    c.Free()
    d.Free()
    return out


def errors(comm, MPI):
    r, n = comm.rank, comm.size
    out = []
    for f in (lambda: comm.send(1, dest=n), lambda: comm.recv(source=n + 3), lambda: comm.bcast(1, root=n), lambda: comm.scatter([1] * (n + 1)) if n == 1 else None):
        try:
            f()
            out.append("fine")
        except Exception as e:
            out.append("raises")
    comm.send(5, dest=MPI.PROC_NULL)
    out.append(comm.recv(source=MPI.PROC_NULL))
    return out


PROGRAMS = dict(p2p=p2p, objects=objects, buffers=buffers, later=later, split=split, errors=errors)


def mesh_program(which):
    def f(comm, MPI, sm=None):
        if sm is None:
            import SeismicMesh as sm
        if which == "rect":
            r = sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 2.0)), 0.07, comm=comm, max_iter=8, verbose=0)
        elif which == "cube":
            r = sm.generate_mesh(sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 2.0)), 0.2, comm=comm, max_iter=5, verbose=0, axis=2)
        else:
            p = np.random.RandomState(4).rand(700, 2) * [1, 3]
            r = sm.generate_mesh(sm.Rectangle((0.0, 1.0, 0.0, 3.0)), 0.1, comm=comm, max_iter=4, verbose=0, points=p)
        if comm.rank:
            return repr(r)
        return [len(r[0]), len(r[1]), hashlib.sha256(np.ascontiguousarray(r[0]).tobytes() + np.ascontiguousarray(r[1]).tobytes()).hexdigest()]
    return f


MESHES = ("rect", "cube", "points")


def real_rank(out):
    from mpi4py import MPI
    res = {}
    for k, f in PROGRAMS.items():
        res[k] = f(MPI.COMM_WORLD, MPI)
        MPI.COMM_WORLD.Barrier()
    for m in MESHES:
        res[m] = mesh_program(m)(MPI.COMM_WORLD, MPI)
    with open(f"{out}.{MPI.COMM_WORLD.rank}", "wb") as f:
        pickle.dump(res, f)


def main():
    from dst import engine, env, job, mpi, sched
    job.preload(4)
    from mpi4py import MPI

    class R:
        replay = None
        sim_time = steps = 0

        def event(self, *a):
            pass

        fault = probe = event

    bad = total = 0
    for n in (1, 2, 3, 4):
        with tempfile.TemporaryDirectory() as d:
            e = dict(os.environ, PYTHONPATH=env.REPO, OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
            e.pop("LD_PRELOAD", None)
            subprocess.run(["mpiexec", "--oversubscribe", "-n", str(n), sys.executable, os.path.abspath(__file__), "--real", d + "/r"],
                           check=True, env=e, timeout=300, stdout=subprocess.DEVNULL)
            real = [pickle.load(open(f"{d}/r.{r}", "rb")) for r in range(n)]
        for name in (*PROGRAMS, *MESHES):
            for k in range(40 if name in PROGRAMS else 4):
                import random
                s = job.gen_sched(random.Random(k))
                f = (lambda sm, comm: PROGRAMS[name](comm, MPI)) if name in PROGRAMS else (lambda sm, comm: mesh_program(name)(comm, MPI, sm))
                w = job.job(R(), n, f, s, seed=k, record=False)
                got = [r.result for r in w.ranks]
                total += 1
                want = [real[r][name] for r in range(n)]
                if w.deadlock or any(r.error for r in w.ranks) or pickle.dumps(got) != pickle.dumps(want) and repr(got) != repr(want):
                    bad += 1
                    print("DIFFERS", n, name, k, s, w.deadlock, [repr(r.error) for r in w.ranks], "\n  sim ", got, "\n  real", want)
                    break
    print(f"{total} simulated runs, {bad} programs differ from the installed MPI")
    return bad > 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--real"]:
        real_rank(sys.argv[2])
    else:
        sys.exit(main())
