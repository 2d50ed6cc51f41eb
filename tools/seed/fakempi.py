"""A minimal in-process MPI for the demonstrations: one thread per rank, one of
which runs at a time.  Sends are buffered unless sync=True."""
import copy
import threading

import numpy as np


class Deadlock(Exception):
    pass


class World:
    def __init__(self, n, sync=False, order=None):
        self.n, self.sync = n, sync
        self.cv = threading.Condition()
        self.box = []            # [comm id, src, dst, tag, data, taken]
        self.coll = {}
        self.turn = 0
        self.blocked = {}
        self.done = set()
        self.dead = False
        self.order = order or list(range(n))
        self.sent = 0

    # a rank runs until it has to wait; then the next one in `order`
    def _next(self):
        live = [r for r in self.order if r not in self.done]
        ready = [r for r in live if r not in self.blocked or self.blocked[r]()]
        if not ready:
            self.dead = bool(live)
        else:
            self.turn = ready[0]
        self.cv.notify_all()

    def wait_for(self, r, cond):
        with self.cv:
            if not cond():
                self.blocked[r] = cond
                self._next()
                while not (self.dead or (self.turn == r and cond())):
                    self.cv.wait()
                self.blocked.pop(r, None)
                if self.dead:
                    raise Deadlock()

    def run(self, fns):
        res = [None] * self.n

        def body(r):
            with self.cv:
                while self.turn != r and not self.dead:
                    self.cv.wait()
            try:
                res[r] = ("ok", fns[r]())
            except BaseException as e:
                res[r] = ("raised", e)
            with self.cv:
                self.done.add(r)
                self._next()

        self.turn = self.order[0]
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return res


def kind(op):
    from mpi4py import MPI

    for o, name in ((MPI.SUM, "sum"), (MPI.MIN, "min"), (MPI.MAX, "max"), (MPI.LAND, "land"), (MPI.LOR, "lor")):
        if op == o:
            return name
    raise NotImplementedError(op)


def reduce_(op, vals):
    k = kind(op)
    out = copy.deepcopy(vals[0])
    for v in vals[1:]:
        if k == "sum":
            out = out + v
        elif k == "min":
            out = np.minimum(out, v) if isinstance(out, np.ndarray) else min(out, v)
        elif k == "max":
            out = np.maximum(out, v) if isinstance(out, np.ndarray) else max(out, v)
        elif k == "land":
            out = bool(out) and bool(v)
        else:
            out = bool(out) or bool(v)
    return out


class Comm:
    def __init__(self, world, rank, group=None, cid="world"):
        self.w, self.group, self.cid = world, list(group or range(world.n)), cid
        self.me = rank
        self.rank, self.size = self.group.index(rank), len(self.group)
        self.seq = 0

    def __bool__(self):
        return True

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        m = [self.cid, self.rank, dest, tag, copy.deepcopy(obj), False]
        self.w.sent += 1
        self.w.box.append(m)
        if self.w.sync:
            self.w.wait_for(self.me, lambda: m[5])

    def ssend(self, obj, dest, tag=0):
        m = [self.cid, self.rank, dest, tag, copy.deepcopy(obj), False]
        self.w.sent += 1
        self.w.box.append(m)
        self.w.wait_for(self.me, lambda: m[5])

    def isend(self, obj, dest, tag=0):
        m = [self.cid, self.rank, dest, tag, copy.deepcopy(obj), False]
        self.w.sent += 1
        self.w.box.append(m)
        comm = self

        class Req:
            def wait(self, status=None):
                if comm.w.sync:
                    comm.w.wait_for(comm.me, lambda: m[5])

        return Req()

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        def find():
            for m in self.w.box:
                if m[0] == self.cid and m[2] == self.rank and not m[5] and (source < 0 or m[1] == source) and (tag < 0 or m[3] == tag):
                    return m

        self.w.wait_for(self.me, find)
        m = find()
        m[5] = True
        self.w.box.remove(m)
        return m[4]

    def _coll(self, val):
        k = (self.cid, self.seq)
        self.seq += 1
        d = self.w.coll.setdefault(k, {})
        d[self.rank] = copy.deepcopy(val)
        self.w.wait_for(self.me, lambda: len(d) == self.size)
        return [copy.deepcopy(d[i]) for i in range(self.size)]

    def bcast(self, obj, root=0):
        return self._coll(obj)[root]

    def barrier(self):
        self._coll(None)

    Barrier = barrier

    def gather(self, obj, root=0):
        v = self._coll(obj)
        return v if self.rank == root else None

    def allgather(self, obj):
        return self._coll(obj)

    def allreduce(self, obj, op=None):
        from mpi4py import MPI

        return reduce_(op or MPI.SUM, self._coll(obj))

    def reduce(self, obj, op=None, root=0):
        v = self.allreduce(obj, op)
        return v if self.rank == root else None

    def Reduce(self, a, b, op=None, root=0):
        v = self.allreduce(a, op)
        if self.rank == root:
            b[...] = v

    def Allreduce(self, a, b, op=None):
        b[...] = self.allreduce(a, op)


def job(n, fn, sync=False, order=None):
    """fn(comm) on n ranks -> list of ('ok', result) / ('raised', exception)."""
    w = World(n, sync, order)
    return w.run([lambda r=r: fn(Comm(w, r)) for r in range(n)]), w


def results(rs):
    bad = [(i, r[1]) for i, r in enumerate(rs) if r[0] != "ok"]
    assert not bad, f"ranks that raised: {[(i, type(e).__name__, str(e)) for i, e in bad]}"
    return [r[1] for r in rs]


def cells(p, t):
    """Cells as a set of coordinate tuples."""
    return sorted(tuple(sorted(map(tuple, c))) for c in np.round(p[t], 12).tolist())
