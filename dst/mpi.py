"""A simulated MPI: N ranks of one job inside one process, every interleaving
decided by a Decider (seeded, or replaying a recorded decision list).

Each rank is a real thread, but only the thread holding the baton runs, and it
gives the baton back only at communication calls.  MPI ranks share no memory,
so switching at communication calls loses no behaviour.  Payloads of the
lower-case calls are pickled and unpickled, as mpi4py does.

What MPI leaves open, and the Decider therefore chooses:
  * which runnable rank proceeds, and which in-flight message arrives next
    (per (comm, source, destination) channel messages never overtake);
  * for each standard-mode send, whether it is buffered (eager) or completes
    only when the receive is posted (rendezvous);
  * whether a collective synchronises more than it has to;
  * which of several matching senders an ANY_SOURCE receive takes.
"""
import collections
import ctypes
import pickle
import random
import threading
import time
import weakref
import zlib

import numpy as np
from mpi4py import MPI

from . import env

ANY_SOURCE = MPI.ANY_SOURCE
ANY_TAG = MPI.ANY_TAG


class Killed(BaseException):
    """Raised inside a rank thread to unwind it when the run is over."""


class MPIError(RuntimeError):
    """What the MPI library itself would report (truncation, bad rank, ...)."""


class CollectiveMismatch(MPIError):
    pass


class Msg:
    __slots__ = ("seq", "cid", "src", "dst", "tag", "kind", "meta", "data",
                 "rndv", "matched", "delivered", "buf", "nbytes", "live")

    def __init__(self, seq, cid, src, dst, tag, kind, meta, data, rndv, buf):
        self.seq, self.cid, self.src, self.dst, self.tag = seq, cid, src, dst, tag
        self.kind, self.meta, self.data = kind, meta, data
        self.rndv, self.buf = rndv, buf
        self.nbytes = len(data)
        self.live = None      # where the bytes still to be sent are read from, if not from data
        self.matched = False
        self.delivered = False

    def brief(self):
        return dict(seq=self.seq, src=self.src, dst=self.dst, tag=self.tag,
                    kind=self.kind, nbytes=self.nbytes)


class Slot:
    """A posted receive."""
    __slots__ = ("cid", "source", "tag", "kind", "msg")

    def __init__(self, cid, source, tag, kind):
        self.cid, self.source, self.tag, self.kind = cid, source, tag, kind
        self.msg = None

    def takes(self, m):
        return (m.cid == self.cid and m.kind == self.kind and
                self.source in (ANY_SOURCE, m.src) and self.tag in (ANY_TAG, m.tag))


class Rank:
    def __init__(self, world, wrank, fn, package=None):
        self.world, self.wrank, self.fn, self.package = world, wrank, fn, package
        self.sem = threading.Semaphore(0)
        self.cond = None          # callable: may I proceed?
        self.wait = None          # description of what it waits for
        self.state = "ready"      # ready | blocked | done | failed
        self.result = None
        self.error = None
        self.out = []
        self.np_state = np.random.RandomState(12345).get_state()
        self.py_state = random.Random(12345).getstate()
        self.posted = []
        self.colseq = collections.Counter()
        self.steps = 0
        self.thread = None
        self.clock = 1.6e9        # this rank's own idea of the time
        self.polls = (-1, 0)      # (world version, failed polls since)
        self.woken = False


class World:
    """One simulated job."""

    def __init__(self, nranks, fns, decider, packages=None, max_steps=200000,
                 rng_states=None, on_step=None):
        self.decider = decider
        self.nranks = nranks
        packages = packages or [None] * nranks
        self.ranks = [Rank(self, r, fns[r], packages[r]) for r in range(nranks)]
        self.max_steps = max_steps
        self.steps = 0
        self.seq = 0
        self.chan = collections.OrderedDict()   # (cid,src,dst) -> deque in flight
        self.mbox = {r: [] for r in range(nranks)}  # delivered, unmatched
        self.main = threading.Semaphore(0)
        self.current = None
        self.killing = False
        self.trace = []
        self.now = 0.0
        self.stats = collections.Counter()
        self.comms = {}
        self.next_cid = 0
        self.world_group = tuple(range(nranks))
        self.wcid = self.new_cid()
        self.deadlock = None
        self.overrun = False
        self.version = 0          # grows whenever the outcome of a poll may change
        self.wakes = (0, 0)       # (version, pollers woken since for lack of anything else)
        self.mismatch = []
        self.on_step = on_step
        self.tap = None           # observer of messages as they are sent
        if rng_states:
            for r, (a, b) in zip(self.ranks, rng_states):
                r.np_state, r.py_state = a, b

    def new_cid(self):
        self.next_cid += 1
        return self.next_cid

    # ---- scheduling -----------------------------------------------------
    def log(self, *ev):
        self.trace.append(ev)

    def progress(self, rk):
        """Match delivered messages with posted receives, in posting order."""
        box = self.mbox[rk.wrank]
        for slot in list(rk.posted):
            for m in box:
                if slot.takes(m):
                    box.remove(m)
                    rk.posted.remove(slot)
                    if m.live is not None:
                        m.data = m.live()
                    m.matched = True
                    slot.msg = m
                    self.version += 1
                    self.log("rcv", m.cid, m.src, m.dst, m.tag, m.kind)
                    break

    def _thread_main(self, rk):
        rk.sem.acquire()
        try:
            if self.killing:
                raise Killed()
            comm = SimComm(self, self.wcid, self.world_group, rk.wrank)
            sm = rk.package[env.PKG] if rk.package else None
            rk.result = rk.fn(sm, comm)
            rk.state = "done"
        except Killed:
            rk.state = "killed"
        except BaseException as e:  # noqa: BLE001 - recorded, judged by oracle
            rk.error = e
            rk.state = "failed"
        finally:
            rk.cond = None
            self.main.release()

    def _switch_to(self, rk):
        prev = _TLS.world
        _TLS.world = self
        self.current = rk
        np_save, py_save = np.random.get_state(), random.getstate()
        np.random.set_state(rk.np_state)
        random.setstate(rk.py_state)
        rk.steps += 1
        mods = env.swap_package(rk.package) if rk.package else None
        if SWITCH_HOOK:
            SWITCH_HOOK(rk.wrank)
        rk.sem.release()
        self.main.acquire()
        if SWITCH_HOOK:
            SWITCH_HOOK(-1)
        if rk.package:
            env.swap_package(mods)
        rk.np_state, rk.py_state = np.random.get_state(), random.getstate()
        np.random.set_state(np_save)
        random.setstate(py_save)
        self.current = None
        _TLS.world = prev

    def _yield(self, rk, cond=None, wait=None):
        """Called in a rank thread: give the baton back until cond() holds."""
        rk.cond, rk.wait = cond, wait
        rk.state = "ready" if cond is None else "blocked"
        self.main.release()
        rk.sem.acquire()
        if self.killing:
            raise Killed()
        rk.cond = rk.wait = None
        rk.state = "ready"

    def run(self):
        for rk in self.ranks:
            rk.thread = threading.Thread(target=self._thread_main, args=(rk,), daemon=True)
            rk.thread.start()
            rk.clock += self.decider.skew()
        d = self.decider
        while True:
            acts = []
            for rk in self.ranks:
                if rk.state == "ready" or (rk.state == "blocked" and rk.cond()):
                    acts.append(("run", rk.wrank))
            for key, q in self.chan.items():
                if q:
                    acts.append(("dlv", key))
            if not acts:
                # nothing but ranks that poll: their clocks go on, they may give up
                idle = [rk for rk in self.ranks if rk.state == "blocked" and rk.wait and rk.wait[0] == "polling"]
                v, k = self.wakes if self.wakes[0] == self.version else (self.version, 0)
                if not idle or k >= 400:
                    break
                self.wakes = (v, k + 1)
                self.now += 1.0
                for rk in self.ranks:
                    rk.clock += 1.0
                for rk in idle:
                    rk.woken = True
                continue
            if self.steps >= self.max_steps:
                self.overrun = True
                break
            self.steps += 1
            i = d.pick(acts)
            kind, arg = acts[i]
            dt = d.cost(kind)
            self.now += dt
            for rk in self.ranks:
                rk.clock += dt
            if kind == "run":
                jump = d.jump()
                if jump:
                    self.ranks[arg].clock += jump
                    self.stats["clock_jump"] += 1
                self.log("run", arg)
                self._switch_to(self.ranks[arg])
                if self.on_step:
                    self.on_step(self)
            else:
                m = self.chan[arg].popleft()
                m.delivered = True
                self.version += 1
                self.mbox[arg[3]].append(m)
                self.progress(self.ranks[arg[3]])
                self.stats["delivered"] += 1
                self.log("dlv", m.cid, m.src, m.dst, m.tag, m.kind)
        live = [rk for rk in self.ranks if rk.state in ("ready", "blocked")]
        if live and not self.overrun:
            self.deadlock = [dict(rank=rk.wrank, waiting_for=rk.wait) for rk in live]
        if live:
            self.killing = True
            for rk in live:
                rk.sem.release()
                self.main.acquire()
        for rk in self.ranks:
            rk.thread.join(30)
        self.leftover = [m.brief() for q in self.chan.values() for m in q]
        self.leftover += [m.brief() for b in self.mbox.values() for m in b]
        return self


SWITCH_HOOK = None    # told which rank's code runs from now on (-1: none)


class _Tls:
    world = None


_TLS = _Tls()


def current_rank():
    w = _TLS.world
    return None if w is None else w.current


def _dump(obj):
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


def _bufarr(buf):
    """mpi4py buffer spec -> contiguous ndarray view (no copy)."""
    if isinstance(buf, (list, tuple)):
        arr = buf[0]
    else:
        arr = buf
    arr = np.asarray(arr) if not isinstance(arr, np.ndarray) else arr
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    return arr


def _freed(m):
    """The bytes of a message whose memory was given back before it was sent."""
    return bytes(len(m.data))


def _unheld(buf, n):
    """Reads the n bytes of an array that the request doesn't hold any longer: as
    long as somebody else holds the memory, and garbage afterwards."""
    a = _bufarr(buf)
    owner, at = a, a.__array_interface__["data"][0]
    while isinstance(owner.base, np.ndarray):
        owner = owner.base
    ref = weakref.ref(owner)
    return lambda: ctypes.string_at(at, n) if ref() is not None else bytes(n)


class Request:
    def __init__(self, comm, done, finish, desc, msg=None, buf=None):
        self.comm, self._done, self._finish, self._desc = comm, done, finish, desc
        self._completed = False
        self._value = None
        self._msg, self._buf = msg, buf
        if msg is not None and msg.rndv and buf is not None:
            # MPI may read the buffer until the request completes
            msg.live = lambda: _bufarr(buf).tobytes(order="A")

    def __del__(self):
        # mpi4py keeps what is being sent alive only as long as the request
        m = self._msg
        if m is not None and m.rndv and not m.matched and not self.comm._w.killing:
            m.live = (lambda: _freed(m)) if self._buf is None else _unheld(self._buf, len(m.data))

    def _complete(self, status=None):
        if not self._completed:
            self._value = self._finish(status)
            self._completed = True
        return self._value

    def wait(self, status=None):
        if not self._completed and not self._done():
            self.comm._block(self._done, self._desc)
        return self._complete(status)

    Wait = wait

    def test(self, status=None):
        self.comm._point()
        if self._completed or self._done():
            return True, self._complete(status)
        self.comm._poll_failed()
        return False, None

    def Test(self, status=None):
        return self.test(status)[0]

    def cancel(self):
        raise NotImplementedError

    Cancel = cancel

    def Free(self):
        pass

    free = Free

    @staticmethod
    def testall(reqs, statuses=None):
        if reqs:
            reqs[0].comm._point()
        if all(r._completed or r._done() for r in reqs):
            return True, [r._complete() for r in reqs]
        reqs[0].comm._poll_failed()
        return False, None

    @staticmethod
    def Testall(reqs, statuses=None):
        return Request.testall(reqs)[0]

    @staticmethod
    def testany(reqs, status=None):
        if reqs:
            reqs[0].comm._point()
        for i, r in enumerate(reqs):
            if not r._completed and r._done():
                return i, True, r._complete(status)
        if all(r._completed for r in reqs):
            return MPI.UNDEFINED, True, None
        reqs[0].comm._poll_failed()
        return MPI.UNDEFINED, False, None

    @staticmethod
    def waitsome(reqs, statuses=None):
        if all(r._completed for r in reqs):
            return None, None
        i, v = Request.waitany(reqs)
        ix, vs = [i], [v]
        for j, r in enumerate(reqs):
            if not r._completed and r._done():
                ix.append(j)
                vs.append(r._complete())
        return ix, vs

    @staticmethod
    def Waitany(reqs, status=None):
        return Request.waitany(reqs, status)[0]

    @staticmethod
    def Waitsome(reqs, statuses=None):
        return Request.waitsome(reqs)[0]

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    @staticmethod
    def Waitall(reqs, statuses=None):
        for r in reqs:
            r.wait()
        return True

    @staticmethod
    def waitany(reqs, status=None):
        if all(r._completed for r in reqs):
            return MPI.UNDEFINED, None
        while True:
            for i, r in enumerate(reqs):
                if not r._completed and r._done():
                    return i, r._complete(status)
            c = reqs[0].comm
            c._block(lambda: any(r._done() for r in reqs if not r._completed), ("waitany",))


class SimComm:
    """Looks like an mpi4py Intracomm to the code under test."""

    def __init__(self, world, cid, group, wrank):
        self._w, self._cid, self._group = world, cid, tuple(group)
        self._rk = world.ranks[wrank]
        self._me = self._group.index(wrank)

    def __bool__(self):
        return True

    def __eq__(self, other):
        return isinstance(other, SimComm) and other._cid == self._cid

    def __hash__(self):
        return hash(self._cid)

    def __deepcopy__(self, memo):
        return self

    # -- plumbing
    def _point(self):
        self._w._yield(self._rk)

    def _block(self, cond, wait):
        self._w._yield(self._rk, cond, wait)

    def _poll_failed(self):
        """A rank that polls in vain is not run for ever while others could: after
        a few attempts it waits until the outcome may have changed."""
        w, rk = self._w, self._rk
        v, k = rk.polls if rk.polls[0] == w.version else (w.version, 0)
        rk.polls = (v, k + 1)
        if k >= 3:
            rk.woken = False
            self._block(lambda: w.version != v or rk.woken, ("polling",))

    def _peer(self, r, what):
        if isinstance(r, np.generic):
            r = r.item()
        if not isinstance(r, int) or not 0 <= r < len(self._group):
            raise MPIError(f"MPI_ERR_RANK: invalid {what} {r!r} on a communicator of size {len(self._group)}")
        return r

    def _post(self, dest, tag, data, kind="p2p", meta=None, sync=None, buf=False):
        w = self._w
        if dest == MPI.PROC_NULL:
            return None
        dest = self._peer(dest, "destination")
        rndv = w.decider.rndv(len(data), kind) if sync is None else sync
        w.seq += 1
        m = Msg(w.seq, self._cid, self._me, dest, tag, kind, meta, data, rndv, buf)
        # point-to-point and collective traffic are separate contexts
        key = (self._cid, kind, self._rk.wrank, self._group[dest])
        w.chan.setdefault(key, collections.deque()).append(m)
        w.stats["sent"] += 1
        w.stats["rendezvous" if rndv else "eager"] += 1
        w.log("snd", self._cid, self._me, dest, tag, kind, len(data), hash_bytes(data))
        if w.tap:
            w.tap(self._rk.wrank, self._group[dest], kind, data)
        return m

    def _post_recv(self, source, tag, kind):
        slot = Slot(self._cid, source, tag, kind)
        self._rk.posted.append(slot)
        self._w.progress(self._rk)
        return slot

    def _recv_msg(self, source, tag, kind="p2p", wait=None):
        if source != ANY_SOURCE:
            source = self._peer(source, "source")
        if kind == "p2p":
            self._point()
        slot = self._post_recv(source, tag, kind)
        if slot.msg is None:
            self._block(lambda: slot.msg is not None, wait or ("recv", "from", source, "tag", tag))
        return slot.msg

    def _peek(self, source, tag):
        for m in self._w.mbox[self._rk.wrank]:
            if Slot(self._cid, source, tag, "p2p").takes(m):
                return m
        return None

    @staticmethod
    def _status(status, m):
        if status is not None:
            status.source, status.tag, status.nbytes = m.src, m.tag, m.nbytes

    # -- identity
    @property
    def rank(self):
        return self._me

    @property
    def size(self):
        return len(self._group)

    def Get_rank(self):
        return self._me

    def Get_size(self):
        return len(self._group)

    @property
    def name(self):
        return "SIM"

    def Get_name(self):
        return "SIM"

    # -- point to point, objects
    def send(self, obj, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _dump(obj))
        if m is not None and m.rndv:
            self._block(lambda: m.matched, ("send", "to", dest, "tag", tag))

    def ssend(self, obj, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _dump(obj), sync=True)
        if m is not None:
            self._block(lambda: m.matched, ("ssend", "to", dest, "tag", tag))

    def bsend(self, obj, dest, tag=0):
        self._point()
        self._post(dest, tag, _dump(obj), sync=False)

    def isend(self, obj, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _dump(obj))
        return Request(self, lambda: m is None or not m.rndv or m.matched,
                       lambda s: None, ("isend", "to", dest, "tag", tag), m)

    ibsend = isend

    def issend(self, obj, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _dump(obj), sync=True)
        return Request(self, lambda: m is None or m.matched, lambda s: None,
                       ("issend", "to", dest, "tag", tag), m)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == MPI.PROC_NULL:
            return None
        m = self._recv_msg(source, tag)
        self._status(status, m)
        return pickle.loads(m.data)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        if source == MPI.PROC_NULL:
            return Request(self, lambda: True, lambda s: None, ("irecv",))
        if source != ANY_SOURCE:
            source = self._peer(source, "source")
        self._point()
        slot = self._post_recv(source, tag, "p2p")

        def finish(status):
            self._status(status, slot.msg)
            return pickle.loads(slot.msg.data)

        return Request(self, lambda: slot.msg is not None, finish, ("irecv", "from", source, "tag", tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self.isend(sendobj, dest, sendtag) if dest != MPI.PROC_NULL else None
        v = self.recv(None, source, recvtag, status)
        if r:
            r.wait()
        return v

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._point()
        m = self._peek(source, tag)
        if m is not None:
            self._status(status, m)
        else:
            self._poll_failed()
        return m is not None

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._point()
        if self._peek(source, tag) is None:
            self._block(lambda: self._peek(source, tag) is not None, ("probe", "from", source, "tag", tag))
        self._status(status, self._peek(source, tag))
        return True

    Probe = probe

    # -- point to point, buffers
    def Send(self, buf, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _bufarr(buf).tobytes(order="A"), buf=True)
        if m is not None and m.rndv:
            self._block(lambda: m.matched, ("Send", "to", dest, "tag", tag))

    def Ssend(self, buf, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _bufarr(buf).tobytes(order="A"), buf=True, sync=True)
        self._block(lambda: m.matched, ("Ssend", "to", dest, "tag", tag))

    def Isend(self, buf, dest, tag=0):
        self._point()
        m = self._post(dest, tag, _bufarr(buf).tobytes(order="A"), buf=True)
        return Request(self, lambda: m is None or not m.rndv or m.matched,
                       lambda s: True, ("Isend", "to", dest, "tag", tag), m, buf)

    @staticmethod
    def _fill(buf, data):
        arr = _bufarr(buf)
        if len(data) > arr.nbytes:
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        flat = arr.reshape(-1, order="A").view(np.uint8)
        flat[: len(data)] = np.frombuffer(data, dtype=np.uint8)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = self._recv_msg(source, tag)
        self._status(status, m)
        self._fill(buf, m.data)

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        if source == MPI.PROC_NULL:
            return Request(self, lambda: True, lambda s: True, ("Irecv",))
        self._point()
        slot = self._post_recv(source, tag, "p2p")

        def finish(status):
            self._status(status, slot.msg)
            self._fill(buf, slot.msg.data)
            return True

        return Request(self, lambda: slot.msg is not None, finish, ("Irecv", "from", source, "tag", tag))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self.Isend(sendbuf, dest, sendtag)
        self.Recv(recvbuf, source, recvtag, status)
        r.wait()

    # -- collectives, built from internal messages that carry what the rank
    #    thinks the collective is; a disagreement is an MPI usage error
    def _col(self, kind, root=None):
        self._point()
        if root is not None:
            root = self._peer(root, "root")
        n = self._rk.colseq[self._cid]
        self._rk.colseq[self._cid] += 1
        return (n, kind, root)

    def _csend(self, sig, dest, obj):
        m = self._post(dest, -1, _dump(obj), kind="coll", meta=sig)
        if m.rndv:
            self._block(lambda: m.matched, (sig[1], "#", sig[0], "to", dest))

    def _crecv(self, sig, src):
        m = self._recv_msg(src, ANY_TAG, "coll", (sig[1], "#", sig[0], "from", src))
        if m.meta != sig:
            self._w.mismatch.append(dict(rank=self._me, here=sig, there=m.meta, src=src))
            raise CollectiveMismatch(f"rank {self._me} is in collective {sig}, rank {src} sent {m.meta}")
        return pickle.loads(m.data)

    def bcast(self, obj=None, root=0):
        sig = self._col("bcast", root)
        root = sig[2]
        if self._me == root:
            for r in range(self.size):
                if r != root:
                    self._csend(sig, r, obj)
            return obj
        return self._crecv(sig, root)

    def _gather(self, sig, obj, root):
        if self._me == root:
            out = [None] * self.size
            out[root] = obj
            for r in range(self.size):
                if r != root:
                    out[r] = self._crecv(sig, r)
            return out
        self._csend(sig, root, obj)
        return None

    def gather(self, sendobj, root=0):
        sig = self._col("gather", root)
        return self._gather(sig, sendobj, sig[2])

    def scatter(self, sendobj=None, root=0):
        sig = self._col("scatter", root)
        root = sig[2]
        if self._me == root:
            items = list(sendobj)
            if len(items) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(items)}")
            for r in range(self.size):
                if r != root:
                    self._csend(sig, r, items[r])
            return items[root]
        return self._crecv(sig, root)

    def _gather_bcast(self, sig, obj):
        out = self._gather(sig, obj, 0)
        if self._me == 0:
            for r in range(1, self.size):
                self._csend(sig, r, out)
            return out
        return self._crecv(sig, 0)

    def allgather(self, sendobj):
        return self._gather_bcast(self._col("allgather"), sendobj)

    def alltoall(self, sendobj):
        sig = self._col("alltoall")
        items = list(sendobj)
        if len(items) != self.size:
            raise ValueError(f"expecting {self.size} items, got {len(items)}")
        rows = self._gather_bcast(sig, items)
        return [rows[r][self._me] for r in range(self.size)]

    @staticmethod
    def _fold(op, vals):
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def reduce(self, sendobj, op=MPI.SUM, root=0):
        sig = self._col("reduce", root)
        vals = self._gather(sig, sendobj, sig[2])
        return None if vals is None else self._fold(op, vals)

    def allreduce(self, sendobj, op=MPI.SUM):
        vals = self._gather_bcast(self._col("allreduce"), sendobj)
        return self._fold(op, vals)

    def scan(self, sendobj, op=MPI.SUM):
        vals = self._gather_bcast(self._col("scan"), sendobj)
        return self._fold(op, vals[: self._me + 1])

    def exscan(self, sendobj, op=MPI.SUM):
        vals = self._gather_bcast(self._col("exscan"), sendobj)
        return None if self._me == 0 else self._fold(op, vals[: self._me])

    def barrier(self):
        self._gather_bcast(self._col("barrier"), None)

    Barrier = barrier

    _NPOP = {"MPI_SUM": np.add, "MPI_MIN": np.minimum, "MPI_MAX": np.maximum, "MPI_PROD": np.multiply,
             "MPI_LAND": np.logical_and, "MPI_LOR": np.logical_or, "MPI_LXOR": np.logical_xor,
             "MPI_BAND": np.bitwise_and, "MPI_BOR": np.bitwise_or, "MPI_BXOR": np.bitwise_xor}

    @classmethod
    def _npfold(cls, op, rows):
        f = None
        for name in ("SUM", "MIN", "MAX", "PROD", "LAND", "LOR", "LXOR", "BAND", "BOR", "BXOR"):
            if op == getattr(MPI, name):
                f = cls._NPOP["MPI_" + name]
        if f is None:
            raise NotImplementedError(f"reduction {op}")
        acc = rows[0].copy()
        for r in rows[1:]:
            if r.nbytes != acc.nbytes:
                raise MPIError("MPI_ERR_TRUNCATE: reduction buffers differ in length")
            acc = f(acc, r).astype(acc.dtype)
        return acc

    def _sendarr(self, sendbuf, recvbuf):
        if sendbuf is MPI.IN_PLACE or (isinstance(sendbuf, type(MPI.IN_PLACE)) and not isinstance(sendbuf, np.ndarray)):
            return _bufarr(recvbuf)
        return _bufarr(sendbuf)

    def Reduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        sig = self._col("Reduce", root)
        rows = self._gather(sig, np.array(self._sendarr(sendbuf, recvbuf)), sig[2])
        if rows is not None:
            self._fill(recvbuf, self._npfold(op, rows).tobytes(order="A"))

    def Allreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        rows = self._gather_bcast(self._col("Allreduce"), np.array(self._sendarr(sendbuf, recvbuf)))
        self._fill(recvbuf, self._npfold(op, rows).tobytes(order="A"))

    def Bcast(self, buf, root=0):
        sig = self._col("Bcast", root)
        root = sig[2]
        if self._me == root:
            data = _bufarr(buf).tobytes(order="A")
            for r in range(self.size):
                if r != root:
                    self._csend(sig, r, data)
        else:
            self._fill(buf, self._crecv(sig, root))

    def Gather(self, sendbuf, recvbuf, root=0):
        sig = self._col("Gather", root)
        rows = self._gather(sig, _bufarr(sendbuf).tobytes(order="A"), sig[2])
        if rows is not None:
            self._fill(recvbuf, b"".join(rows))

    def Allgather(self, sendbuf, recvbuf):
        rows = self._gather_bcast(self._col("Allgather"), np.array(self._sendarr(sendbuf, recvbuf)).tobytes())
        self._fill(recvbuf, b"".join(rows))

    def Scatter(self, sendbuf, recvbuf, root=0):
        sig = self._col("Scatter", root)
        if self._me == sig[2]:
            data = _bufarr(sendbuf).tobytes(order="A")
            k = len(data) // self.size
            for r in range(self.size):
                if r != self._me:
                    self._csend(sig, r, data[r * k:(r + 1) * k])
            mine = data[self._me * k:(self._me + 1) * k]
        else:
            mine = self._crecv(sig, sig[2])
        self._fill(recvbuf, mine)

    # several lengths: [buffer, counts] or [buffer, (counts, displacements)] in items
    def _parts(self, spec):
        if not isinstance(spec, (list, tuple)):
            arr, rest = _bufarr(spec), []
        else:
            arr, rest = _bufarr(spec[0]), [x for x in spec[1:] if not isinstance(x, MPI.Datatype)]
        if len(rest) == 1 and isinstance(rest[0], (list, tuple)) and len(rest[0]) == 2 and not np.isscalar(rest[0][0]):
            rest = list(rest[0])
        n = self.size
        counts = [arr.size // n] * n if not rest or rest[0] is None else [int(x) for x in rest[0]]
        displs = [int(x) for x in rest[1]] if len(rest) > 1 and rest[1] is not None else [sum(counts[:i]) for i in range(n)]
        k = arr.itemsize
        return arr, [(d * k, c * k) for d, c in zip(displs, counts)]

    def _cut(self, spec):
        arr, parts = self._parts(spec)
        data = arr.tobytes(order="A")
        return [data[o:o + k] for o, k in parts]

    def _place(self, spec, rows):
        arr, parts = self._parts(spec)
        flat = arr.reshape(-1, order="A").view(np.uint8)
        for (o, k), row in zip(parts, rows):
            if len(row) > k:
                raise MPIError("MPI_ERR_TRUNCATE: message truncated")
            flat[o:o + len(row)] = np.frombuffer(row, dtype=np.uint8)

    @staticmethod
    def _whole(spec):
        if isinstance(spec, (list, tuple)):
            arr = _bufarr(spec[0])
            n = spec[1] if len(spec) > 1 and not isinstance(spec[1], MPI.Datatype) else None
            n = n[0] if isinstance(n, (list, tuple)) else n
            return arr.tobytes(order="A")[: None if n is None else int(n) * arr.itemsize]
        return _bufarr(spec).tobytes(order="A")

    def Gatherv(self, sendbuf, recvbuf, root=0):
        sig = self._col("Gatherv", root)
        rows = self._gather(sig, self._whole(sendbuf), sig[2])
        if rows is not None:
            self._place(recvbuf, rows)

    def Allgatherv(self, sendbuf, recvbuf):
        self._place(recvbuf, self._gather_bcast(self._col("Allgatherv"), self._whole(sendbuf)))

    def Scatterv(self, sendbuf, recvbuf, root=0):
        sig = self._col("Scatterv", root)
        if self._me == sig[2]:
            rows = self._cut(sendbuf)
            for r in range(self.size):
                if r != self._me:
                    self._csend(sig, r, rows[r])
            mine = rows[self._me]
            if recvbuf is MPI.IN_PLACE:
                return
        else:
            mine = self._crecv(sig, sig[2])
        self._fill(recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf, mine)

    def Alltoallv(self, sendbuf, recvbuf):
        rows = self._gather_bcast(self._col("Alltoallv"), self._cut(sendbuf))
        self._place(recvbuf, [rows[r][self._me] for r in range(self.size)])

    def Alltoall(self, sendbuf, recvbuf):
        rows = self._gather_bcast(self._col("Alltoall"), self._cut(sendbuf))
        self._place(recvbuf, [rows[r][self._me] for r in range(self.size)])

    def Scan(self, sendbuf, recvbuf, op=MPI.SUM):
        rows = self._gather_bcast(self._col("Scan"), np.array(self._sendarr(sendbuf, recvbuf)))
        self._fill(recvbuf, self._npfold(op, rows[: self._me + 1]).tobytes(order="A"))

    def Exscan(self, sendbuf, recvbuf, op=MPI.SUM):
        rows = self._gather_bcast(self._col("Exscan"), np.array(self._sendarr(sendbuf, recvbuf)))
        if self._me:
            self._fill(recvbuf, self._npfold(op, rows[: self._me]).tobytes(order="A"))

    # -- collectives that complete later: all messages are under way when the call returns
    def _start(self, kind, root, out, srcs, finish):
        """`out`: {rank: object} to send; `srcs`: ranks to hear from; finish(rows) at completion."""
        sig = self._col(kind, root)
        sent = [self._post(r, -1, _dump(o), kind="coll", meta=sig) for r, o in out.items()]
        slots = {r: self._post_recv(r, ANY_TAG, "coll") for r in srcs}

        def done():
            return all(not m.rndv or m.matched for m in sent) and all(q.msg is not None for q in slots.values())

        def complete(status):
            rows = {}
            for r, q in slots.items():
                if q.msg.meta != sig:
                    self._w.mismatch.append(dict(rank=self._me, here=sig, there=q.msg.meta, src=r))
                    raise CollectiveMismatch(f"rank {self._me} is in collective {sig}, rank {r} sent {q.msg.meta}")
                rows[r] = pickle.loads(q.msg.data)
            return finish(rows)

        return Request(self, done, complete, (kind, "#", sig[0]))

    def _others(self):
        return [r for r in range(self.size) if r != self._me]

    def _start_all(self, kind, obj, finish):
        def every(rows):
            rows[self._me] = obj
            return finish([rows[r] for r in range(self.size)])

        return self._start(kind, None, {r: obj for r in self._others()}, self._others(), every)

    def _start_root(self, kind, root, obj, finish):
        root = self._peer(root, "root")

        def every(rows):
            if self._me != root:
                return None
            rows[root] = obj
            return finish([rows[r] for r in range(self.size)])

        return self._start(kind, root, {} if self._me == root else {root: obj}, self._others() if self._me == root else [], every)

    def ibarrier(self):
        return self._start_all("ibarrier", None, lambda rows: None)

    Ibarrier = ibarrier

    def Ibcast(self, buf, root=0):
        root = self._peer(root, "root")
        if self._me == root:
            data = _bufarr(buf).tobytes(order="A")
            return self._start("Ibcast", root, {r: data for r in self._others()}, [], lambda rows: None)
        return self._start("Ibcast", root, {}, [root], lambda rows: self._fill(buf, rows[root]))

    def Ireduce(self, sendbuf, recvbuf, op=MPI.SUM, root=0):
        return self._start_root("Ireduce", root, np.array(self._sendarr(sendbuf, recvbuf)),
                                lambda rows: self._fill(recvbuf, self._npfold(op, rows).tobytes(order="A")))

    def Iallreduce(self, sendbuf, recvbuf, op=MPI.SUM):
        return self._start_all("Iallreduce", np.array(self._sendarr(sendbuf, recvbuf)),
                               lambda rows: self._fill(recvbuf, self._npfold(op, rows).tobytes(order="A")))

    def Igather(self, sendbuf, recvbuf, root=0):
        return self._start_root("Igather", root, _bufarr(sendbuf).tobytes(order="A"), lambda rows: self._fill(recvbuf, b"".join(rows)))

    def Igatherv(self, sendbuf, recvbuf, root=0):
        return self._start_root("Igatherv", root, self._whole(sendbuf), lambda rows: self._place(recvbuf, rows))

    def Iallgather(self, sendbuf, recvbuf):
        return self._start_all("Iallgather", np.array(self._sendarr(sendbuf, recvbuf)).tobytes(), lambda rows: self._fill(recvbuf, b"".join(rows)))

    def Iallgatherv(self, sendbuf, recvbuf):
        return self._start_all("Iallgatherv", self._whole(sendbuf), lambda rows: self._place(recvbuf, rows))

    def Is_inter(self):
        return False

    is_inter = property(Is_inter)

    def Is_intra(self):
        return True

    is_intra = property(Is_intra)

    # -- communicators
    def Split(self, color=0, key=0):
        rows = self._gather_bcast(self._col("Split"), (color, key))
        sig = self._col("Split/cid")
        # one context id per (parent, colour), agreed through rank 0
        if self._me == 0:
            cids = {}
            for c, _ in rows:
                if c not in cids:
                    cids[c] = self._w.new_cid()
            for r in range(1, self.size):
                self._csend(sig, r, cids)
        else:
            cids = self._crecv(sig, 0)
        if color == MPI.UNDEFINED:
            return None
        members = sorted((k, r) for r, (c, k) in enumerate(rows) if c == color)
        return SimComm(self._w, cids[color], [self._group[r] for _, r in members], self._rk.wrank)

    def Dup(self, info=None):
        return self.Split(0, self._me)

    Clone = Dup

    def Create_cart(self, dims, periods=None, reorder=False):
        raise NotImplementedError("cartesian topologies are not simulated")

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def Free(self):
        pass

    Disconnect = Free

    def Abort(self, errorcode=0):
        raise MPIError(f"MPI_Abort({errorcode})")


class WorldProxy:
    """Stands for MPI.COMM_WORLD: the world of whichever simulated rank runs,
    and a world of one outside a simulation."""

    def _comm(self):
        rk = current_rank()
        if rk is None:
            return _SELF
        return SimComm(rk.world, rk.world.wcid, rk.world.world_group, rk.wrank)

    def __getattr__(self, name):
        return getattr(self._comm(), name)

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self


class _SelfComm(SimComm):
    """A communicator of one, outside any simulation: never yields."""

    def __init__(self):
        class _D:
            def rndv(self, n, k):
                return False

            def pick(self, acts):
                return 0

        w = World.__new__(World)
        w.decider, w.chan, w.mbox, w.stats, w.seq, w.trace = _D(), collections.OrderedDict(), {0: []}, collections.Counter(), 0, []
        w.mismatch = []
        w.version = 0
        w.next_cid = 0
        rk = Rank(w, 0, None)
        w.ranks = [rk]
        super().__init__(w, 0, (0,), 0)

    def _point(self):
        # deliver everything at once
        for q in self._w.chan.values():
            while q:
                self._w.mbox[0].append(q.popleft())
        self._w.progress(self._rk)

    def _poll_failed(self):
        pass

    def _block(self, cond, wait):
        self._point()
        if not cond():
            raise MPIError(f"deadlock on a communicator of one: {wait}")


def hash_bytes(b):
    return zlib.crc32(b)


class Status:
    """Stands for MPI.Status."""

    def __init__(self):
        self.source, self.tag, self.nbytes, self.error = ANY_SOURCE, ANY_TAG, 0, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return 0

    def Get_count(self, datatype=None):
        size = 1
        if datatype is not None:
            size = datatype.Get_size()
        return self.nbytes // size

    @property
    def count(self):
        return self.nbytes


_SELF = None


def install():
    """Put the simulated world where the code looks for MPI.COMM_WORLD."""
    global _SELF
    if _SELF is None:
        _SELF = _SelfComm()
        MPI.COMM_WORLD = WorldProxy()
        MPI.COMM_SELF = _SELF
        MPI.Request = Request
        MPI.Status = Status
        MPI.Wtime = time.time
        install_clock()


_REAL_CLOCK = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}


def real_time():
    return _REAL_CLOCK["perf_counter"]()


def install_clock():
    """A simulated rank reads its own clock: world time plus skew and jumps."""

    def make(real):
        def read():
            rk = current_rank()
            return real() if rk is None else rk.clock
        return read

    for n, real in _REAL_CLOCK.items():
        setattr(time, n, make(real))
    time.time_ns = lambda: int(time.time() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(time.perf_counter() * 1e9)
    real_sleep = time.sleep

    def sleep(seconds):
        rk = current_rank()
        if rk is None:
            return real_sleep(seconds)
        rk.clock += seconds
        rk.world._yield(rk)

    time.sleep = sleep


class RankOut:
    """sys.stdout that keeps each simulated rank's output apart."""

    def __init__(self, real):
        self.real = real

    def write(self, s):
        rk = current_rank()
        if rk is None:
            return self.real.write(s)
        rk.out.append(s)
        return len(s)

    def flush(self):
        if current_rank() is None:
            self.real.flush()

    def __getattr__(self, name):
        return getattr(self.real, name)
