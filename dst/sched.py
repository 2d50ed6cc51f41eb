"""The one source of choice in a simulated run.

A Decider draws every decision from one seeded PRNG and records it; given a
recorded list it replays it instead, and answers 0 (the calmest choice: lowest
runnable rank first, eager sends, no clock jump) once the list is used up.
"""
import random

STRATEGIES = ("uniform", "priority", "starve", "lazy-net", "eager-net", "roundrobin", "calm")


class Decider:
    def __init__(self, seed=0, strategy=None, rndv=None, clock=None, replay=None):
        self.rng = random.Random(seed)
        self.trng = random.Random(f"time-{seed}")   # never drawn for decisions
        self.replay = list(replay) if replay is not None else None
        self.rec = []
        self.pos = 0
        r = self.rng
        self.strategy = strategy or r.choice(STRATEGIES[:6])
        self.rndv_mode = rndv or r.choice(("eager", "rendezvous", "size", "random"))
        self.rndv_size = r.choice((64, 512, 4096))
        self.rndv_p = r.random()
        self.clock = r.random() < 0.5 if clock is None else clock
        self.victim = None
        self.prio = {}
        self.steps = 0
        self.change = sorted(r.randrange(1, 400) for _ in range(r.randrange(0, 6)))
        self.last = -1

    # every draw passes here: n options, `fresh` says which one a new run takes
    def _draw(self, n, fresh):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
        else:
            v = fresh()
        self.pos += 1
        self.rec.append(v)
        return v

    def pick(self, acts):
        self.steps += 1
        return self._draw(len(acts), lambda: self._choose(acts))

    def _choose(self, acts):
        r, s = self.rng, self.strategy
        if s == "uniform":
            return r.randrange(len(acts))
        if s == "calm":
            return 0
        runs = [i for i, a in enumerate(acts) if a[0] == "run"]
        dlvs = [i for i, a in enumerate(acts) if a[0] == "dlv"]
        if s == "lazy-net":
            return r.choice(runs or dlvs)
        if s == "eager-net":
            return r.choice(dlvs or runs)
        if s == "roundrobin":
            if dlvs and r.random() < 0.5:
                return dlvs[0]
            if not runs:
                return dlvs[0]
            nxt = [i for i in runs if acts[i][1] > self.last] or runs
            self.last = acts[nxt[0]][1]
            return nxt[0]
        if s == "starve":
            if self.victim is None:
                ranks = [acts[i][1] for i in runs]
                self.victim = r.choice(ranks) if ranks else 0
            ok = [i for i, a in enumerate(acts) if not
                  (a == ("run", self.victim) or (a[0] == "dlv" and self.victim in a[1][2:4]))]
            return r.choice(ok or list(range(len(acts))))
        # priority: random fixed priorities, re-drawn at a few change points
        if self.change and self.steps >= self.change[0]:
            self.change.pop(0)
            if self.prio:
                k = r.choice(sorted(self.prio, key=repr))
                self.prio[k] = r.random() - 1.0
        for a in acts:
            self.prio.setdefault(a, r.random())
        return max(range(len(acts)), key=lambda i: self.prio[acts[i]])

    def rndv(self, nbytes, kind):
        def fresh():
            m = self.rndv_mode
            if m == "eager":
                return 0
            if m == "rendezvous":
                return 1
            if m == "size":
                return int(nbytes > self.rndv_size)
            return int(self.rng.random() < self.rndv_p)
        return bool(self._draw(2, fresh))

    # time has no influence on which steps are possible, so it is not recorded
    # as decisions; it is a function of the seed alone
    def cost(self, kind):
        return 1e-4 if kind == "run" else 5e-5

    def skew(self):
        return self.trng.uniform(-3600, 3600) if self.clock else 0.0

    def jump(self):
        if self.clock and self.trng.random() < 0.02:
            return self.trng.choice((-7200.0, -1.0, 30.0, 86400.0))
        return 0.0


def minimise(rec, fails, budget=200):
    """Shorten a failing decision list: drop the tail, then turn blocks into
    calm choices, as long as the same failure persists."""
    best = list(rec)
    tries = 0

    def attempt(c):
        nonlocal best, tries
        if tries >= budget:
            return False
        tries += 1
        if fails(c):
            best = c
            return True
        return False

    if attempt([]):
        return [], tries
    lo = 0
    n = len(best)
    while n > 1 and tries < budget:
        half = n // 2
        if attempt(best[:half]):
            n = half
        else:
            break
    block = max(1, len(best) // 2)
    while block >= 1 and tries < budget:
        i = lo
        while i < len(best) and tries < budget:
            if any(best[i:i + block]):
                c = best[:i] + [0] * len(best[i:i + block]) + best[i + block:]
                attempt(c)
            i += block
        block //= 2
    while best and best[-1] == 0:
        best.pop()
    return best, tries
