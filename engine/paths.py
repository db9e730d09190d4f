"""Exhaustive path exploration by re-execution, with z3 feasibility of every branch."""
import time

from . import sym as S
from . import solve
from .sym import SBool, Unsupported


class TooManyPaths(Exception):
    pass


class Path:
    def __init__(self, prefix, assume):
        self.prefix = prefix
        self.taken = []          # list of (SBool, bool)
        self.fix = {}            # cond id -> bool
        self.assume = list(assume)
        self.pending = []        # alternative prefixes found on this run
        self.solver = solve.PathSolver()
        for a in self.assume:
            self.solver.add(a)
            self._learn(a, True)

    def known(self, cid):
        return S.fix_lookup(self.fix, cid)

    def _learn(self, b, val):
        if not isinstance(b, SBool):
            return
        f = b.f
        if f[0] == "lit":
            self.fix[f[1]] = (f[2] == val)
        elif f[0] == "and" and val:
            for x in f[1]:
                self._learn(SBool(x), True)
        elif f[0] == "or" and not val:
            for x in f[1]:
                self._learn(SBool(x), False)

    def simplify(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        f = b.f
        if f[0] == "lit":
            v = self.known(f[1])
            return b if v is None else (v == f[2])
        xs = [self.simplify(SBool(x)) for x in f[1]]
        return S.b_and_list(xs) if f[0] == "and" else S.b_or_list(xs)

    def decide(self, b):
        b = self.simplify(b)
        if isinstance(b, bool):
            return b
        if b.f[0] in ("and", "or"):
            # literal by literal, so that every decision is a fact about one comparison
            stop = b.f[0] == "or"
            for x in b.f[1]:
                if self.decide(SBool(x)) == stop:
                    return stop
            return not stop
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.solver.feasible(b)
            f = self.solver.feasible(S.b_not(b))
            if not t and not f:
                raise InfeasiblePath()
            if t and f:
                self.pending.append([x for _, x in self.taken] + [False])
                v = True
            else:
                v = t
        self.taken.append((b, v))
        self.solver.add(b if v else S.b_not(b))
        self._learn(b, v)
        return v

    def conds(self):
        return self.assume + [b if v else S.b_not(b) for b, v in self.taken]


class InfeasiblePath(Exception):
    pass


def explore(fn, assume=(), max_paths=20000, deadline=None):
    """Yield (path, value or exception) for every feasible path of fn()."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        p = Path(prefix, assume)
        S.C.path = p
        try:
            try:
                val = ("ok", fn())
            except InfeasiblePath:
                val = None
            except (Unsupported, TooManyPaths):
                raise
            except Exception as e:        # an exception of the code under test is an outcome
                val = ("exc", e)
            n += 1
            if n > max_paths:
                raise TooManyPaths("more than %d paths" % max_paths)
            if deadline and time.time() > deadline:
                raise TooManyPaths("deadline")
            work.extend(p.pending)
            if val is not None:
                yield p, val
        finally:
            S.C.path = None
