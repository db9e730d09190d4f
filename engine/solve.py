"""SMT back end: emission of canonical symbolic values to z3 (linear real arithmetic over monomials,
with the boxes of the monomials), queries, refinement and statistics."""
import math
import time

import z3

from . import sym as S
from .sym import Sym, SBool


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.refine = 0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown, solver_s=round(self.time, 3), refinements=self.refine)


STATS = Stats()
_vars = {}
_ids = [None]


_cond = {}
_and = {}
_num = {}


def _fresh():
    if _ids[0] is not S.C.atoms:
        _vars.clear()
        _cond.clear()
        _and.clear()
        _ids[0] = S.C.atoms


def rv(x):
    r = _num.get(x)
    if r is None:
        if len(_num) > 200000:
            _num.clear()
        r = _num[x] = _rv(x)
    return r


def _rv(x):
    if x == int(x) and abs(x) < 1e15:
        return z3.RealVal(int(x))
    return z3.RealVal(repr(float(x))) if "e" not in repr(float(x)) else z3.RealVal(_dec(x))


def _dec(x):
    from fractions import Fraction
    f = Fraction(repr(float(x)))
    return "%d/%d" % (f.numerator, f.denominator)


ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def _sum(ts):
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    n = len(ts)
    arr = (z3.Ast * n)(*[t.as_ast() for t in ts])
    return z3.ArithRef(z3.Z3_mk_add(_CTX.ref(), n, arr), _CTX)


_CTX = z3.main_ctx()


class Emit:
    """Emission environment: remembers which monomial variables are used, to add their boxes."""

    def __init__(self, boxes=None):
        _fresh()
        self.used = {}
        self.seen = set()
        self.boxes = boxes       # optional {var: (lo, hi)} overriding the declared boxes
        self._ivc = {}

    def mono(self, m):
        inds = tuple(a for a, _ in m if S.C.atoms[a].kind == "ind")
        if not inds:
            return self._var(m)
        rest = tuple(x for x in m if S.C.atoms[x[0]].kind != "ind")
        v = self._var(rest) if rest else ONE
        c = self._conj(inds)
        return z3.If(c, v, ZERO)

    def _var(self, rest):
        v = self.used.get(rest)
        if v is None:
            v = _vars.get(rest)
            if v is None:
                name = "m%d" % len(_vars) if len(rest) != 1 or S.C.atoms[rest[0][0]].kind != "var" or rest[0][1] != 1 else "v_" + S.C.atoms[rest[0][0]].data
                v = _vars[rest] = z3.Real(name)
            self.used[rest] = v
        return v

    def _conj(self, inds):
        cs = [S.C.atoms[a].data for a in inds]
        for c in cs:
            self._need(c)
        if len(cs) == 1:
            return _cond[cs[0]][0]
        r = _and.get(inds)
        if r is None:
            r = _and[inds] = z3.And(*[_cond[c][0] for c in cs])
        return r

    def _need(self, cid):
        """the cached encoding of a comparison; its monomials join this query"""
        if cid in self.seen:
            return
        r = _cond.get(cid)
        if r is None:
            base, k, st = S.C.conds[cid]
            sub = Emit(self.boxes)
            e = sub.poly(base)
            kk = rv(k)
            r = _cond[cid] = (e < kk if st else e <= kk, tuple(sub.used.items()), tuple(sub.seen))
        self.seen.add(cid)
        self.used.update(r[1])
        self.seen.update(r[2])

    def poly(self, s):
        if not isinstance(s, Sym):
            return rv(float(s))
        # monomials grouped by their indicator part: If(c, sum, 0)
        groups = {}
        for m, c in s.t.items():
            inds = tuple(a for a, _ in m if S.C.atoms[a].kind == "ind")
            rest = m if not inds else tuple(x for x in m if S.C.atoms[x[0]].kind != "ind")
            groups.setdefault(inds, []).append(rv(c) * self._var(rest) if rest else rv(c))
        parts = []
        for inds, ts in groups.items():
            e = _sum(ts)
            parts.append(z3.If(self._conj(inds), e, ZERO) if inds else e)
        return _sum(parts)

    def cond(self, cid):
        self._need(cid)
        return _cond[cid][0]

    def boolean(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        f = b.f
        if f[0] == "lit":
            c = self.cond(f[1])
            return c if f[2] else z3.Not(c)
        xs = [self.boolean(SBool(x)) for x in f[1]]
        return z3.And(*xs) if f[0] == "and" else z3.Or(*xs)

    def iv(self, m):
        if self.boxes is None:
            return S.iv_mono(m)
        return iv_mono_box(m, self.boxes, self._ivc)

    def mccormick(self, limit=400):
        """convex envelopes of the products in use (only sound facts about real products)"""
        out = []
        todo = [m for m in self.used if len(m) > 1]
        seen = set()
        while todo and len(seen) < limit:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            ex = tuple(x for x in m if S.C.atoms[x[0]].kind == "exp")
            parts = ([ex] if ex else []) + [(x,) for x in m if S.C.atoms[x[0]].kind != "exp"]
            if len(parts) < 2:
                continue
            x = parts[0]
            y = tuple(z for z in m if z not in x)
            xl, xu = self.iv(x)
            yl, yu = self.iv(y)
            if not all(math.isfinite(q) and abs(q) < 1e12 for q in (xl, xu, yl, yu)):
                continue
            e = 1e-12
            xl, xu = xl - e * max(1e-6, abs(xl)), xu + e * max(1e-6, abs(xu))
            yl, yu = yl - e * max(1e-6, abs(yl)), yu + e * max(1e-6, abs(yu))
            X, Y, W = self._var(x), self._var(y), self._var(m)
            out += [W >= rv(xl) * Y + rv(yl) * X - rv(xl) * rv(yl), W >= rv(xu) * Y + rv(yu) * X - rv(xu) * rv(yu),
                    W <= rv(xu) * Y + rv(yl) * X - rv(xu) * rv(yl), W <= rv(xl) * Y + rv(yu) * X - rv(xl) * rv(yu)]
            if len(y) > 1:
                todo.append(y)
        return out

    def side(self, done=()):
        """box constraints of the monomials in use"""
        out = []
        for m, v in list(self.used.items()):
            if m in done:
                continue
            lo, hi = self.iv(m)
            if math.isfinite(lo):
                out.append(v >= rv(lo - 1e-9 * abs(lo)))
            if math.isfinite(hi):
                out.append(v <= rv(hi + 1e-9 * abs(hi)))
        return out


# --- interval evaluation over sub-boxes
def iv_poly_box(s, boxes, memo):
    if not isinstance(s, Sym):
        return (float(s), float(s))
    k = id(s)
    r = memo.get(k)
    if r is not None:
        return r[0]
    inds = S.indicators(s)
    if inds and len(inds) <= 3:
        aid = min(inds)
        p = iv_poly_box(S.restrict(s, aid, True), boxes, memo)
        q = iv_poly_box(S.restrict(s, aid, False), boxes, memo)
        v = cond_box(S.C.atoms[aid].data, boxes, memo)
        if v is True:
            r = p
        elif v is False:
            r = q
        else:
            r = (min(p[0], q[0]), max(p[1], q[1]))
    else:
        lo = hi = 0.0
        for m, c in s.t.items():
            q = S.iv_scale(iv_mono_box(m, boxes, memo), c)
            lo += q[0]
            hi += q[1]
        if lo != lo:
            lo = -math.inf
        if hi != hi:
            hi = math.inf
        # mean-value style tightening for single-variable convex pieces is left to splitting
        r = (lo, hi)
    memo[k] = (r, s)
    return r


def cond_box(cid, boxes, memo):
    b, k, st = S.C.conds[cid]
    lo, hi = iv_poly_box(b, boxes, memo)
    if hi < k or (hi == k and not st):
        return True
    if lo > k or (lo == k and st):
        return False
    return None


def iv_atom_box(aid, boxes, memo):
    key = ("a", aid)
    r = memo.get(key)
    if r is not None:
        return r
    a = S.C.atoms[aid]
    if a.kind == "var":
        r = boxes.get(a.data, a.iv)
    elif a.kind in ("exp", "poly"):
        r = iv_poly_box(a.data, boxes, memo)
        r = (max(r[0], a.iv[0]), min(r[1], a.iv[1]))
    elif a.kind == "log":
        q = iv_poly_box(a.data, boxes, memo)
        r = (S.slog(q[0]), S.slog(q[1]) if q[1] > 0 else math.inf)
        r = (max(r[0], a.iv[0]), min(r[1], a.iv[1]))
    elif a.kind == "fn":
        q = iv_poly_box(a.data[1], boxes, memo)
        r = S.fn_iv(a.data[0], q[0], q[1])
        r = (max(r[0], a.iv[0]), min(r[1], a.iv[1]))
    elif a.kind == "ind":
        v = cond_box(a.data, boxes, memo)
        r = (1.0, 1.0) if v is True else (0.0, 0.0) if v is False else (0.0, 1.0)
    elif a.kind == "argmin":
        q = [iv_poly_box(v, boxes, memo) for v in a.data[0]]
        top = min(v[1] for v in q)
        c = [i for i, v in enumerate(q) if v[0] <= top]
        r = (float(c[0]), float(c[-1])) if c else a.iv
    elif a.kind == "at":
        i = iv_poly_box(a.data[1], boxes, memo)
        k0, k1 = (max(int(math.ceil(i[0] - 1e-9)), 0), min(int(math.floor(i[1] + 1e-9)), len(a.data[0]) - 1))
        q = [iv_poly_box(v, boxes, memo) for v in a.data[0][k0:k1 + 1]]
        r = (max(min(v[0] for v in q), a.iv[0]), min(max(v[1] for v in q), a.iv[1])) if q else a.iv
    else:
        r = a.iv
    if r[0] > r[1]:
        r = (r[1], r[0])
    memo[key] = r
    return r


def iv_mono_box(m, boxes, memo):
    r = (1.0, 1.0)
    xl = xh = 0.0
    for aid, e in m:
        a = S.C.atoms[aid]
        q = iv_atom_box(aid, boxes, memo)
        if a.kind == "exp":
            x = S.iv_scale(q, e)
            xl += x[0]
            xh += x[1]
            continue
        elif e != 1:
            q = S.iv_pow(q, e)
        r = S.iv_mul(r, q)
    if xl or xh:
        r = S.iv_mul(r, (S.sexp(xl), max(S.sexp(xh), 5e-324)))
    return r


def _check(s, timeout=20000):
    s.set("timeout", timeout)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r


class PathSolver:
    """Incremental feasibility of a path condition."""

    def __init__(self):
        self.em = Emit()
        self.s = z3.SolverFor("QF_LRA")
        self.done = set()

    def _sides(self):
        for c in self.em.side(self.done):
            self.s.add(c)
        self.done.update(self.em.used)

    def add(self, b):
        e = self.em.boolean(b)
        self._sides()
        self.s.add(e)

    def feasible(self, b):
        e = self.em.boolean(b)
        self._sides()
        self.s.push()
        self.s.add(e)
        r = _check(self.s)
        self.s.pop()
        return r != z3.unsat


def model_env(model, em, boxes=None):
    env = {}
    for name, a in S.C.vars.items():
        lo, hi = (boxes or {}).get(name, a.iv)
        env[name] = 0.5 * (lo + hi) if math.isfinite(lo) and math.isfinite(hi) else (lo if math.isfinite(lo) else 0.0)
    for m, v in em.used.items():
        if len(m) == 1 and m[0][1] == 1 and S.C.atoms[m[0][0]].kind == "var":
            val = model.eval(v, model_completion=False)
            if z3.is_rational_value(val):
                f = val.as_fraction()
                x = float(f.numerator) / float(f.denominator)
                lo, hi = (boxes or {}).get(S.C.atoms[m[0][0]].data, S.C.atoms[m[0][0]].iv)
                env[S.C.atoms[m[0][0]].data] = min(max(x, lo), hi)
    return env


def sat_query(conds, goals, boxes=None, timeout=20000):
    """Is  /\\ conds /\\ (\\/ goals)  satisfiable over the box abstraction?

    goals: list of SBool / z3-less tuples ("gt", Sym, k) meaning Sym > k.
    Returns ("unsat"|"sat"|"unknown", env)"""
    em = Emit(boxes)
    s = z3.SolverFor("QF_LRA")
    for c in conds:
        s.add(em.boolean(c))
    gs = []
    for g in goals:
        if isinstance(g, tuple):
            gs.append(em.poly(g[1]) > rv(g[2]))
        else:
            gs.append(em.boolean(g))
    s.add(z3.Or(*gs) if len(gs) > 1 else gs[0])
    if boxes:
        for name, (lo, hi) in boxes.items():
            a = S.C.vars[name]
            m = ((a.id, 1),)
            em.mono(m)
        for c in em.mccormick():
            s.add(c)
    for c in em.side():
        s.add(c)
    r = _check(s, timeout)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", model_env(s.model(), em, boxes)
    return "unknown", None


class Undecided(Exception):
    def __init__(self, msg, points=()):
        super().__init__(msg)
        self.points = list(points)


def holds_goal(goal, env):
    if isinstance(goal, tuple):
        v = S.evalf(goal[1], env)
        return not (v <= goal[2])          # nan counts as a hit
    return S.eval_bool(goal, env)


def decide(conds, goals, confirm=None, budget_s=60.0, max_boxes=4000, ties=True):
    """Decide whether some assignment in the declared boxes satisfies conds and one goal.

    Returns None if the solver shows there is none; otherwise a confirmed environment.
    `confirm(env)` replays on the real code and returns truthy when reproduced.
    Raises Undecided when neither is established within budget."""
    t0 = time.time()
    goals = [g for g in goals if not (isinstance(g, tuple) and not isinstance(g[1], Sym) and g[1] <= g[2]) and g is not False]
    if not goals:
        # still a (trivial) solver query, so that the verdict is the solver's
        sat_query(conds, [("gt", 0.0, 1.0)])
        return None
    tie = _ties(conds, goals) if ties else []
    if not tie:
        r, env = sat_query(conds, goals)
        if r == "unsat":
            return None
    else:
        env = None
    STATS.refine += 1
    tried = []

    def attempt(env):
        """true counterexample at env?"""
        if any(_close(env, t) for t in tried):
            return False
        memo = None
        if not all(S.eval_bool(c, env) for c in conds):
            return False
        hit = any(holds_goal(g, env) for g in goals)
        if not hit:
            return False
        tried.append(env)
        if len(tried) > 60:
            return False
        return True if confirm is None else confirm(env)

    if env and attempt(env):
        return env
    # 1b. comparisons that differ only at a tie (x < k against x <= k): goals grouped by the ties they contain
    if tie:
        groups = {}
        for g in goals:
            groups.setdefault(tuple(_ties((), [g])), []).append(g)
        for tg, gs in groups.items():
            w = _decide_ties(conds, gs, tg, attempt, max(5.0, budget_s - (time.time() - t0)), max_boxes)
            if w is not None:
                return w
        return None
    # 2. case split on conditions hidden inside opaque atoms
    stack = [(list(conds), goals, {})]
    leaves = 0
    residual = []
    while stack:
        cs, gs, fix = stack.pop()
        if time.time() - t0 > budget_s / 3:
            residual.append((cs, gs))
            continue
        ids = set()
        for g in gs:
            if isinstance(g, tuple):
                S.deep_conds(g[1], (ids, set()))
        ids = [c for c in sorted(ids) if S.fix_lookup(fix, c) is None]
        if not ids:
            r, env = sat_query(cs, gs)
            if r == "unsat":
                continue
            if env and attempt(env):
                return env
            residual.append((cs, gs))
            continue
        cid = ids[0]
        for val in (True, False):
            lit = SBool(("lit", cid, val))
            r, _ = sat_query(cs, [lit])
            if r == "unsat":
                continue
            nfix = dict(fix)
            nfix[cid] = val
            ng = []
            for g in gs:
                if isinstance(g, tuple):
                    p = S.subst(g[1], fix=nfix)
                    if isinstance(p, Sym):
                        ng.append(("gt", p, g[2]))
                    elif not (p <= g[2]):
                        ng.append(("gt", p, g[2]))
                else:
                    ng.append(g)
            if not ng:
                STATS.refine += 1
                continue
            r, env = sat_query(cs + [lit], ng)
            if r == "unsat":
                continue
            if env and attempt(env):
                return env
            stack.append((cs + [lit], ng, nfix))
    # 3. branch and prune over the input boxes
    for cs, gs in residual:
        by = {}
        for g in gs:
            by.setdefault(tuple(sorted(S.deep_vars(g[1]))) if isinstance(g, tuple) else None, []).append(g)
        und = None
        for _, gg in sorted(by.items(), key=lambda z: len(z[0] or "")):
            try:
                e = _prune(cs, gg, attempt, t0, budget_s, max_boxes)
            except Undecided as u:
                und = u
                continue
            if e is not None:
                return e
        if und is not None:
            raise und
    return None


def _decide_ties(conds, goals, tie, attempt, budget_s, max_boxes):
    if not tie:
        return decide(conds, goals, attempt, budget_s, max_boxes, ties=False)
    t0 = time.time()
    cmap = {("cond", a): b for a, b, _, _ in tie}
    memo = {}
    ng = [_sub_goal(g, None, cmap, memo) for g in goals]
    neq = [S.b_or(SBool(("lit", a, True)), SBool(("lit", b, False))) for a, b, _, _ in tie]
    sub = [(list(conds) + neq, ng, None)]
    for a, b, base, k in tie:
        e = _solve_var(base, k)
        fix = {b: True, a: False}
        memo = {}
        cs = [S.subst_bool(c, fix, e, memo) for c in conds]
        if any(c is False for c in cs):
            continue
        cs = [c for c in cs if c is not True]
        if e is None:
            cs = cs + [SBool(("lit", b, True)), SBool(("lit", a, False))]
        sub.append((cs, [_sub_goal(g, fix, e, memo) for g in goals], e))
    for cs, gs, e in sub:
        def conf(env, e=e):
            if e:
                env = dict(env)
                env.update({k: v for k, v in e.items() if isinstance(k, str)})
            return attempt(env)
        w = decide(cs, gs, conf, max(5.0, budget_s - (time.time() - t0)), max_boxes)
        if w is not None:
            if e:
                w = dict(w)
                w.update(e)
            return w
    return None


def _sub_goal(g, fix, env, memo):
    if isinstance(g, tuple):
        return ("gt", S.subst(g[1], fix, env, memo), g[2])
    return S.subst_bool(g, fix, env, memo) if not (env and any(isinstance(k, tuple) for k in env)) else g


def _ties(conds, goals):
    """[(strict id, non-strict id, base, k)] for comparisons present in both forms."""
    ids = set()
    seen = (ids, set())
    for g in goals:
        if isinstance(g, tuple):
            S.deep_conds(g[1], seen)
    by = {}
    for cid in ids:
        b, k, st = S.C.conds[cid]
        by.setdefault((S.C.cond_base[cid], k), {})[st] = cid
    out = []
    for (bk, k), d in sorted(by.items(), key=lambda z: min(z[1].values())):
        if len(d) == 2:
            out.append((d[True], d[False], S.C.conds[d[True]][0], k))
    return out


def _solve_var(base, k):
    """{v: value} when base == k pins one input variable"""
    if len(base.t) == 1:
        (m, c), = base.t.items()
        if len(m) == 1 and m[0][1] == 1 and S.C.atoms[m[0][0]].kind == "var":
            return {S.C.atoms[m[0][0]].data: k / c}
    return None


def _close(a, b):
    return all(abs(a[k] - b[k]) <= 1e-12 * max(1.0, abs(a[k])) for k in a)


def _prune(conds, goals, attempt, t0, budget_s, max_boxes):
    names = set()
    for g in goals:
        if isinstance(g, tuple):
            names |= S.deep_vars(g[1])
    for c in conds:
        for cid in _lits(c):
            names |= S.deep_vars(S.C.conds[cid][0])
    names = sorted(names)
    full = {n: S.C.vars[n].iv for n in names}
    queue = [full]
    n = 0
    while queue:
        box = queue.pop(0)
        n += 1
        if n > max_boxes or time.time() - t0 > budget_s:
            raise Undecided("branch-and-prune budget exhausted (%d boxes)" % n)
        memo = {}
        live = [g for g in goals if not (isinstance(g, tuple) and iv_poly_box(g[1], box, memo)[1] <= g[2])]
        if not live:
            continue
        r, env = sat_query(conds, live, boxes=box)
        if r == "unsat":
            continue
        if env and attempt(env):
            return env
        mid = {k: 0.5 * (lo + hi) for k, (lo, hi) in box.items()}
        for k, a in S.C.vars.items():
            mid.setdefault(k, 0.5 * (a.iv[0] + a.iv[1]))
        if attempt(mid):
            return mid
        # split the widest (relative to its declared box) variable
        if not box:
            raise Undecided("a goal without variables is not refuted")
        k = max(box, key=lambda v: (box[v][1] - box[v][0]) / max(1e-300, full[v][1] - full[v][0]) if full[v][1] > full[v][0] else 0)
        lo, hi = box[k]
        if hi - lo <= 1e-9 * max(1.0, abs(hi)):
            raise Undecided("box too small to split")
        m = 0.5 * (lo + hi)
        a, b = dict(box), dict(box)
        a[k], b[k] = (lo, m), (m, hi)
        queue += [a, b]
    return None


def _lits(b):
    if not isinstance(b, SBool):
        return []
    f = b.f
    if f[0] == "lit":
        return [f[1]]
    out = []
    for x in f[1]:
        out += _lits(SBool(x))
    return out
