"""Check driver: parallel jobs, symbolic comparison, confirmation by replay, evidence, exit code."""
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import numpy as np

from . import ops, paths, replay, solve
from . import sym as S
from . import symnp as N
from .sym import SBool, Sym, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


MEMORY = int(os.environ.get("VERIF_MEMORY_MB", "3500")) * 2 ** 20
DEBUG = os.environ.get("VERIF_DEBUG")


class EncodingError(Exception):
    """The encoding disagrees with the real code at a concrete point: nothing may be concluded."""


# ------------------------------------------------------------------ configuration enumeration
def product(dims):
    names = list(dims)
    return [dict(zip(names, c)) for c in itertools.product(*[dims[n] for n in names])]


def covering(dims, t, seed=1, ok=None, pool=6000):
    """A t-wise covering set of the (constrained) product: greedy over a pool of valid rows, deterministic."""
    names = list(dims)
    full = 1
    for n in names:
        full *= len(dims[n])
    if t >= len(names) or full <= 8:
        return [c for c in product(dims) if ok is None or ok(c)]
    rng = random.Random(seed)
    rows = []
    if full <= pool:
        for c in product(dims):
            if ok is None or ok(c):
                rows.append(tuple(dims[n].index(c[n]) for n in names))
    else:
        seen = set()
        tries = 0
        while len(rows) < pool and tries < 40 * pool:
            tries += 1
            r = tuple(rng.randrange(len(dims[n])) for n in names)
            if r in seen:
                continue
            seen.add(r)
            if ok is None or ok({n: dims[n][i] for n, i in zip(names, r)}):
                rows.append(r)
    combos = list(itertools.combinations(range(len(names)), t))
    index = {}
    for k, r in enumerate(rows):
        for cb in combos:
            index.setdefault((cb, tuple(r[i] for i in cb)), []).append(k)
    need = set(index)
    order = sorted(index, key=lambda z: (len(index[z]), z))
    out = []
    for z in order:
        if z not in need:
            continue
        cand = index[z] if len(index[z]) <= 40 else rng.sample(index[z], 40)
        best = max(cand, key=lambda k: sum((cb, tuple(rows[k][i] for i in cb)) in need for cb in combos))
        r = rows[best]
        need.difference_update((cb, tuple(r[i] for i in cb)) for cb in combos)
        out.append({n: dims[n][i] for n, i in zip(names, r)})
    return out


# ------------------------------------------------------------------ report
class Report:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.goals = 0
        self.cases = 0
        self.validated = 0
        self.reach = 0
        self.violations = []
        self.known = []
        self.undecided = []
        self.errors = []
        self.samples = []
        self.functions = set()
        self.solver = {}
        self.extra = {}

    def merge(self, o):
        for k in ("paths", "branches", "goals", "cases", "validated", "reach"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.violations += o.violations
        self.known += o.known
        self.undecided += o.undecided
        self.errors += o.errors
        self.samples += o.samples[: max(0, 6 - len(self.samples))]
        self.functions |= o.functions
        for k, v in o.solver.items():
            self.solver[k] = self.solver.get(k, 0) + v
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class Ctx:
    """Per-process context: the loaded package under the stand-ins and its pristine tables."""

    def __init__(self):
        self.L = None
        self.R = Report()
        self.deadline = None

    def fresh(self, *modules):
        S.reset()
        if self.L is None:
            _monitor(self.R)
            self.L = N.Loader()
        new = [m for m in modules if "pygmm." + m not in self.L.mods]
        for m in modules:
            self.L.load("pygmm." + m)
        return self.L

    def compile(self, code):
        ns = {"__builtins__": self.L.builtins, "__name__": "harness", "__package__": ""}
        exec(compile(code, "<harness>", "exec"), ns)
        return ns["run"]


_mon = [False]


def _monitor(report):
    if _mon[0]:
        return
    _mon[0] = True
    m = sys.monitoring
    try:
        m.use_tool_id(4, "verif")
    except ValueError:
        return
    src = N.SRC

    def start(code, off):
        if code.co_filename.startswith(src):
            report.functions.add("%s:%s" % (os.path.basename(code.co_filename)[:-3], code.co_qualname))
        return m.DISABLE
    m.register_callback(4, m.events.PY_START, start)
    m.set_events(4, m.events.PY_START)


# ------------------------------------------------------------------ flattening
def flat(v, name=""):
    """nested result -> list of (label, scalar)"""
    if isinstance(v, dict):
        out = []
        for k, x in sorted(v.items(), key=lambda q: str(q[0])):
            out += flat(x, name + "." + str(k) if name else str(k))
        return out
    if isinstance(v, N.SRec):
        return flat({n: v[n] for n in v.dtype.names}, name)
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return [(name, v[()] if v.dtype == object else v.item())]
        return [z for i, x in enumerate(v.tolist() if v.dtype != object else list(v)) for z in flat(x, "%s[%d]" % (name, i))]
    if isinstance(v, (list, tuple)):
        return [z for i, x in enumerate(v) for z in flat(x, "%s[%d]" % (name, i))]
    return [(name, v)]


def isnumish(v):
    return isinstance(v, (int, float, np.floating, np.integer, Sym)) and not isinstance(v, bool)


def concrete(x, env):
    """inputs with symbolic leaves replaced by their value under env"""
    if isinstance(x, Sym):
        return S.evalf(x, env)
    if isinstance(x, SBool):
        return S.eval_bool(x, env)
    if isinstance(x, S.SymStr):
        return x.__concrete__(env)
    if isinstance(x, np.ndarray):
        return np.array([concrete(e, env) for e in x.reshape(-1)], dtype=float).reshape(x.shape)
    if isinstance(x, dict):
        return {concrete(k, env): concrete(v, env) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [concrete(v, env) for v in x]
    return x


def same_val(a, b, tol):
    """concrete comparison used for confirmation; True when they agree"""
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol


def _plain(m):
    return tuple(x for x in m if S.C.atoms[x[0]].kind != "ind")


def trim(d, t, *ops):
    """Drop terms of a difference that are rounding residue: (rest, bound on what was dropped).

    Residue is a term whose coefficient is below 1e-12 of the coefficients that the operands have on the same
    monomial (constants are folded in double precision), or a term that is bounded by a tiny part of the tolerance."""
    small = [m for m, c in d.t.items() if abs(c) <= 1e-9]
    if not small:
        return d, 0.0
    scale = {}
    for o in ops:
        if isinstance(o, Sym):
            for m, c in o.t.items():
                k = _plain(m)
                scale[k] = max(scale.get(k, 0.0), abs(c))
    slack = 0.0
    keep = dict(d.t)
    for m in small:
        c = abs(d.t[m])
        if c <= 1e-12 * scale.get(_plain(m), 0.0):
            del keep[m]
            continue
        lo, hi = S.iv_mono(m)
        b = c * max(abs(lo), abs(hi))
        if b <= 1e-4 * t and slack + b <= 0.1 * t:
            slack += b
            del keep[m]
    return (Sym(keep) if any(m for m in keep) else keep.get((), 0.0)), slack


def compare_goals(path, got, want, tol, labels=None):
    """Goals (disjuncts of the negated property) for got == want, elementwise within tol."""
    fg, fw = flat(got), flat(want)
    if [n for n, _ in fg] != [n for n, _ in fw]:
        return [("shape", SBOOL_TRUE)], "result layout differs: %s vs %s" % ([n for n, _ in fg][:6], [n for n, _ in fw][:6])
    goals = []
    for (n, a), (_, b) in zip(fg, fw):
        t = tol if not isinstance(tol, dict) else tol.get(n.split("[")[0].split(".")[0], tol.get("*", 1e-6))
        if isinstance(a, SBool) or isinstance(b, SBool):
            d = S.b_or(S.b_and(a, S.b_not(b)), S.b_and(S.b_not(a), b))
            if d is not False:
                goals.append((n, d if isinstance(d, SBool) else True))
            continue
        if isnumish(a) and isnumish(b):
            fa, fb = isinstance(a, Sym) or math.isfinite(a), isinstance(b, Sym) or math.isfinite(b)
            if not fa or not fb:
                if not fa and not fb and (a == b or (a != a and b != b)):
                    continue
                if isinstance(a, Sym) and not fb:
                    a, b = a, S.special(b)
                elif isinstance(b, Sym) and not fa:
                    a, b = S.special(a), b
                else:
                    goals.append((n, True))
                    continue
            d = S.sub(a, b)
            d = S.subst(d, fix=path.fix) if path is not None and path.fix else d
            if isinstance(d, Sym):
                d, slack = trim(d, t, a, b)
                t = t - slack
            if isinstance(d, Sym):
                goals.append((n, ("gt", d, t)))
                goals.append((n, ("gt", S.neg(d), t)))
            elif not abs(d) <= t:
                goals.append((n, True))
            else:
                goals.append((n, ("gt", abs(d), t)))
            continue
        if type(a) is not type(b) and not (a is None and b is None) or a != b:
            goals.append((n, True))
    return goals, None


SBOOL_TRUE = True


def pins(conds):
    """{variable: value} for inputs that the path conditions pin to one value of their box"""
    box = {}
    for c in conds:
        if not isinstance(c, SBool):
            continue
        for l in ([c.f] if c.f[0] == "lit" else [x for x in c.f[1] if x[0] == "lit"] if c.f[0] == "and" else []):
            b, k, st = S.C.conds[l[1]]
            e = solve._solve_var(b, k)
            if not e:
                continue
            (n, v), = e.items()
            (m, co), = b.t.items()
            lo, hi = box.get(n, S.C.vars[n].iv)
            if (co > 0) == l[2]:
                hi = min(hi, v)
            else:
                lo = max(lo, v)
            box[n] = (lo, hi)
    return {n: lo for n, (lo, hi) in box.items() if lo == hi}


def solve_goals(ctx, path, goals, confirm, budget=60.0):
    """None if no goal is reachable, else a confirmed env."""
    R = ctx.R
    R.goals += len(goals)
    gs = []
    always = False
    for n, g in goals:
        if g is True:
            always = True
        else:
            gs.append(g)
    conds = path.conds()
    if always:
        # need any witness of the path
        env = witness(path)
        if env is not None and confirm(env):
            return env
        env = solve.decide(conds, [_true_goal()], confirm, budget)
        if env is not None:
            return env
        return None if not gs else solve.decide(conds, gs, confirm, budget)
    pin = pins(conds)
    if pin:
        memo = {}
        gs = [("gt", S.subst(g[1], None, pin, memo), g[2]) if isinstance(g, tuple) else g for g in gs]

        def conf(env):
            return confirm({**env, **pin})
        env = solve.decide(conds, gs, conf, budget)
        return None if env is None else {**env, **pin}
    return solve.decide(conds, gs, confirm, budget)


def _true_goal():
    return ("gt", S.special(float("inf")), 0.0)


def witness(path, tries=6):
    """A concrete environment on the path (checked by evaluation), or None."""
    conds = path.conds()
    mid = {n: _mid(a.iv) for n, a in S.C.vars.items()}
    cands = [mid]
    r, env = solve.sat_query(conds, [_true_goal()])
    if env:
        cands.append({k: 0.5 * (env[k] + mid[k]) for k in env})
        cands.append({k: 0.9 * env[k] + 0.1 * mid[k] for k in env})
        cands.append(env)
    for e in cands:
        if all(S.eval_bool(c, e) for c in conds):
            return e
    # search: branch and prune for a point of the path
    try:
        return solve.decide(conds, [_true_goal()], lambda e: True, 3.0, max_boxes=60)
    except solve.Undecided:
        return None


def _mid(iv):
    lo, hi = iv
    # an unremarkable interior point (avoids hinge values)
    return lo + (hi - lo) * 0.5368


def near_tie(path, env):
    for c in path.conds():
        for cid in solve._lits(c):
            b, k, st = S.C.conds[cid]
            v = S.evalf(b, env)
            if abs(v - k) <= 1e-7 * max(1.0, abs(k)):
                return True
    return False


# ------------------------------------------------------------------ conformance of code to reference
def conform(ctx, case):
    """case: dict(modules, code, x (builder), assume, ref, tol, label, raises_ok)

    The outcome of run(x) in the executed real source must equal ref(x) on every path."""
    R = ctx.R
    L = ctx.fresh(*case["modules"])
    run = ctx.compile(case["code"])
    S.C.fork = case.get("fork", 0)
    x0 = case["x"]()                       # symbolic inputs
    assume = [c for c in (case["assume"](x0) if case.get("assume") else []) if c is not True]
    if any(c is False for c in assume):
        R.extra["empty_configurations"] = R.extra.get("empty_configurations", 0) + 1
        return
    tol = case.get("tol", 1e-6)
    ref, claims = case.get("ref"), case.get("claims")
    snap = N.Snapshot(L.mods.values())
    R.cases += 1
    reach = 0
    npaths0 = R.paths

    def fn():
        N.WLOG.items.clear()
        x = copyx(x0)
        try:
            got = ("ok", run(x))
        except (paths.InfeasiblePath, Unsupported):
            raise
        except Exception as e:
            got = ("exc", e)
        try:
            if claims is not None:
                want = ("ok", list(claims(x0, got[1])) if got[0] == "ok" else [])
                if got[0] == "exc" and type(got[1]).__name__ in case.get("raises", ()):
                    want = ("exc", RefRaises(type(got[1]).__name__))
            else:
                want = ("ok", ref(x0))
        except RefRaises as e:
            want = ("exc", e)
        return got, want

    for path, (kind, val) in paths.explore(fn, assume, max_paths=case.get("max_paths", 5000)):
        R.paths += 1
        R.branches += len(path.taken)
        ch = snap.changed()
        snap.restore()
        if ch:
            R.extra["table_mutations_seen"] = R.extra.get("table_mutations_seen", 0) + 1
        if kind == "exc":
            raise EncodingError("reference of %s: %s: %s" % (case["label"], type(val).__name__, val))
        (kind, val), (wk, want) = val
        wexc = want if wk == "exc" else None
        if kind == "exc":
            if wexc is None:
                goals, note = [("exception", True)], "raises %s: %s" % (type(val).__name__, str(val)[:200])
            elif wexc.args and type(val).__name__ not in wexc.args:
                goals, note = [("exception type", True)], "raises %s instead of %s" % (type(val).__name__, wexc.args)
            else:
                goals, note = [], None
        elif wexc is not None:
            goals, note = [("no exception", True)], "expected %s" % (wexc.args,)
        elif claims is not None:
            goals, note = claim_goals(path, want, tol), None
        else:
            goals, note = compare_goals(path, val, want, tol)

        def confirm(env):
            return confirm_ref(case, x0, env, tol)
        try:
            env = solve_goals(ctx, path, goals, confirm, case.get("budget", 60.0))
        except solve.Undecided as e:
            R.undecided.append("%s: %s" % (case["label"], e))
            continue
        if env is not None:
            R.violations.append(make_violation(case, x0, env, tol, note))
            return
        # reachability witness + validation of the encoding against the real code
        w = witness(path)
        if w is not None:
            reach += 1
            if kind == "ok":
                validate(ctx, case, path, x0, w, val)
        if len(R.samples) < 2:
            R.samples.append("%s | %d branch decisions | e.g. %s = %s" % (case["label"], len(path.taken), *(
                (lambda f: (f[0], S.show(f[1], 200)))(flat(val)[0]) if kind == "ok" and flat(val) else (kind, str(val)[:100]))))
    if reach == 0 and R.paths == npaths0 and case.get("assume"):
        R.extra["empty_configurations"] = R.extra.get("empty_configurations", 0) + 1
        return
    if reach == 0 and case.get("assume"):
        # consistent for the linear abstraction, but no concrete point was found: nothing is claimed for it
        R.extra["unwitnessed_configurations"] = R.extra.get("unwitnessed_configurations", 0) + 1
        return
    if reach == 0 and R.undecided:
        return
    if reach == 0:
        raise EncodingError("no path of %s has a concrete witness (vacuous)" % case["label"])
    R.reach += reach


RefRaises = ops.Refuse


# ------------------------------------------------------------------ claims
# A claim is ("eq", name, a, b[, tol]) | ("le", name, a, b[, tol]) | ("lt", name, a, b) | ("ok", name, condition)
def claim_goals(path, claims, tol):
    goals = []
    for c in claims:
        kind, name = c[0], c[1]
        if kind == "eq":
            g, note = compare_goals(path, {name: c[2]}, {name: c[3]}, c[4] if len(c) > 4 else tol)
            goals += g
        elif kind == "le":
            t = c[4] if len(c) > 4 else tol
            a, b = c[2], c[3]
            d = S.sub(a, b)
            if isinstance(d, Sym) and path is not None and path.fix:
                d = S.subst(d, fix=path.fix)
            if isinstance(d, Sym):
                d, slack = trim(d, t, a, b) if t > 0 else (d, 0.0)
                t -= slack
            if isinstance(d, Sym):
                goals.append((name, ("gt", d, t)))
            else:
                goals.append((name, ("gt", d, t) if d <= t else True))
        elif kind == "lt":
            g = S.b_not(S.compare("<", c[2], c[3]))
            if g is not False:
                goals.append((name, g))
            else:
                goals.append((name, ("gt", 0.0, 1.0)))
        elif kind == "ok":
            g = S.b_not(c[2]) if isinstance(c[2], SBool) else (not c[2])
            goals.append((name, g if g is not False else ("gt", 0.0, 1.0)))
        else:
            raise ValueError(kind)
    return goals


def failed_claims(claims, tol):
    """claims that fail on concrete values: [(name, got, expected)]"""
    out = []
    for c in claims:
        kind, name = c[0], c[1]
        t = c[4] if len(c) > 4 else tol
        if kind == "eq":
            fa, fb = flat(c[2], name), flat(c[3], name)
            if [n for n, _ in fa] != [n for n, _ in fb]:
                out.append([name, repr(c[2])[:200], repr(c[3])[:200]])
                continue
            for (n, a), (_, b) in zip(fa, fb):
                if type(a) is not type(b) and not (isnumish(a) and isnumish(b)) or not same_val(a, b, 0.5 * t):
                    out.append([n, repr(a), repr(b)])
        elif kind == "le" and not c[2] <= c[3] + 0.5 * t:
            out.append([name, repr(c[2]), "at most %r" % (c[3],)])
        elif kind == "lt" and not c[2] < c[3]:
            out.append([name, repr(c[2]), "less than %r" % (c[3],)])
        elif kind == "ok" and not c[2]:
            out.append([name, "does not hold", "holds"])
    return out


def copyx(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: copyx(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copyx(v) for v in x]
    return x


def validate(ctx, case, path, x0, env, got):
    if near_tie(path, env):
        return
    xs = concrete(x0, env)
    r = replay.call(case["code"], xs)
    if "exc" in r:
        raise EncodingError("%s: real code raises %s(%s) where the encoding returns, at %s" % (case["label"], r["exc"], r["msg"], xs))
    fr = flat(r["ok"])
    memo = {}
    for (n, a), (n2, b) in zip(flat(got), fr):
        if isinstance(a, Sym):
            a = S.evalf(a, env, memo)
        elif isinstance(a, SBool):
            a = S.eval_bool(a, env)
        if isinstance(a, (int, float, np.floating)) and not isinstance(a, bool) and isinstance(b, (int, float)):
            if not same_val(float(a), float(b), case.get("vtol", 1e-7) * max(1.0, abs(float(b)) if b == b else 1.0)):
                raise EncodingError("%s: encoding gives %s=%r, real code %r at %s" % (case["label"], n, a, b, xs))
        elif a is not None and isinstance(a, (str, bool)) and a != b:
            raise EncodingError("%s: encoding gives %s=%r, real code %r at %s" % (case["label"], n, a, b, xs))
    ctx.R.validated += 1


def confirm_ref(case, x0, env, tol):
    xs = concrete(x0, env)
    r = replay.call(case["code"], xs)
    if case.get("claims") is not None:
        if "exc" in r:
            return r["exc"] not in case.get("raises", ())
        try:
            return bool(failed_claims(case["claims"](xs, r["ok"]), tol))
        except RefRaises:
            return True
    try:
        want = case["ref"](concrete(x0, env))
    except RefRaises as e:
        return "exc" not in r or (bool(e.args) and r["exc"] not in e.args)
    if "exc" in r:
        return True
    fg, fw = flat(r["ok"]), flat(want)
    if [n for n, _ in fg] != [n for n, _ in fw]:
        return True
    for (n, a), (_, b) in zip(fg, fw):
        t = tol if not isinstance(tol, dict) else tol.get(n.split("[")[0].split(".")[0], tol.get("*", 1e-6))
        if not same_val(a, b, 0.5 * t):
            return True
    return False


def make_violation(case, x0, env, tol, note):
    xs = concrete(x0, env)
    r = replay.call(case["code"], xs)
    if case.get("claims") is not None:
        diffs = failed_claims(case["claims"](xs, r["ok"]), tol) if "ok" in r else []
        return dict(label=case["label"], inputs=xs, code=case["code"], note=note or case.get("why"), real=r if "exc" in r else None, diffs=diffs[:40],
                    expected_kind="claims")
    try:
        want = flat(case["ref"](xs))
    except RefRaises as e:
        want = [("raises", "/".join(e.args) or "an exception")]
    diffs = []
    if "ok" in r:
        for (n, a), (n2, b) in zip(flat(r["ok"]), want):
            t = tol if not isinstance(tol, dict) else tol.get(n.split("[")[0].split(".")[0], tol.get("*", 1e-6))
            if n != n2 or not (isinstance(a, type(b)) or isnumish(a) and isnumish(b)) or not same_val(a, b, 0.5 * t):
                diffs.append([n, repr(a), repr(b)])
    return dict(label=case["label"], inputs=xs, code=case["code"], note=note, real=r if "exc" in r else None, diffs=diffs[:40],
                expected_kind="reference equations")


# ------------------------------------------------------------------ main
def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (np.floating, float)):
        v = float(v)
        return v if math.isfinite(v) else repr(v)
    if isinstance(v, np.integer):
        return int(v)
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return repr(v)


_JOBS = None
_FN = None


def _runner(idx):
    ctx = Ctx()
    ctx.R = Report()
    _mon[0] = False
    try:
        sys.monitoring.free_tool_id(4)
    except ValueError:
        pass
    for k in ("queries", "unsat", "sat", "unknown", "refine"):
        setattr(solve.STATS, k, 0)
    solve.STATS.time = 0.0
    item = _JOBS[idx]
    t0 = time.time()
    try:
        _FN(ctx, item)
    except Unsupported as e:
        ctx.R.errors.append("unsupported: %s [%s] %s" % (e, item.get("label", idx) if isinstance(item, dict) else idx, _tb()))
    except EncodingError as e:
        ctx.R.errors.append("encoding: %s" % e)
    except Exception as e:
        ctx.R.errors.append("error: %s: %s [%s] %s" % (type(e).__name__, e, item.get("label", idx) if isinstance(item, dict) else idx, _tb()))
    ctx.R.solver = solve.STATS.as_dict()
    if DEBUG:
        print("[job %d] %.1fs paths=%d viol=%d und=%s err=%s %s" % (idx, time.time() - t0, ctx.R.paths, len(ctx.R.violations), ctx.R.undecided[:1],
              ctx.R.errors[:1], item.get("label", "") if isinstance(item, dict) else ""), file=sys.stderr, flush=True)
    return ctx.R


def _tb():
    return traceback.format_exc(limit=-6)[-1500:]


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def run_jobs(items, fn, nproc=None):
    """fn(ctx, item) for every item, in parallel; returns the merged report."""
    global _JOBS, _FN
    _JOBS, _FN = list(items), fn
    total = Report()
    n = min(nproc or NPROC, len(_JOBS))
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        for i in range(len(_JOBS)):
            total.merge(_runner(i))
        return total
    with mp.get_context("fork").Pool(n, initializer=_limit) as pool:
        for r in pool.imap_unordered(_runner, range(len(_JOBS)), chunksize=max(1, min(4, len(_JOBS) // (n * 4)))):
            total.merge(r)
            if len(total.violations) >= (1000 if DEBUG else 3):
                pool.terminate()
                break
    return total


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def finish(prop, R, t0, level, bounds, assumptions, technique_note, extra=None):
    """Write evidence, print the verdict, exit."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = [k for k in load_known() if k["property"] == prop]
    cov = dict(
        states=R.paths, transitions=R.branches, traces_validated_against_impl=R.validated,
        cases=R.cases, goals=R.goals, solver=R.solver, reachability_witnesses=R.reach,
        functions_encoded=sorted(R.functions), bounds=bounds, replays=R.validated,
        samples=R.samples or ["none"], explanation=technique_note,
        undecided=len(R.undecided), errors=len(R.errors),
    )
    cov.update(R.extra)
    cov.update(extra or {})
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=jsonable(cov), assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(R.violations))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k.get("id") in {x.get("id") for x in R.known} or not k.get("id"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s tier=%s cases=%d paths=%d branches=%d goals=%d queries=%s solver_s=%.1f validated=%d wall=%.1fs" % (
        prop, TIER, R.cases, R.paths, R.branches, R.goals, R.solver.get("queries"), R.solver.get("solver_s", 0), R.validated, time.time() - t0))
    if R.violations:
        for i, v in enumerate(R.violations[:3]):
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.py" % (prop, i))
            write_replay(path, prop, v)
            print("  %s" % v["label"])
            if v.get("note"):
                print("   ", v["note"])
            print("    inputs:", json.dumps(jsonable(v["inputs"]))[:600])
            for d in v.get("diffs", [])[:5]:
                print("    %s: got %s, expected %s" % tuple(d))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        sys.exit(1)
    if not R.violations and R.cases and not R.reach and not R.errors:
        R.errors.append("vacuous: no configuration has a concrete witness")
    if R.errors or R.undecided:
        for e in (R.errors + R.undecided)[:5]:
            print("INCONCLUSIVE:", e)
        sys.exit(2)
    sys.exit(0)


def write_replay(path, prop, v):
    body = '''#!/opt/venv/bin/python
"""Replay of a violation of %s (%s) on the real package; exits 1 when it still reproduces."""
import json, sys
sys.path.insert(0, "/repo/src"); sys.dont_write_bytecode = True
nan, inf = float("nan"), float("inf")
INPUTS = json.loads(%r)
EXPECTED = json.loads(%r)
CODE = %r
import numpy as np
def dec(v):
    if isinstance(v, dict):
        if "__f__" in v: return float(v["__f__"])
        if "__nd__" in v: return np.array([dec(x) for x in v["__nd__"]], dtype=float)
        return {k: dec(x) for k, x in v.items()}
    return [dec(x) for x in v] if isinstance(v, list) else v
sys.path.insert(0, %r)
from worker import fresh, tables, tables_changed
ns = {"fresh": fresh, "tables": tables, "tables_changed": tables_changed}
exec(CODE, ns)
try:
    out = ns["run"](dec(INPUTS))
except Exception as e:
    out = "%%s: %%s" %% (type(e).__name__, e)
print("result:", out)
print("note:", %r)
for name, got, want in EXPECTED:
    print("  ", name, "reported", got, "expected", want)
''' % (prop, v["label"], json.dumps(replay.enc(jsonable_in(v["inputs"]))), json.dumps(jsonable(v.get("diffs", []))), v["code"], os.path.join(VERIF, "engine"), v.get("note"))
    with open(path, "w") as f:
        f.write(body)


def jsonable_in(v):
    if isinstance(v, dict):
        return {k: jsonable_in(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return [jsonable_in(x) for x in v]
    if isinstance(v, list):
        return [jsonable_in(x) for x in v]
    if isinstance(v, (str, int, float, bool, type(None), np.ndarray)):
        return v
    return repr(v)
