"""Slopes and jumps: derivatives of executed expressions, limits across branch boundaries."""
from . import check as K
from . import paths, replay, solve
from . import sym as S
from . import symnp as N
from .sym import SBool, Sym, Unsupported


# ------------------------------------------------------------------ derivative
def diff(x, name, memo=None):
    """d x / d name, branch indicators held fixed"""
    if not isinstance(x, Sym):
        return 0.0
    memo = {} if memo is None else memo
    res = 0.0
    for m, c in x.t.items():
        for k, (aid, e) in enumerate(m):
            d = _datom(aid, name, memo)
            if not isinstance(d, Sym) and d == 0:
                continue
            a = S.C.atoms[aid]
            if a.kind == "exp":
                term = S.mul(Sym({m: c * e}), d)
            else:
                rest = m[:k] + (((aid, e - 1),) if e != 1 else ()) + m[k + 1:]
                term = S.mul(Sym({rest: c * e}) if rest else c * e, d)
            res = S.add(res, term)
    return res


def _datom(aid, name, memo):
    """derivative of the atom's own quantity (for 'exp': of its argument)"""
    if aid in memo:
        return memo[aid]
    a = S.C.atoms[aid]
    if a.kind == "var":
        r = 1.0 if a.data == name else 0.0
    elif a.kind in ("ind", "argmin"):
        r = 0.0
    elif a.kind in ("poly", "exp"):
        r = diff(a.data, name, memo)
    elif a.kind == "log":
        r = S.div(diff(a.data, name, memo), a.data)
    elif a.kind == "fn":
        f, u = a.data
        du = diff(u, name, memo)
        r = 0.0 if not isinstance(du, Sym) and du == 0 else S.mul(du, _dfn(f, u))
    else:
        raise Unsupported("derivative of %s" % a.kind)
    memo[aid] = r
    return r


def _dfn(f, u):
    if f == "sin":
        return S.fn("cos", u)
    if f == "cos":
        return S.neg(S.fn("sin", u))
    if f == "tanh":
        return S.sub(1.0, S.power(S.fn("tanh", u), 2))
    if f == "cosh":
        return S.fn("sinh", u)
    if f == "sinh":
        return S.fn("cosh", u)
    if f == "arctan":
        return S.div(1.0, S.add(1.0, S.power(u, 2)))
    if f in ("floor", "ceil"):
        return 0.0
    raise Unsupported("derivative of %s" % f)


# ------------------------------------------------------------------ shared loop
def _paths(ctx, case, body):
    """explore the case; body(path, out, confirm-less) returns a violation env or None"""
    R = ctx.R
    L = ctx.fresh(*case["modules"])
    run = ctx.compile(case["code"])
    S.C.fork = case.get("fork", 0)
    x0 = case["x"]()
    assume = [c for c in (case["assume"](x0) if case.get("assume") else []) if c is not True]
    if any(c is False for c in assume):
        R.extra["empty_configurations"] = R.extra.get("empty_configurations", 0) + 1
        return
    snap = N.Snapshot(L.mods.values())
    R.cases += 1
    reach = n = 0
    for path, (kind, val) in paths.explore(lambda: run(K.copyx(x0)), assume, max_paths=case.get("max_paths", 3000)):
        n += 1
        R.paths += 1
        R.branches += len(path.taken)
        snap.restore()
        w = K.witness(path)
        if kind == "exc":
            if isinstance(val, Unsupported):
                raise val
            if w is not None and "exc" in replay.call(case["code"], K.concrete(x0, w)):
                R.violations.append(report(case, K.concrete(x0, w), [], "raises %s: %s" % (type(val).__name__, str(val)[:200])))
                return
            R.undecided.append("%s: raises %s: %s" % (case["label"], type(val).__name__, str(val)[:200]))
            return
        if w is not None:
            reach += 1
            K.validate(ctx, case, path, x0, w, val)
        try:
            v = body(path, val, x0)
        except solve.Undecided as e:
            R.undecided.append("%s: %s" % (case["label"], e))
            continue
        if v is not None:
            R.violations.append(v)
            return
        if len(R.samples) < 2:
            f = K.flat(val)
            R.samples.append("%s | %d branch decisions | e.g. %s = %s" % (case["label"], len(path.taken), f[0][0], S.show(f[0][1], 200)))
    if reach == 0 and case.get("assume"):
        R.extra["unwitnessed_configurations"] = R.extra.get("unwitnessed_configurations", 0) + 1
        return
    if reach == 0 and not R.undecided:
        raise K.EncodingError("no path of %s has a concrete witness (vacuous)" % case["label"])
    R.reach += reach


def report(case, xs, diffs, note):
    return dict(label=case["label"], inputs=xs, code=case["code"], note=note, real=None, diffs=diffs[:40], expected_kind=case["what"])


def moved(xs, key, v):
    """the concrete inputs with the moved input set"""
    ys = dict(xs)
    ys[key] = v
    return ys


# ------------------------------------------------------------------ slopes
def clear(d, tol):
    """(e, t) such that d > tol implies e > t: positive denominators and common factors taken out"""
    for _ in range(6):
        low, div = {}, None
        for m in d.t:
            for a, e in m:
                at = S.C.atoms[a]
                if at.kind == "poly" and e < 0 and S.iv(at.data)[0] > 0:
                    low[a] = min(low.get(a, 0), e)
        if low:
            a = min(low, key=lambda q: (low[q], q))
            p, base = -low[a], S.C.atoms[a].data
            tol *= S.iv(base)[0] ** p
        else:
            first = dict(next(iter(d.t)))
            for a, e in first.items():
                e = min(dict(m).get(a, 0) for m in d.t)
                if e > 0 and S.C.atoms[a].kind in ("var", "poly"):
                    lo, hi = S.iv(Sym({((a, 1),): 1.0}))
                    if lo >= 0 and 0 < hi < 1e12:
                        div = (a, e, hi)
                        break
            if div is None:
                return d, tol
            a, p, base = div[0], -div[1], None
            tol /= div[2] ** div[1]
        new = 0.0
        for m, c in d.t.items():
            e = dict(m).get(a, 0) + p
            rest = tuple((b, f) for b, f in m if b != a)
            t = Sym({rest: c}) if rest else c
            if e:
                t = S.mul(t, S.power(base, e)) if base is not None else S.mul(t, Sym({((a, e),): 1.0}))
            new = S.add(new, t)
        if not isinstance(new, Sym):
            return new, tol
        d = new
    return d, tol


def slopes(ctx, case):
    """case["sign"] * d out / d case["var"] <= case["tol"] for every output on every path"""
    R, v, sign, tol = ctx.R, case["var"], case["sign"], case.get("tol", 1e-5)

    def body(path, out, x0):
        memo = {}
        goals = []
        for n, y in K.flat(out):
            if not isinstance(y, Sym):
                continue
            y = S.subst(y, fix=path.fix) if path.fix else y
            d = diff(y, v, memo)
            d = S.scale(d, sign) if isinstance(d, Sym) else d * sign
            if isinstance(d, Sym) or d > tol:
                t = tol
                if isinstance(d, Sym):
                    d, t = clear(d, tol)
                if isinstance(d, Sym) or d > t:
                    goals.append((n, ("gt", d, t) if isinstance(d, Sym) else True))
        found = []

        def confirm(env):
            xs = K.concrete(x0, env)
            lo, hi = S.C.vars[v].iv
            v0 = xs[v]
            for h in (1e-3, -1e-3, 1e-5, -1e-5):
                a, b = sorted((v0, v0 + h))
                if a < lo or b > hi:
                    continue
                ra, rb = (replay.call(case["code"], moved(xs, v, q)) for q in (a, b))
                if "exc" in ra or "exc" in rb:
                    continue
                bad = [[n, "%r at %s=%r" % (y, v, a), "%r at %s=%r" % (z, v, b)] for (n, y), (_, z) in zip(K.flat(ra["ok"]), K.flat(rb["ok"]))
                       if K.isnumish(y) and K.isnumish(z) and sign * (z - y) > 0.5 * tol * (b - a) + 1e-12]
                if bad:
                    found[:] = [moved(xs, v, a), bad]
                    return True
            return False
        if K.solve_goals(ctx, path, goals, confirm, case.get("budget", 60.0)) is not None:
            return report(case, found[0], found[1], "the output %s with %s" % ("grows" if sign > 0 else "falls", v))
        return None
    _paths(ctx, case, body)


# ------------------------------------------------------------------ jumps
def _relax(b):
    """closure of a condition: strict comparisons become weak ones"""
    if not isinstance(b, SBool):
        return b
    f = b.f
    if f[0] == "lit":
        base, k, st = S.C.conds[f[1]]
        if f[2]:
            return S.compare("<=", base, k) if st else b
        return b if st else S.compare(">=", base, k)
    xs = [_relax(SBool(x)) for x in f[1]]
    return S.b_and_list(xs) if f[0] == "and" else S.b_or_list(xs)


def _equalities(conds):
    """(base, k) pinned by the conditions from both sides"""
    seen = {}
    for c in conds:
        if not isinstance(c, SBool):
            continue
        for l in ([c.f] if c.f[0] == "lit" else [x for x in c.f[1] if x[0] == "lit"] if c.f[0] == "and" else []):
            b, k, st = S.C.conds[l[1]]
            seen.setdefault((S.C.cond_base[l[1]], k), [b, set()])[1].add(l[2])
    out = [(b, k) for (_, k), (b, side) in seen.items() if len(side) == 2]
    for b, k in list(out):          # a product equal to a constant: its logarithm as well
        if len(b.t) == 1 and k and S.iv(S.scale(b, 1.0 / k))[0] > 0:
            l = S.log(S.scale(b, 1.0 / k))
            if isinstance(l, Sym):
                out.append((l, 0.0))
    return out


def _divide(m, q):
    """monomial m / q, or None"""
    m = dict(m)
    for a, e in q:
        if not isinstance(e, int) or not isinstance(m.get(a, 0), int) or m.get(a, 0) < e or e < 0:
            return None
        m[a] -= e
        if not m[a]:
            del m[a]
    return tuple(sorted(m.items()))


def reduce(d, eqs, tol):
    """d modulo base == k, when that makes it vanish"""
    for b, k in eqs:
        for q, cq in b.t.items():
            if not q or any(S.C.atoms[a].kind == "exp" for a, _ in q):
                continue
            rest = S.scale(S.sub(k, S.sub(b, Sym({q: cq}))), 1.0 / cq)      # q == rest
            e = d
            for _ in range(4):
                hit = [(m, c, _divide(m, q)) for m, c in e.t.items()]
                hit = [h for h in hit if h[2] is not None]
                if not hit:
                    break
                e = S.add(S.mk({m: c for m, c in e.t.items() if m not in {h[0] for h in hit}}), 0.0) if len(hit) < len(e.t) else 0.0
                for m, c, r in hit:
                    e = S.add(e, S.mul(Sym({r: c}) if r else c, rest))
                if isinstance(e, Sym):
                    e, _s = K.trim(e, tol, d, rest)
                if not isinstance(e, Sym):
                    break
            if not isinstance(e, Sym) or max(abs(z) for z in S.iv(e)) <= tol:
                return e if not isinstance(e, Sym) else 0.0
    return d


def jumps(ctx, case):
    """run(x) = {"a": f(x["a"]), "b": f(x["b"])} where x["b"] is x["a"] with the input case["var"] increased by the symbolic "step" (0 ... 2e-6);
    in the limit step -> 0 no output changes by more than the tolerance (case["sign"] = 0), or grows (1), or falls (-1)"""
    R, v, sign, tol = ctx.R, case["var"], case.get("sign", 0), case.get("tol", 1e-5)

    def body(path, out, x0):
        merge = {"step": 0.0}
        fa, fb = K.flat(out["a"]), K.flat(out["b"])
        if [n for n, _ in fa] != [n for n, _ in fb]:
            return report(case, K.concrete(x0, K.witness(path)), [], "the layout of the result changes")
        closed = [S.subst_bool(_relax(c), None, merge, {}) for c in path.conds()]
        if any(c is False for c in closed):
            return None
        closed = [c for c in closed if c is not True]
        groups = {}
        path.feasible = {}
        for (n, a), (_, b) in zip(fa, fb):
            if not K.isnumish(a) or not K.isnumish(b):
                if a != b:
                    return report(case, K.concrete(x0, K.witness(path)), [[n, repr(a), repr(b)]], "the result changes kind")
                continue
            d = S.sub(b, a)
            if not isinstance(d, Sym):
                if abs(d) > tol:
                    groups.setdefault((), []).append((n, d, {}))
                continue
            for leaf, fix in _leaves(path, d, {v, "step"}, merge, tol, (a, b), case.get("split", False)):
                key = tuple(sorted(fix.items()))
                groups.setdefault(key, []).append((n, leaf, fix))
        found = []

        def confirm(env):
            xs = K.concrete(x0, {**env, "step": 0.0})
            v0, (lo, hi) = xs["a"][v], S.C.vars[v].iv
            for a, b in ((v0, v0 + 1e-9), (v0 - 1e-9, v0), (v0 - 1e-9, v0 + 1e-9), (v0 - 3e-8, v0 + 3e-8)):
                if a < lo or b > hi:
                    continue
                ys = dict(a=moved(xs["a"], v, a), b=moved(xs["a"], v, b))
                r = replay.call(case["code"], ys)
                if "exc" in r:
                    continue
                bad = [[n, "%r at %s=%r" % (y, v, a), "%r at %s=%r" % (z, v, b)] for (n, y), (_, z) in zip(K.flat(r["ok"]["a"]), K.flat(r["ok"]["b"]))
                       if K.isnumish(y) and K.isnumish(z) and not (abs(z - y) if sign == 0 else sign * (z - y)) <= 0.5 * tol]
                if bad:
                    found[:] = [ys, bad]
                    return True
            return False
        for key, items in groups.items():
            conds = list(closed)
            for cid, val in key:
                conds.append(S.subst_bool(_relax(SBool(("lit", cid, val))), None, merge, {}))
            if any(c is False for c in conds):
                continue
            conds = [c for c in conds if c is not True]
            pin = {}
            for _ in range(3):
                new = {n: z for n, z in K.pins(conds).items() if n not in pin}
                if not new:
                    break
                pin.update(new)
                memo = {}
                conds = [S.subst_bool(c, None, new, memo) for c in conds]
                if any(c is False for c in conds):
                    break
                conds = [c for c in conds if c is not True]
            if any(c is False for c in conds):
                continue
            conds += [S.compare(op, S.C.vars[n].sym if hasattr(S.C.vars[n], "sym") else Sym({((S.C.vars[n].id, 1),): 1.0}), z) for n, z in pin.items() for op in ("<=", ">=")]
            conds = [c for c in conds if isinstance(c, SBool)]
            eqs = _equalities(conds)
            goals = []
            for n, d, _ in items:
                d = S.subst(d, None, pin, {}) if pin else d
                if isinstance(d, Sym) and eqs:
                    d = reduce(d, eqs, tol)
                if isinstance(d, Sym):
                    d, _ = K.trim(d, tol, d)
                for s in ((1, -1) if sign == 0 else (sign,)):
                    e = S.scale(d, s) if isinstance(d, Sym) else s * d
                    if isinstance(e, Sym) or not e <= tol:
                        goals.append(("gt", e if isinstance(e, Sym) else S.special(float("inf")), tol))
            R.goals += len(items)
            if not goals:
                solve.sat_query(conds, [("gt", 0.0, 1.0)])
                continue
            env = solve.decide(conds, goals, lambda e: confirm({**e, **pin}), case.get("budget", 60.0))
            if env is not None:
                return report(case, found[0], found[1], "the result jumps where %s crosses %r" % (v, found[0]["a"][v]))
        return None
    _paths(ctx, case, body)


def _leaves(path, d, names, merge, tol, ops, split=False):
    """difference per combination of the conditions that depend on the moved input: (limit of the difference, crossed conditions)

    A condition and its counterpart after the move either agree (then one stands for both) or the move crosses it, up or down."""
    base = path.conds()
    out = []
    limit = {}

    def key_of(c):
        if c not in limit:
            b, k, st = S.C.conds[c]
            b = S.subst(b, None, merge, {})
            limit[c] = (str(S.poly_key(b)) if isinstance(b, Sym) else "", round(k, 9), st)
        return limit[c]

    def feasible(lits):
        key = frozenset(repr(l.f) for l in lits)
        if key not in path.feasible:
            path.feasible[key] = solve.sat_query(base + lits, [("gt", 1.0, 0.0)])[0] != "unsat"
        return path.feasible[key]
    stack = [(d, {}, [], frozenset())]
    while stack:
        e, fix, lits, same = stack.pop()
        deep = S.deep_conds(e) if isinstance(e, Sym) else ()
        known = {c: S.fix_lookup({**path.fix, **fix}, c) for c in deep}
        known = {c: z for c, z in known.items() if z is not None}
        if known:
            e = S.subst(e, fix=known)
            deep = S.deep_conds(e) if isinstance(e, Sym) else ()
        if not isinstance(e, Sym) and abs(e) <= tol:
            continue
        groups = {}
        for c in sorted(deep):
            if c not in same and S.deep_vars(S.C.conds[c][0]) & names:
                groups.setdefault(key_of(c), []).append(c)
        if not groups:
            lim = S.subst(e, None, merge, {}) if isinstance(e, Sym) else e
            if isinstance(lim, Sym):
                lim, _ = K.trim(lim, tol, *[o for o in ops])
            if isinstance(lim, Sym) or abs(lim) > tol:
                # the two sides may hold the same condition in different forms: split on what is left
                rest = sorted(c for c in (S.deep_conds(lim) if isinstance(lim, Sym) else ()))
                if split and rest and len(rest) <= 4:
                    for z in (True, False):
                        new = lits + [SBool(("lit", rest[0], z))]
                        if feasible(new):
                            stack.append((S.subst(e, fix={rest[0]: z}), {**fix, rest[0]: z}, new, same))
                else:
                    out.append((lim, fix))
            continue
        g = groups[min(groups)]
        if len(g) == 2:
            a, b = sorted(g, key=lambda c: "step" in S.deep_vars(S.C.conds[c][0]))
            eq = S.b_or(S.b_and(SBool(("lit", a, True)), SBool(("lit", b, True))), S.b_and(SBool(("lit", a, False)), SBool(("lit", b, False))))
            new = lits + ([eq] if isinstance(eq, SBool) else [])
            if feasible(new):
                stack.append((S.subst(e, None, {("cond", b): a}, {}), fix, new, same | {a}))
            for za in (True, False):
                new = lits + [SBool(("lit", a, za)), SBool(("lit", b, not za))]
                if feasible(new):
                    stack.append((S.subst(e, fix={a: za, b: not za}), {**fix, a: za, b: not za}, new, same))
        else:
            for z in (True, False):
                new = lits + [SBool(("lit", g[0], z))]
                if feasible(new):
                    stack.append((S.subst(e, fix={g[0]: z}), {**fix, g[0]: z}, new, same))
    return out
