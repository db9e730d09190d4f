"""Symbolic real scalars in a canonical form.

A `Sym` is a polynomial  sum_i c_i * m_i  with float coefficients; a monomial is a product of
atoms with (float) exponents.  Atoms are input variables, log(P), exp(m), P (base of a
non-expandable power), unary functions f(P), 0/1 indicators of comparisons and the two
special values nan / inf.  Rewriting into this form uses identities that hold for all reals in the declared
boxes (side conditions are discharged by interval arithmetic), so two expressions with the same form
denote the same function of the inputs.  Coefficients that differ by less than ~1e-11 (relative) are
identified: the semantics is real arithmetic up to that tolerance.
"""
import math
import numpy as np

INF = math.inf


class Unsupported(Exception):
    """The code did something the symbolic interpreter does not model."""


# ----------------------------------------------------------------- approximate float interning
_reps = {}
_memo = {}


def canon(x):
    """Representative of x: floats within ~1e-11 relative share one representative."""
    r = _memo.get(x)
    if r is not None:
        return r
    if x == 0 or x != x or x in (INF, -INF):
        return x
    k = float("%.10e" % x)
    u = abs(k) * 2e-10 if k else 0
    hit = None
    for kk in (k, float("%.10e" % (x * (1 + 1.2e-11))), float("%.10e" % (x * (1 - 1.2e-11)))):
        if kk in _reps:
            for c in _reps[kk]:
                if abs(c - x) <= 1e-11 * abs(x):
                    hit = c
                    break
        if hit is not None:
            break
    if hit is None:
        hit = x
        # prefer a short decimal / integer representative
        s = float("%.12g" % x)
        if abs(s - x) <= 1e-13 * abs(x):
            hit = s
        _reps.setdefault(k, []).append(hit)
    _memo[x] = hit
    return hit


# ----------------------------------------------------------------- intervals
def iv_add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def _mul(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def iv_mul(a, b):
    p = (_mul(a[0], b[0]), _mul(a[0], b[1]), _mul(a[1], b[0]), _mul(a[1], b[1]))
    return (min(p), max(p))


def iv_scale(a, c):
    if c >= 0:
        return (_mul(a[0], c), _mul(a[1], c))
    return (_mul(a[1], c), _mul(a[0], c))


def _spow(x, e):
    try:
        return x ** e
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF


def iv_pow(a, e):
    lo, hi = a
    if e == int(e) and abs(e) < 64:
        n = int(e)
        if n > 0:
            if n % 2 == 1:
                return (_spow(lo, n), _spow(hi, n))
            if lo >= 0:
                return (_spow(lo, n), _spow(hi, n))
            if hi <= 0:
                return (_spow(hi, n), _spow(lo, n))
            return (0.0, max(_spow(lo, n), _spow(hi, n)))
        if lo > 0:
            return (0.0 if hi == INF else _spow(hi, n), _spow(lo, n))
        if hi < 0:
            if n % 2:
                return (-_spow(-hi, n), 0.0 if lo == -INF else -_spow(-lo, n))
            return (0.0 if lo == -INF else _spow(-lo, n), _spow(-hi, n))
        if lo == 0 and hi > 0:
            return (0.0 if hi == INF else _spow(hi, n), INF)
        return (-INF, INF)
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if e > 0:
        return (_spow(lo, e), INF if hi == INF else _spow(hi, e))
    return (0.0 if hi == INF else (_spow(hi, e) if hi > 0 else INF), _spow(lo, e) if lo > 0 else INF)


def sexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def slog(x):
    if x <= 0:
        return -INF
    if x == INF:
        return INF
    return math.log(x)


# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "data", "iv", "key")

    def __init__(self, id, kind, data, iv, key):
        self.id, self.kind, self.data, self.iv, self.key = id, kind, data, iv, key


class Ctx:
    """Atom tables of one harness."""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.vars = {}
        self.conds = []          # cond id -> (baseSym, k, strict)
        self.cond_table = {}     # (basekey, k, strict) -> id
        self.cond_near = {}      # monomials -> [(basekey, base, k)]
        self.cond_base = {}      # id -> basekey
        self.path = None         # active Path (see paths.py) or None
        self.ops = 0
        self.fork = 0              # fork paths at expressions with at least this many cases (0: never)
        self.selections = {}     # selection atoms by the monomials of their vectors
        self.ivc = {}            # (atom, exponent) -> interval


C = Ctx()


def reset():
    global C
    C.__init__()
    _reps.clear()
    _memo.clear()


def _atom(kind, key, data, iv):
    k = (kind, key)
    a = C.table.get(k)
    if a is None:
        a = Atom(len(C.atoms), kind, data, iv, k)
        C.atoms.append(a)
        C.table[k] = a
    return a


def var(name, lo, hi):
    a = C.table.get(("var", name))
    if a is None:
        a = _atom("var", name, name, (float(lo), float(hi)))
        C.vars[name] = a
    return Sym({((a.id, 1),): 1.0})


# ----------------------------------------------------------------- polynomials
def _put(t, m, c, scale):
    o = t.get(m)
    if o is None:
        t[m] = c
    else:
        s = o + c
        if abs(s) <= 2e-13 * max(abs(o), abs(c), scale):
            del t[m]
        else:
            t[m] = s


def mk(t):
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return t[()]
    return Sym(t)


def terms(x):
    if isinstance(x, Sym):
        return x.t
    x = float(x)
    return {(): x} if x != 0 else {}


def isnum(x):
    return isinstance(x, (int, float, bool, np.floating, np.integer, np.bool_))


def nonfinite(x):
    return not isinstance(x, Sym) and not math.isfinite(x)


def special(x):
    """nan/inf as an atom, so that it can sit in one branch of a conditional."""
    if x != x:
        a = _atom("nan", 0, None, (-INF, INF))
        return Sym({((a.id, 1),): 1.0})
    a = _atom("inf", 0, None, (1e300, INF))
    return Sym({((a.id, 1),): 1.0 if x > 0 else -1.0})


def add(a, b):
    if nonfinite(a):
        return a
    if nonfinite(b):
        return b
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    t = dict(ta)
    for m, c in tb.items():
        _put(t, m, c, 0.0)
    return mk(t)


def neg(a):
    if not isinstance(a, Sym):
        return -a
    return Sym({m: -c for m, c in a.t.items()})


def scale(a, k):
    if k == 0:
        return 0.0
    if not isinstance(a, Sym):
        return a * k
    return mk({m: c * k for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def mono_mul(m1, m2):
    """Product of monomials -> (tuple, needs_expand)."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    dirty = False
    for aid, e in m2:
        o = d.get(aid)
        if o is None:
            d[aid] = e
        else:
            s = o + e
            if C.atoms[aid].kind == "ind":
                s = 1
            elif abs(s) <= 1e-12 * max(abs(o), abs(e)):
                del d[aid]
                continue
            else:
                s = canon(s) if not isinstance(s, int) else s
                if s == int(s):
                    s = int(s)
            d[aid] = s
    return tuple(sorted(d.items()))


_IND = "ind"


def _ind_norm(m):
    """Merge indicators on the same base within a monomial."""
    inds = [aid for aid, _ in m if C.atoms[aid].kind == _IND]
    if len(inds) < 2:
        return m
    best = {}
    drop = set()
    for aid in inds:
        cid = C.atoms[aid].data
        b = C.cond_base[cid]
        if b in best:
            other = best[b]
            oc = C.conds[C.atoms[other].data]
            nc = C.conds[cid]
            # keep the stronger
            if (nc[1], not nc[2]) < (oc[1], not oc[2]):
                drop.add(other)
                best[b] = aid
            else:
                drop.add(aid)
        else:
            best[b] = aid
    if not drop:
        return m
    return tuple(x for x in m if x[0] not in drop)


def mul(a, b):
    if not isinstance(a, Sym):
        if nonfinite(a):
            return _mul_special(a, b)
        return scale(b, float(a)) if isinstance(b, Sym) else a * b
    if not isinstance(b, Sym):
        if nonfinite(b):
            return _mul_special(b, a)
        return scale(a, float(b))
    C.ops += 1
    if len(b.t) == 1 and len(a.t) > 1:
        r = _cancel(a, b)
        if r is not None:
            return r
    elif len(a.t) == 1 and len(b.t) > 1:
        r = _cancel(b, a)
        if r is not None:
            return r
    t = {}
    expand = []
    sc = 0.0
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            if m:
                m = _ind_norm(m)
                big = None
                for aid, e in m:
                    if e >= 1 and e == int(e) and C.atoms[aid].kind == "poly":
                        big = aid
                        break
                if big is not None:
                    expand.append((m, c1 * c2, big))
                    continue
            _put(t, m, c1 * c2, 0.0)
    r = mk(t)
    for m, c, aid in expand:
        e = dict(m)[aid]
        rest = tuple(x for x in m if x[0] != aid)
        base = C.atoms[aid].data
        p = base
        for _ in range(int(e) - 1):
            p = mul(p, base)
        r = add(r, mul(mk({rest: c}), p))
    return r


def _cancel(a, b):
    """a * b for a single-term b with a negative power of a sum that a is a multiple of"""
    (m, c), = b.t.items()
    for aid, e in m:
        if e >= 0 or C.atoms[aid].kind != "poly":
            continue
        p = C.atoms[aid].data
        if len(p.t) != len(a.t):
            continue
        q = _ratio(a, p)
        if q is None:
            continue
        e2 = canon(e + 1)
        e2 = int(e2) if e2 == int(e2) else e2
        rest = tuple((x, (e2 if x == aid else y)) for x, y in m if not (x == aid and e2 == 0))
        return mul(mul(mk({rest: c}) if rest else c, q[1]), mk({q[0]: 1.0}) if q[0] else 1.0)
    return None


def _ratio(a, p):
    """(monomial, coefficient) with a = coefficient * monomial * p, or None"""
    ks = list(p.t)
    if all(k in a.t for k in ks):
        r = a.t[ks[0]] / p.t[ks[0]]
        if all(abs(a.t[k] - r * p.t[k]) <= 1e-12 * abs(a.t[k]) for k in ks):
            return (), r
        return None
    if len(ks) > 12 or any(C.atoms[x].kind == "ind" for k in ks for x, _ in k):
        return None
    k0 = ks[0]
    inv = tuple((x, -e) for x, e in k0)
    for m1, c1 in a.t.items():
        m = mono_mul(m1, inv)
        r = c1 / p.t[k0]
        ok = True
        for k in ks:
            v = a.t.get(mono_mul(k, m))
            if v is None or abs(v - r * p.t[k]) > 1e-12 * abs(v):
                ok = False
                break
        if ok:
            return m, r
    return None


def _mul_special(x, s):
    if x != x:
        return x
    lo, hi = iv(s)
    if lo > 0:
        return x
    if hi < 0:
        return -x
    return special(x) * s


def iv_mono(m):
    r = None
    xl = xh = 0.0              # exponents of the exp atoms, added up to avoid overflow
    cache = C.ivc
    atoms = C.atoms
    for x in m:
        q = cache.get(x)
        if q is None:
            a = atoms[x[0]]
            e = x[1]
            if a.kind == "exp":
                q = iv_scale(a.iv, e) + (1,)
            else:
                q = a.iv if e == 1 else iv_pow(a.iv, e)
            cache[x] = q
        if len(q) == 3:
            xl += q[0]
            xh += q[1]
            continue
        if r is None:
            r = q
        elif r[0] >= 0 and q[0] >= 0:
            r = (_mul(r[0], q[0]), _mul(r[1], q[1]))
        else:
            r = iv_mul(r, q)
    if xl or xh:
        q = (sexp(xl), max(sexp(xh), 5e-324))
        r = q if r is None else iv_mul(r, q)
    return r if r is not None else (1.0, 1.0)


def iv(x):
    if not isinstance(x, Sym):
        x = float(x)
        return (x, x)
    if x._iv is None:
        inds = indicators(x)
        if inds and len(inds) <= 4:
            aid = min(inds)
            p, q = iv(restrict(x, aid, True)), iv(restrict(x, aid, False))
            x._iv = (min(p[0], q[0]), max(p[1], q[1]))
            return x._iv
        lo = hi = 0.0
        for m, c in x.t.items():
            q = iv_scale(iv_mono(m), c)
            lo += q[0]
            hi += q[1]
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        x._iv = (lo, hi)
    return x._iv


def poly_key(s):
    return tuple(sorted((m, canon(c)) for m, c in s.t.items()))


def indicators(s):
    """ids of indicator atoms occurring directly in the monomials of s."""
    r = set()
    for m in s.t:
        for aid, _ in m:
            if C.atoms[aid].kind == _IND:
                r.add(aid)
    return r


def restrict(s, aid, val):
    """s with indicator atom aid := val (and implied indicators on the same base)."""
    if not isinstance(s, Sym):
        return s
    fix = implied(C.atoms[aid].data, val)
    t = {}
    for m, c in s.t.items():
        out = []
        dead = False
        for x in m:
            a = C.atoms[x[0]]
            if a.kind == _IND:
                v = fix.get(a.data)
                if v is None:
                    v = fix_lookup(fix, a.data)
                if v is True:
                    continue
                if v is False:
                    dead = True
                    break
            out.append(x)
        if not dead:
            _put(t, tuple(out), c, 0.0)
    return mk(t)


def implied(cid, val):
    return {cid: val}


def fix_lookup(fix, cid):
    """Value of condition cid implied by the decided conditions in fix (same base only)."""
    v = fix.get(cid)
    if v is not None:
        return v
    b = C.cond_base[cid]
    k, st = C.conds[cid][1], C.conds[cid][2]
    for d, dv in fix.items():
        if C.cond_base[d] != b:
            continue
        dk, dst = C.conds[d][1], C.conds[d][2]
        if dv:      # base <= dk (or <)
            if dk < k or (dk == k and (dst or not st)):
                return True
        else:       # base > dk (or >=)
            if dk > k or (dk == k and (not dst or st)):
                return False
    return None


SHANNON = 3
FORK_TO = 2


def shannon(fn, s):
    """Apply fn to s, splitting on a small number of indicators (case analysis)."""
    inds = indicators(s)
    if not inds:
        return None
    if len(inds) > SHANNON:
        if C.path is None or not C.fork or len(inds) < C.fork:
            return None
        # too many cases for one expression: continue separately in each (a path decision)
        while len(inds) > FORK_TO:
            aid = min(inds)
            s = restrict(s, aid, C.path.decide(SBool(("lit", C.atoms[aid].data, True))))
            inds = indicators(s)
        return fn(s)
    aid = min(inds)
    hi = fn(restrict(s, aid, True))
    lo = fn(restrict(s, aid, False))
    return ite_atom(aid, hi, lo)


def ite_atom(aid, a, b):
    if nonfinite(a):
        a = special(a)
    if nonfinite(b):
        b = special(b)
    I = Sym({((aid, 1),): 1.0})
    a = restrict(a, aid, True)
    b = restrict(b, aid, False)
    if same(a, b):
        return a
    return add(b, mul(I, sub(a, b)))


def same(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    d = sub(a, b)
    return not isinstance(d, Sym) and d == 0


def factor(s):
    """s (Sym, not constant) = coef * common monomial * rest, for positive common atoms.

    coef > 0.  Returns (coef, mono, rest Sym-or-float with |lead| = 1)."""
    t = s.t
    ms = list(t)
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(v, d[k]) for k, v in common.items() if k in d}
        if not common:
            break
    if common:
        common = {k: v for k, v in common.items()
                  if C.atoms[k].kind == "exp" or (C.atoms[k].iv[0] > 0 and C.atoms[k].kind not in ("ind", "nan", "inf"))}
    mono = tuple(sorted(common.items())) if common else ()
    if mono:
        inv = tuple((k, -v) for k, v in mono)
        t = {mono_mul(m, inv): c for m, c in t.items()}
    lead = t[min(t)] if len(t) > 1 else next(iter(t.values()))
    # choose the lead as the smallest non-constant monomial so that constants can vary freely
    nonconst = [m for m in t if m]
    if nonconst:
        lead = t[min(nonconst)]
    k = abs(lead)
    return k, mono, mk({m: c / k for m, c in t.items()})


def log(x):
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            return float(np.log(float(x)))
    if x._log is not None:
        return x._log
    r = shannon(log, x)
    if r is not None:
        return r
    k, mono, rest = factor(x)
    out = {}
    if k != 1:
        _put(out, (), math.log(k), 0.0)
    res = mk(out)
    for aid, e in mono:
        a = C.atoms[aid]
        if a.kind == "exp":
            res = add(res, scale(a.data, e))
        else:
            res = add(res, scale(_logatom_of_atom(a), e))
    if isinstance(rest, Sym):
        if len(rest.t) == 1:
            (m, c), = rest.t.items()
            # single monomial with a non-positive-provable atom
            if c > 0 and (len(m) > 1 or m[0][1] != 1) and all(C.atoms[a].iv[0] >= 0 or not isinstance(e, int) for a, e in m):
                for aid, e in m:
                    a = C.atoms[aid]
                    res = add(res, scale(_logatom(mk({((aid, 1),): 1.0})) if a.kind != "poly" else _logatom(a.data), e))
                return res
        return add(res, _logatom(rest))
    if rest <= 0:
        return float("nan") if rest < 0 else -INF
    return add(res, math.log(rest))


def _logatom_of_atom(a):
    if a.kind == "poly":
        return _logatom(a.data)
    return _logatom(Sym({((a.id, 1),): 1.0}))


def _logatom(p):
    lo, hi = iv(p)
    a = _atom("log", poly_key(p), p, (slog(lo), slog(hi) if hi > 0 else INF))
    return Sym({((a.id, 1),): 1.0})


def exp(x):
    r = _exp(x)
    if isinstance(r, Sym) and r._log is None:
        r._log = x
    return r


def _exp(x):
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            return float(np.exp(float(x)))
    r = shannon(_exp, x)
    if r is not None:
        return r
    res = None
    const = 1.0
    mono = {}
    polys = []
    for m, c in x.t.items():
        if not m:
            const = sexp(c)
        elif len(m) == 1 and m[0][1] == 1 and C.atoms[m[0][0]].kind == "log":
            p = C.atoms[m[0][0]].data
            polys.append((p, c))
        else:
            ms = Sym({m: 1.0})
            e = _atom("exp", m, ms, iv(ms))
            mono[e.id] = canon(c)
    t = {tuple(sorted((k, _norm_e(v)) for k, v in mono.items())): const}
    r = mk(t)
    for p, c in polys:
        r = mul(r, power(p, canon(c)))
    return r


def _norm_e(e):
    if e == int(e) and abs(e) < 1e9:
        return int(e)
    return e


def power(x, e):
    if isinstance(e, Sym):
        if not isinstance(x, Sym) and x == 1:
            return 1.0
        return exp(mul(e, log(x)))
    e = float(e)
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            return float(np.power(float(x), e))
    if e == 0:
        return 1.0
    if e == 1:
        return x
    e = _norm_e(canon(e))
    if isinstance(e, int) and 0 < e <= 6 and len(x.t) ** e <= 4096:
        r = x
        for _ in range(e - 1):
            r = mul(r, x)
        return r
    r = shannon(lambda s: power(s, e), x)
    if r is not None:
        return r
    k, mono, rest = factor(x)
    out = {}
    coef = _spow(k, e)
    m2 = []
    for aid, ee in mono:
        q = _norm_e(canon(ee * e))
        if q:
            m2.append((aid, q))
    r = mk({tuple(m2): coef})
    # a 'poly' atom raised to a positive integer must be expanded: go through mul
    if any(isinstance(q, int) and q >= 1 and C.atoms[a].kind == "poly" for a, q in m2):
        r = coef
        for a, q in m2:
            r = mul(r, power(C.atoms[a].data, q) if (C.atoms[a].kind == "poly" and isinstance(q, int) and q > 0) else mk({((a, q),): 1.0}))
    if not isinstance(rest, Sym):
        return mul(r, power(rest, e))
    if len(rest.t) == 1:
        (m, c), = rest.t.items()
        if len(m) == 1 and c > 0:
            aid, ee = m[0]
            a = C.atoms[aid]
            if a.kind == _IND:
                return mul(r, rest) if e > 0 else _polypow(r, rest, e)
            if ee == 1 or a.iv[0] >= 0:
                if a.kind in ("var", "log", "fn", "poly", "exp") and (a.iv[0] >= 0 or isinstance(e, int)):
                    q = _norm_e(canon(ee * e))
                    return mul(r, _monopow(aid, q))
        if c > 0 and all(C.atoms[a].iv[0] >= 0 and C.atoms[a].kind not in (_IND, "nan", "inf") for a, _ in m):
            for aid, ee in m:
                r = mul(r, _monopow(aid, _norm_e(canon(ee * e))))
            return r
    return _polypow(r, rest, e)


def _monopow(aid, q):
    a = C.atoms[aid]
    if a.kind == "poly" and isinstance(q, int) and q > 0:
        return power(a.data, q)
    return Sym({((aid, q),): 1.0})


def _polypow(r, rest, e):
    lo, hi = iv(rest)
    if hi < 0 or (lo < 0 and rest.t[min(m for m in rest.t if m)] < 0):
        if isinstance(e, int):
            rest = neg(rest)
            if e % 2:
                r = scale(r, -1.0) if isinstance(r, Sym) else -r
            lo, hi = -hi, -lo
    a = _atom("poly", poly_key(rest), rest, (lo, hi))
    return mul(r, Sym({((a.id, e),): 1.0}))


def div(a, b):
    if not isinstance(b, Sym):
        if not isinstance(a, Sym):
            with np.errstate(all="ignore"):
                return float(np.float64(a) / np.float64(b))
        if b == 0:
            lo, hi = iv(a)
            return INF if lo > 0 else -INF if hi < 0 else float("nan")
        if nonfinite(b):
            return 0.0 if b == b else b
        return mk({m: c / b for m, c in a.t.items()})
    if not isinstance(a, Sym) and a == 0:
        return 0.0
    return mul(a, power(b, -1))


def sqrt(x):
    return power(x, 0.5)


# ----------------------------------------------------------------- unary functions
_FN = {
    "cos": (math.cos, lambda lo, hi: (-1.0, 1.0)),
    "sin": (math.sin, lambda lo, hi: (-1.0, 1.0)),
    "tan": (math.tan, None),
    "tanh": (math.tanh, "mono"),
    "sinh": (math.sinh, "mono"),
    "cosh": (math.cosh, None),
    "arctan": (math.atan, "mono"),
    "erf": (math.erf, "mono"),
    "arcsin": (math.asin, None),
    "arccos": (math.acos, None),
    "arcsinh": (math.asinh, "mono"),
    "floor": (math.floor, "mono"),
    "ceil": (math.ceil, "mono"),
}


def _cosiv(lo, hi):
    if hi - lo >= 2 * math.pi:
        return (-1.0, 1.0)
    a, b = math.cos(lo), math.cos(hi)
    l, h = min(a, b), max(a, b)
    k = math.ceil(lo / (2 * math.pi))
    if lo <= 2 * math.pi * k <= hi:
        h = 1.0
    k = math.ceil((lo - math.pi) / (2 * math.pi))
    if lo <= math.pi + 2 * math.pi * k <= hi:
        l = -1.0
    return (l, h)


def fn_iv(name, lo, hi):
    if not (math.isfinite(lo) and math.isfinite(hi)):
        if name in ("tanh", "erf", "sin", "cos"):
            return (-1.0, 1.0)
        return (-INF, INF)
    if name == "cos":
        return _cosiv(lo, hi)
    if name == "sin":
        return _cosiv(lo - math.pi / 2, hi - math.pi / 2)
    if name == "cosh":
        c = [_c(math.cosh, lo), _c(math.cosh, hi)]
        return (1.0 if lo <= 0 <= hi else min(c), max(c))
    if name == "tan":
        if math.floor((lo + math.pi / 2) / math.pi) == math.floor((hi + math.pi / 2) / math.pi):
            return (math.tan(lo), math.tan(hi))
        return (-INF, INF)
    f, m = _FN[name]
    if m == "mono":
        return (_c(f, lo), _c(f, hi))
    return (-INF, INF)


def _c(f, x):
    try:
        return f(x)
    except (OverflowError, ValueError):
        return INF if x > 0 else -INF


def fn(name, x):
    if not isinstance(x, Sym):
        with np.errstate(all="ignore"):
            if name == "erf":
                return math.erf(x)
            return float(getattr(np, name)(float(x)))
    r = shannon(lambda s: fn(name, s), x)
    if r is not None:
        return r
    sign = 1.0
    if name == "tan":
        return div(fn("sin", x), fn("cos", x))
    if name == "cosh":      # canonical through exponentials would blow up; keep as even function
        pass
    lead = x.t[min(m for m in x.t if m)]
    if lead < 0 and name in ("sin", "tan", "tanh", "sinh", "arctan", "erf", "arcsin", "arcsinh"):
        x, sign = neg(x), -1.0
    elif lead < 0 and name in ("cos", "cosh"):
        x = neg(x)
    lo, hi = iv(x)
    a = _atom("fn", (name, poly_key(x)), (name, x), fn_iv(name, lo, hi))
    return Sym({((a.id, 1),): sign})


# ----------------------------------------------------------------- selection from long vectors
def _selection(kind, vec, i, ivl):
    """the selection atom for (vec, i); vectors that agree up to the rounding of folded constants share it"""
    group = (kind, tuple(frozenset(q.t) if isinstance(q, Sym) else None for q in vec), poly_key(i) if isinstance(i, Sym) else i)
    for a in C.selections.setdefault(group, []):
        if all(all(_near(c, o.t[m]) for m, c in q.t.items()) if isinstance(q, Sym) else _near(q, o) for q, o in zip(vec, a.data[0])):
            return Sym({((a.id, 1),): 1.0})
    a = _atom(kind, (len(C.atoms), group[2]), (vec, i), ivl)
    C.selections[group].append(a)
    return Sym({((a.id, 1),): 1.0})


def argmin(vec):
    """position of the (first) smallest element of a long vector: an opaque whole number"""
    vec = tuple(vec)
    if not any(isinstance(q, Sym) for q in vec):
        return min(range(len(vec)), key=lambda j: vec[j])
    return _selection("argmin", vec, 0.0, (0.0, float(len(vec) - 1)))


def at(vec, i):
    """vec[i] for a symbolic position i"""
    if not isinstance(i, Sym):
        return vec[int(round(i))]
    vec = tuple(vec)
    if all(not isinstance(q, Sym) and q == vec[0] for q in vec):
        return vec[0]
    ivs = [iv(q) for q in vec]
    return _selection("at", vec, i, (min(q[0] for q in ivs), max(q[1] for q in ivs)))


# ----------------------------------------------------------------- comparisons
def _norm_cond(d, strict):
    """d <= 0 (strict: d < 0) for a non-constant Sym d  ->  SBool."""
    k, mono, rest = factor(d)
    if isinstance(rest, Sym) and mono:
        # strictly positive factor does not matter
        d = rest
    if not isinstance(d, Sym):
        return (d < 0) if strict else (d <= 0)
    t = dict(d.t)
    c0 = t.pop((), 0.0)
    lead = t[min(t)]
    base = Sym({m: c / lead for m, c in t.items()})
    k = -c0 / lead
    flip = lead < 0            # base >= k
    # monotone single-atom simplifications
    for _ in range(6):
        if len(base.t) != 1:
            break
        (m, c), = base.t.items()
        if len(m) != 1:
            break
        aid, e = m[0]
        a = C.atoms[aid]
        if a.kind == "log" and e == 1:
            p = a.data
            nk = sexp(k)
        elif a.kind == "exp":
            if k <= 0:
                return flip
            p = a.data
            nk = math.log(k) / e
            if e < 0:
                flip = not flip
        elif e != 1 and a.iv[0] >= 0:
            if k <= 0:
                if k == 0 and not (e > 0 and a.iv[0] <= 0):
                    return flip
                if k < 0:
                    return flip
                nk = 0.0
            else:
                nk = _spow(k, 1.0 / e)
            p = a.data if a.kind == "poly" else Sym({((aid, 1),): 1.0})
            if e < 0:
                flip = not flip
        elif a.kind == "poly" and e == 1:
            p, nk = a.data, k
        else:
            break
        t = dict(p.t)
        c0 = t.pop((), 0.0)
        lead = t[min(t)]
        base = Sym({mm: cc / lead for mm, cc in t.items()})
        k = (nk - c0) / lead
        if lead < 0:
            flip = not flip
    k = canon(k)
    if flip:     # base >= k (strict: >)   == not (base < k) / not (base <= k)
        cid, lit = _cond(base, k, not strict)
        return (not lit) if isinstance(lit, bool) else SBool(("lit", cid, False))
    cid, lit = _cond(base, k, strict)
    return lit if isinstance(lit, bool) else SBool(("lit", cid, True))


def _near(x, y):
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y)) or abs(x - y) <= 1e-15


def _cond(base, k, strict):
    lo, hi = iv(base)
    if len(base.t) == 1:
        (m, c), = base.t.items()
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and C.atoms[m[0][0]].kind == "argmin":      # whole numbers
            k, strict = (float(math.ceil(k - 1e-9)) - 1 if strict else float(math.floor(k + 1e-9))), False
    # returns (cid, decided?) ; for the flip case the caller negates, so decide there
    if hi < k or (hi == k and not strict):
        return None, True
    if lo > k or (lo == k and strict):
        return None, False
    bk = poly_key(base)
    key = (bk, k, strict)
    if key not in C.cond_table and (bk, k, not strict) not in C.cond_table:
        # the same comparison up to the rounding of folded constants
        ms = frozenset(base.t)
        for b2, base2, k2 in C.cond_near.get(ms, ()):
            if _near(k, k2) and all(_near(c, base2.t[m]) for m, c in base.t.items()):
                bk, base, k = b2, base2, k2
                key = (bk, k, strict)
                break
        else:
            C.cond_near.setdefault(ms, []).append((bk, base, k))
    cid = C.cond_table.get(key)
    if cid is None:
        cid = len(C.conds)
        C.conds.append((base, k, strict))
        C.cond_table[key] = cid
        C.cond_base[cid] = bk
    return cid, None


def compare(op, a, b):
    if nonfinite(a) or nonfinite(b):
        a0 = a if not isinstance(a, Sym) else 0.0
        b0 = b if not isinstance(b, Sym) else 0.0
        op = "<=" if op == "<~" else op
        return {"<": a0 < b0, "<=": a0 <= b0, ">": a0 > b0, ">=": a0 >= b0, "==": False, "!=": True}[op]
    d = sub(a, b)
    if not isinstance(d, Sym):
        return {"<": d < 0, "<=": d <= 0, "<~": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
    if indicators(d):
        inds = indicators(d)
        if len(inds) <= 6:
            aid = min(inds)
            cid = C.atoms[aid].data
            x = compare(op, restrict(d, aid, True), 0.0)
            y = compare(op, restrict(d, aid, False), 0.0)
            lit = SBool(("lit", cid, True))
            return b_or(b_and(lit, x), b_and(b_not(lit), y))
    if op == "<=":
        return _cmp(d, False)
    if op == "<":
        return _cmp(d, True)
    if op == "<~":
        # either of <= and <: for conditionals whose two values agree at the tie
        r = _cmp(d, False)
        if isinstance(r, SBool):
            q = _cmp(d, True)
            if not isinstance(q, SBool):
                return q
            if C.path is not None:
                for z in (r, q):
                    v = C.path.known(z.f[1])
                    if v is not None:
                        return v == z.f[2]
            if C.conds[r.f[1]][2]:
                return q
        return r
    if op == ">":
        return b_not(_cmp(d, False))
    if op == ">=":
        return b_not(_cmp(d, True))
    e = b_and(_cmp(d, False), b_not(_cmp(d, True)))
    return e if op == "==" else b_not(e)


def _cmp(d, strict):
    lo, hi = iv(d)
    if hi < 0 or (hi == 0 and not strict):
        return True
    if lo > 0 or (lo == 0 and strict):
        return False
    r = _norm_cond(d, strict)
    return r


class SBool:
    """Boolean combination of comparison literals."""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if C.path is None:
            raise Unsupported("branch on a symbolic condition outside path exploration")
        return C.path.decide(self)

    def __and__(self, o):
        return _maybe_arr(b_and, self, o)

    def __or__(self, o):
        return _maybe_arr(b_or, self, o)

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    # arithmetic on booleans: 0/1
    def __mul__(self, o):
        return ind(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return ind(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return ind(self) - o

    def __rsub__(self, o):
        return o - ind(self)

    def __neg__(self):
        return -ind(self)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else b_not(self)
        return NotImplemented

    __hash__ = object.__hash__

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.do_ufunc(uf, method, inputs, kw)

    def any(self, *a, **k):
        return self

    all = any
    shape = ()
    ndim = 0

    def item(self):
        return self

    def __repr__(self):
        return "SBool(%r)" % (self.f,)


def _maybe_arr(f, a, b):
    if isinstance(b, np.ndarray):
        from . import symnp
        return symnp.elementwise2(f, a, b)
    return f(a, b)


def b_not(a):
    if isinstance(a, (bool, np.bool_, int)):
        return not a
    f = a.f
    if f[0] == "lit":
        return SBool(("lit", f[1], not f[2]))
    if f[0] == "and":
        return b_or_list([b_not(SBool(x)) for x in f[1]])
    return b_and_list([b_not(SBool(x)) for x in f[1]])


def _flat(kind, xs):
    out = []
    for x in xs:
        if x[0] == kind:
            out.extend(x[1])
        else:
            out.append(x)
    return out


def b_and_list(xs):
    fs = []
    for x in xs:
        if isinstance(x, SBool):
            fs.append(x.f)
        elif not x:
            return False
    fs = _flat("and", fs)
    u = []
    for f in fs:
        if f not in u:
            u.append(f)
    for f in u:
        if f[0] == "lit" and ("lit", f[1], not f[2]) in u:
            return False
    if not u:
        return True
    if len(u) == 1:
        return SBool(u[0])
    return SBool(("and", tuple(u)))


def b_or_list(xs):
    fs = []
    for x in xs:
        if isinstance(x, SBool):
            fs.append(x.f)
        elif x:
            return True
    fs = _flat("or", fs)
    u = []
    for f in fs:
        if f not in u:
            u.append(f)
    for f in u:
        if f[0] == "lit" and ("lit", f[1], not f[2]) in u:
            return True
    if not u:
        return False
    if len(u) == 1:
        return SBool(u[0])
    return SBool(("or", tuple(u)))


def b_and(a, b):
    return b_and_list([a, b])


def b_or(a, b):
    return b_or_list([a, b])


def ind(b):
    """0/1 value of a condition as a Sym."""
    if not isinstance(b, SBool):
        return 1.0 if b else 0.0
    f = b.f
    if f[0] == "lit":
        cid, pos = f[1], f[2]
        if C.path is not None:
            v = C.path.known(cid)
            if v is not None:
                return 1.0 if v == pos else 0.0
        a = _atom("ind", cid, cid, (0.0, 1.0))
        s = Sym({((a.id, 1),): 1.0})
        return s if pos else sub(1.0, s)
    if f[0] == "and":
        r = 1.0
        for x in f[1]:
            r = mul(r, ind(SBool(x)))
        return r
    r = 1.0
    for x in f[1]:
        r = mul(r, sub(1.0, ind(SBool(x))))
    return sub(1.0, r)


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if not (isnum(a) or isinstance(a, Sym)) or not (isnum(b) or isinstance(b, Sym)):
        raise Unsupported("conditional over non-numeric values")
    if nonfinite(a) and nonfinite(b) and (a == b or (a != a and b != b)):
        return a
    if nonfinite(a):
        a = special(a)
    if nonfinite(b):
        b = special(b)
    f = c.f
    if f[0] == "lit":
        cid, pos = f[1], f[2]
        if not pos:
            a, b = b, a
        if C.path is not None:
            v = C.path.known(cid)
            if v is not None:
                return a if v else b
        at = _atom("ind", cid, cid, (0.0, 1.0))
        return ite_atom(at.id, a, b)
    I = ind(c)
    if not isinstance(I, Sym):
        return a if I else b
    if same(a, b):
        return a
    return add(b, mul(I, sub(a, b)))


def smin(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if nonfinite(a):
            return a if a != a or a < 0 else b
        if nonfinite(b):
            return b if b != b or b < 0 else a
        return ite(compare("<~", a, b), a, b)
    if a != a or b != b:
        return float("nan")
    return a if a <= b else b


def smax(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if nonfinite(a):
            return a if a != a or a > 0 else b
        if nonfinite(b):
            return b if b != b or b > 0 else a
        return ite(compare("<~", a, b), b, a)
    if a != a or b != b:
        return float("nan")
    return a if a >= b else b


def sabs(a):
    if isinstance(a, Sym):
        return ite(compare("<~", a, 0.0), neg(a), a)
    return abs(a)


# ----------------------------------------------------------------- the scalar class
class Sym:
    __slots__ = ("t", "_iv", "_log")

    def __init__(self, t):
        self.t = t
        self._iv = None
        self._log = None

    def _bin(self, o, f):
        if isinstance(o, (Sym, int, float, np.floating, np.integer, np.bool_)):
            return f(self, o)
        if isinstance(o, SBool):
            return f(self, ind(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: sub(b, a))

    def __mul__(self, o):
        return self._bin(o, mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: div(b, a))

    def __pow__(self, o):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: power(b, a))

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: compare("<", a, b))

    def __le__(self, o):
        return self._bin(o, lambda a, b: compare("<=", a, b))

    def __gt__(self, o):
        return self._bin(o, lambda a, b: compare(">", a, b))

    def __ge__(self, o):
        return self._bin(o, lambda a, b: compare(">=", a, b))

    def __eq__(self, o):
        if o is self:
            return True
        return self._bin(o, lambda a, b: compare("==", a, b))

    def __ne__(self, o):
        if o is self:
            return False
        return self._bin(o, lambda a, b: compare("!=", a, b))

    __hash__ = lambda self: 7   # equal hashes: a dictionary or cache lookup compares (and forks on) the values

    def __bool__(self):
        return bool(compare("!=", self, 0.0))

    def __float__(self):
        raise Unsupported("concretisation of a symbolic value (float)")

    def __int__(self):
        raise Unsupported("concretisation of a symbolic value (int)")

    __index__ = __int__

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic value")

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import symnp
        return symnp.do_ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.do_func(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    # numpy-scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return "⟦%s⟧" % show(self)

    __str__ = __repr__


def show_mono(m):
    out = []
    for aid, e in m:
        a = C.atoms[aid]
        if a.kind == "var":
            s = a.data
        elif a.kind == "log":
            s = "log(%s)" % show(a.data)
        elif a.kind == "exp":
            s = "exp(%s)" % show(a.data)
        elif a.kind == "poly":
            s = "(%s)" % show(a.data)
        elif a.kind == "fn":
            s = "%s(%s)" % (a.data[0], show(a.data[1]))
        elif a.kind == "ind":
            b, k, st = C.conds[a.data]
            s = "[%s%s%.6g]" % (show(b), "<" if st else "<=", k)
        else:
            s = a.kind
        out.append(s if e == 1 else "%s^%.6g" % (s, e))
    return "*".join(out)


def show(x, limit=400):
    if not isinstance(x, Sym):
        return "%.12g" % x if isnum(x) else repr(x)
    s = " + ".join(("%.6g" % c if not m else (show_mono(m) if c == 1 else "%.6g*%s" % (c, show_mono(m)))) for m, c in x.t.items())
    return s if len(s) <= limit else s[:limit] + "..."


# ----------------------------------------------------------------- deep traversal
def deep_conds(x, seen=None):
    """All condition ids occurring anywhere inside x (also inside atoms)."""
    if seen is None:
        seen = (set(), set())
    conds, atoms = seen
    if isinstance(x, Sym):
        for m in x.t:
            for aid, _ in m:
                if aid in atoms:
                    continue
                atoms.add(aid)
                a = C.atoms[aid]
                if a.kind == "ind":
                    conds.add(a.data)
                    deep_conds(C.conds[a.data][0], seen)
                elif a.kind in ("log", "poly", "exp"):
                    deep_conds(a.data, seen)
                elif a.kind == "fn":
                    deep_conds(a.data[1], seen)
                elif a.kind in ("argmin", "at"):
                    for q in a.data[0]:
                        deep_conds(q, seen)
                    deep_conds(a.data[1], seen)
    return conds


def deep_atoms(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Sym):
        for m in x.t:
            for aid, _ in m:
                if aid in acc:
                    continue
                acc.add(aid)
                a = C.atoms[aid]
                if a.kind == "ind":
                    deep_atoms(C.conds[a.data][0], acc)
                elif a.kind in ("log", "poly", "exp"):
                    deep_atoms(a.data, acc)
                elif a.kind == "fn":
                    deep_atoms(a.data[1], acc)
                elif a.kind in ("argmin", "at"):
                    for q in a.data[0]:
                        deep_atoms(q, acc)
                    deep_atoms(a.data[1], acc)
    return acc


def deep_vars(x):
    return {C.atoms[a].data for a in deep_atoms(x) if C.atoms[a].kind == "var"}


def subst_bool(b, fix=None, env=None, memo=None):
    if not isinstance(b, SBool):
        return bool(b)
    f = b.f
    if f[0] == "lit":
        v = fix_lookup(fix, f[1]) if fix else None
        if v is not None:
            return v == f[2]
        base, k, st = C.conds[f[1]]
        nb = subst(base, fix, env, memo)
        r = b if isinstance(nb, Sym) and nb.t == base.t else compare("<" if st else "<=", nb, k)
        if r is b:
            return b
        return r if f[2] else b_not(r)
    xs = [subst_bool(SBool(x), fix, env, memo) for x in f[1]]
    return b_and_list(xs) if f[0] == "and" else b_or_list(xs)


def subst(x, fix=None, env=None, memo=None):
    """Rebuild x with conditions in `fix` decided and variables in `env` replaced.

    env[("cond", id)] = id2 replaces one condition by another."""
    if not isinstance(x, Sym):
        return x
    fix = fix or {}
    env = env or {}
    if memo is None:
        memo = {}
    res = 0.0
    plain = {}
    for m, c in x.t.items():
        vals = None
        for aid, e in m:
            v = _subst_atom(aid, fix, env, memo)
            if v is not None:
                vals = True
        if vals is None:
            _put(plain, m, c, 0.0)
            continue
        term = c
        rest = []
        for aid, e in m:
            v = memo[aid]
            if v is None:
                rest.append((aid, e))
            else:
                a = C.atoms[aid]
                if a.kind == "exp":
                    p = exp(scale(v, e) if isinstance(v, Sym) else v * e)
                else:
                    p = power(v, e)
                term = mul(term, p)
                if not isinstance(term, Sym) and term == 0:
                    break
        if rest and not (not isinstance(term, Sym) and term == 0):
            term = mul(term, Sym({tuple(rest): 1.0}))
        res = add(res, term)
    return add(res, mk(plain))


def _subst_atom(aid, fix, env, memo):
    """New value of the atom's underlying quantity, or None if unchanged.

    For kind 'exp' the *argument* is returned (the caller exponentiates)."""
    if aid in memo:
        return memo[aid]
    a = C.atoms[aid]
    r = None
    if a.kind == "var":
        r = env.get(a.data)
    elif a.kind == "ind":
        v = fix_lookup(fix, a.data) if fix else None
        if v is not None:
            r = 1.0 if v else 0.0
        elif env and env.get(("cond", a.data)) is not None:
            r = ind(SBool(("lit", env[("cond", a.data)], True)))
        else:
            base, k, st = C.conds[a.data]
            nb = subst(base, fix, env, memo)
            if nb is not base and not (isinstance(nb, Sym) and nb.t == base.t):
                r = ind(compare("<" if st else "<=", nb, k))
    elif a.kind in ("log", "poly", "exp"):
        p = subst(a.data, fix, env, memo)
        if not (isinstance(p, Sym) and p.t == a.data.t):
            r = log(p) if a.kind == "log" else p
    elif a.kind == "fn":
        p = subst(a.data[1], fix, env, memo)
        if not (isinstance(p, Sym) and p.t == a.data[1].t):
            r = fn(a.data[0], p)
    elif a.kind in ("argmin", "at"):
        vec = [subst(q, fix, env, memo) for q in a.data[0]]
        i = subst(a.data[1], fix, env, memo)
        r = argmin(vec) if a.kind == "argmin" else at(vec, i)
        if isinstance(r, Sym) and r.t == {((aid, 1),): 1.0}:
            r = None
    memo[aid] = r
    return r


# ----------------------------------------------------------------- concrete evaluation
def evalf(x, env, memo=None):
    if not isinstance(x, Sym):
        return float(x)
    if memo is None:
        memo = {}
    s = 0.0
    tt = x.t
    atoms = C.atoms
    if any(atoms[a].kind == "ind" for m in tt for a, _ in m):
        # decide the indicators first: terms of the cases not taken cancel exactly
        t2 = {}
        for m, c in tt.items():
            rest = []
            for a in m:
                if atoms[a[0]].kind == "ind":
                    if not _eval_atom(a[0], env, memo):
                        break
                else:
                    rest.append(a)
            else:
                _put(t2, tuple(rest), c, 0.0)
        tt = t2
    for m, c in tt.items():
        p = c
        x = 0.0
        for aid, e in m:
            v = _eval_atom(aid, env, memo)
            if C.atoms[aid].kind == "exp":
                x += v * e
            elif C.atoms[aid].kind == "ind":
                if v == 0:
                    p = 0.0
                    break
            else:
                if e == 1:
                    p *= v
                else:
                    try:
                        q = v ** e
                        p *= q if not isinstance(q, complex) else float("nan")
                    except (ZeroDivisionError, OverflowError):
                        p *= INF
        if x and p:
            p *= sexp(x)
        s += p
    return s


def _eval_atom(aid, env, memo):
    if aid in memo:
        return memo[aid]
    a = C.atoms[aid]
    k = a.kind
    if k == "var":
        r = float(env[a.data])
    elif k == "log":
        v = evalf(a.data, env, memo)
        r = math.log(v) if v > 0 else (-INF if v == 0 else float("nan"))
    elif k in ("poly", "exp"):
        r = evalf(a.data, env, memo)
    elif k == "fn":
        v = evalf(a.data[1], env, memo)
        r = _c(_FN[a.data[0]][0], v) if v == v else v
    elif k == "ind":
        r = 1.0 if eval_cond(a.data, env, memo) else 0.0
    elif k == "argmin":
        v = [evalf(q, env, memo) for q in a.data[0]]
        r = float(min(range(len(v)), key=lambda j: v[j]))
    elif k == "at":
        i = int(round(evalf(a.data[1], env, memo)))
        r = evalf(a.data[0][i], env, memo)
    elif k == "nan":
        r = float("nan")
    else:
        r = INF
    memo[aid] = r
    return r


def eval_cond(cid, env, memo=None):
    b, k, st = C.conds[cid]
    v = evalf(b, env, memo)
    return v < k if st else v <= k


def eval_bool(b, env, memo=None):
    if not isinstance(b, SBool):
        return bool(b)
    f = b.f
    if f[0] == "lit":
        return eval_cond(f[1], env, memo) == f[2]
    if f[0] == "and":
        return all(eval_bool(SBool(x), env, memo) for x in f[1])
    return any(eval_bool(SBool(x), env, memo) for x in f[1])


# ------------------------------------------------------------------ symbolic strings
class SymStr(str):
    """A string that is one of the entries of `table` (selected by the variable) or any other string.

    Comparisons are conditions on the selector; every other use splits on what the string is."""
    OTHER = "zq-other"

    def __new__(cls, name, table):
        s = str.__new__(cls, "⟦%s⟧" % name)
        s.table = list(dict.fromkeys(table))
        s.k = var(name, 0.0, float(len(s.table)))
        return s

    def _is(self, o):
        if isinstance(o, SymStr):
            return True if o is self else self._is(o.plain())
        if not isinstance(o, str):
            return False
        if o in self.table:
            return compare("==", self.k, float(self.table.index(o)))
        return o == self.plain() if o == self.OTHER else False

    def __eq__(self, o):
        return self._is(o)

    def __ne__(self, o):
        return b_not(self._is(o))

    def plain(self):
        for t in self.table:
            if bool(self._is(t)):
                return t
        return self.OTHER

    def __hash__(self):
        return hash(self.plain())

    def __str__(self):
        return self

    def __concrete__(self, env):
        v = evalf(self.k, env)
        return self.table[int(v)] if v == int(v) and int(v) < len(self.table) else self.OTHER

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic string")


def _via_plain(n):
    def f(self, *a, **k):
        return getattr(self.plain(), n)(*a, **k)
    f.__name__ = n
    return f


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace", "capitalize", "title", "split", "casefold", "swapcase", "find",
           "index", "count", "isalpha", "islower", "isupper", "isdigit", "isidentifier", "partition", "rpartition", "removeprefix", "removesuffix", "join", "encode",
           "__contains__", "__getitem__", "__len__", "__iter__", "__add__", "__mul__", "__lt__", "__le__", "__gt__", "__ge__"):
    setattr(SymStr, _n, _via_plain(_n))
