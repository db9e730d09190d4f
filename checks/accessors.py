"""Accessors and interpolation of ground-motion models (C07, C08): real models and a user-defined subclass with arbitrary responses."""
import math

from engine import check as K
from engine import ops as O
from engine import sym as S
from checks.framework import TABLE, raw_case
from checks.generic import MODELS, OMIT, T1, add

ACCESS = '''
REFUSABLE = ("pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd")
def refused(m):
    out = []
    for n in REFUSABLE:
        try:
            getattr(m, n)
        except NotImplementedError:
            out.append(n)
        except TypeError:
            if not n.startswith("ln_std"):
                raise
    return out
def shape(m):
    return {"periods": [float(p) for p in m.periods], "lens": [len(m.spec_accels), len(m.ln_stds), len(m.periods)], "refused": refused(m)}
'''
REAL = ACCESS + '''
def run(x):
    s, m = make(x)
    return {"shape": shape(m), "values": read(m)}
'''


def absent(t):
    out = []
    for k, ns in (("INDEX_PGA", ("pga", "ln_std_pga")), ("INDEX_PGV", ("pgv", "ln_std_pgv")), ("INDEX_PGD", ("pgd", "ln_std_pgd"))):
        if t[k] is None:
            out += ns
    return out


def access_claims(m):
    t = TABLE[m.mod]

    def claims(x, out):
        sh = out["shape"]
        cl = [("ok", "periods are the published oscillator periods", sh["periods"] == t["periods"]), ("ok", "matching lengths", sh["lens"] == [len(t["periods"])] * 3),
              ("ok", "periods are positive and in increasing order", all(a < b for a, b in zip([0.0] + sh["periods"], sh["periods"]))),
              ("ok", "what the model does not predict is refused", sh["refused"] == absent(t))]
        want = m.s["ref"](x)
        cl.append(("eq", "values", {k: v for k, v in out["values"].items() if k in want}, {k: v for k, v in want.items() if k in out["values"]}, m.s.get("tol", 1e-6)))
        return cl
    return claims


SEEN = []
for _m in MODELS:
    if "periods" in TABLE[_m.mod] and _m.mod not in SEEN:
        SEEN.append(_m.mod)
        _cs = _m.configs(T1)
        add("C07", _m, "%s accessors" % _m.name, REAL, (lambda x, cfg: x), _cs if K.TIER == "thorough" else _cs[:6], claims=access_claims(_m))

TOY = '''
import numpy as np
from pygmm import model
def build(t, x):
    class Toy(model.GroundMotionModel):
        NAME = "toy"
        ABBREV = "T"
        PERIODS = np.array(t["all"])
        INDICES_PSA = np.array(t["idx"])
        INDEX_PGA = t["pga"]
        INDEX_PGV = t["pgv"]
        INDEX_PGD = t["pgd"]
        PGV_SCALE = t["vs"]
        PGD_SCALE = t["ds"]
        PARAMS = [model.NumericParameter("mag", True)]
        def __init__(self, scenario):
            super().__init__(scenario)
            self._ln_resp = np.array(x["resp"])
            if x.get("std") is not None:
                self._ln_std = np.array(x["std"])
    return Toy(model.Scenario(mag=6))
'''
TOY7 = TOY + ACCESS + '''
def run(x):
    t = x["t"]
    m = build(t, x)
    out = {"periods": [float(p) for p in m.periods], "sa": m.spec_accels, "refused": refused(m)}
    if x.get("std") is None:
        try:
            m.ln_stds
        except NotImplementedError:
            out["refused"].append("ln_stds")
        try:
            m.interp_ln_stds([0.1])
        except NotImplementedError:
            out["refused"].append("interp_ln_stds")
    else:
        out["std"] = m.ln_stds
    for n in REFUSABLE:
        if n not in out["refused"] and (x.get("std") is not None or not n.startswith("ln_std")):
            out[n] = getattr(m, n)
    return out
'''


def toy7_ref(x):
    t, r, s = x["t"], x["resp"], x.get("std")
    e = [O.exp(v) for v in r]
    out = {"periods": [t["all"][i] for i in t["idx"]], "sa": [e[i] for i in t["idx"]], "refused": absent(dict(INDEX_PGA=t["pga"], INDEX_PGV=t["pgv"], INDEX_PGD=t["pgd"]))}
    if s is None:
        out["refused"] += ["ln_stds", "interp_ln_stds"]
    else:
        out["std"] = [s[i] for i in t["idx"]]
    for n, k in (("pga", 1.0), ("pgv", t["vs"]), ("pgd", t["ds"])):
        if t[n] is not None:
            out[n] = e[t[n]] * k
            if s is not None:
                out["ln_std_" + n] = s[t[n]]
    return out


def vec(name, n, lo, hi):
    return [S.var("%s%d" % (name, i), lo, hi) for i in range(n)]


LAYOUTS = {
    "all": dict(all=[0.0, -1.0, -2.0, 0.02, 0.1, 0.5, 3.0], idx=[3, 4, 5, 6], pga=0, pgv=1, pgd=2, vs=980.665, ds=100.0),
    "peaks last": dict(all=[0.01, 0.2, 1.0, -1.0, 0.0], idx=[0, 1, 2], pga=4, pgv=3, pgd=None, vs=1.0, ds=1.0),
    "shared first": dict(all=[0.01, 0.05, 2.0, 7.5], idx=[0, 1, 2, 3], pga=0, pgv=None, pgd=None, vs=1.0, ds=1.0),
    "last index": dict(all=[0.3, 0.1, 2.0, -2.0], idx=[1, 0, 2], pga=None, pgv=None, pgd=-1, vs=1.0, ds=25.0),
    "nothing": dict(all=[0.1, 1.0, 4.0], idx=[0, 1, 2], pga=None, pgv=None, pgd=None, vs=1.0, ds=1.0),
}
for _n, _t in LAYOUTS.items():
    for _std in (True, False):
        raw_case(prop="C07", name="subclass, %s%s" % (_n, "" if _std else ", no deviations"), mod="model", code=TOY7, tol=1e-9, ref=toy7_ref,
                 build=lambda t=_t, std=_std: dict(t=t, resp=vec("r", len(t["all"]), -15, 5), std=vec("s", len(t["all"]), 0.1, 2) if std else None))

# ------------------------------------------------------------------ C08
TOY8 = TOY + '''
def run(x):
    m = build(x["t"], x)
    q = x["q"]
    return {"ln": m.interp_ln_spec_accels(q), "sa": m.interp_spec_accels(q), "std": m.interp_ln_stds(q), "one": m.interp_ln_spec_accels(q[0]), "kind": m.interp_ln_spec_accels(q, "linear"),
            "tuple": m.interp_ln_stds(tuple(q)), "array": m.interp_spec_accels(np.array(q)), "again": m.interp_ln_spec_accels(q[::-1]), "table": [m.spec_accels, m.ln_stds, m.periods]}
'''


def loglin(nodes, vals, p):
    order = sorted(range(len(nodes)), key=lambda i: nodes[i])
    if bool(O.lt(p, nodes[order[0]])) or bool(O.gt(p, nodes[order[-1]])):
        return float("nan")
    for a, b in zip(order, order[1:]):
        if bool(O.le(p, nodes[b])):
            w = (O.log(p) - math.log(nodes[a])) / (math.log(nodes[b]) - math.log(nodes[a]))
            return vals[a] + w * (vals[b] - vals[a])


def toy8_ref(x):
    t = x["t"]
    nodes = [t["all"][i] for i in t["idx"]]
    r, s = [x["resp"][i] for i in t["idx"]], [x["std"][i] for i in t["idx"]]
    ln = [loglin(nodes, r, p) for p in x["q"]]
    sd = [loglin(nodes, s, p) for p in x["q"]]
    sa = [O.exp(v) if isinstance(v, S.Sym) or v == v else v for v in ln]
    return {"ln": ln, "sa": sa, "std": sd, "one": ln[0], "kind": ln, "tuple": sd, "array": sa, "again": ln[::-1], "table": [[O.exp(v) for v in r], s, nodes]}


NODES = {
    "two": dict(all=[0.1, 2.0, 0.0], idx=[0, 1]),
    "five": dict(all=[0.0, 0.02, 0.05, 0.4, 1.0, 7.5], idx=[1, 2, 3, 4, 5]),
    "not in order": dict(all=[1.0, 0.05, 0.0, 4.0, 0.2], idx=[0, 1, 3, 4]),
    "falling": dict(all=[10.0, 3.0, 0.5, 0.03], idx=[0, 1, 2, 3]),
    "index out of order": dict(all=[0.01, 0.1, 1.0, 10.0], idx=[2, 0, 3, 1]),
}
for _n, _t in NODES.items():
    _t = dict(dict(pga=None, pgv=None, pgd=None, vs=1.0, ds=1.0), **_t)
    _nodes = [_t["all"][i] for i in _t["idx"]]
    _shuffled = _nodes[1::2] + _nodes[::-2] + [0.9 * min(_nodes), 1.1 * max(_nodes), _nodes[0]]
    for _k, _q in (("any one period", lambda nodes: [S.var("p", 0.001, 20)]),
                   ("any period between others", lambda nodes: [nodes[-1], S.var("p", 0.001, 20), nodes[0], 0.5 * (nodes[0] + nodes[1]), 100.0]),
                   ("two periods", None if K.TIER == "quick" else lambda nodes: [S.var("p", 0.01, 10), S.var("q", 0.01, 10)]),
                   ("every node", lambda nodes, s=_shuffled: list(s))):
        if _q is None:
            continue
        raw_case(prop="C08", name="subclass, nodes %s, %s" % (_n, _k), mod="model", code=TOY8, tol=1e-9, ref=toy8_ref,
                 build=lambda t=_t, q=_q, nodes=_nodes: dict(t=t, resp=vec("r", len(t["all"]), -15, 5), std=vec("s", len(t["all"]), 0.1, 2), q=q(nodes)))

REAL8 = '''
def run(x):
    s, m = make(x)
    ps = [float(p) for p in m.periods]
    mid = [(a * b) ** 0.5 for a, b in zip(ps, ps[1:])]
    q = ps[1::2] + [0.99 * ps[0]] + ps[::-2] + mid + [1.01 * ps[-1]]
    third = [(a * a * b) ** (1 / 3.) for a, b in zip(ps, ps[1:])][::-1]
    return {"periods": ps, "ln_sa": np.log(m.spec_accels), "ln_std": m.ln_stds, "ln": m.interp_ln_spec_accels(q), "sa": np.log(m.interp_spec_accels(q)), "sd": m.interp_ln_stds(q),
            "third": m.interp_ln_spec_accels(np.array(third)), "third_sd": m.interp_ln_stds(third), "node": m.interp_ln_spec_accels(ps[-1])}
'''


def real8_claims(x, out):
    nan = float("nan")
    a, s = list(out["ln_sa"]), list(out["ln_std"])

    def want(v):
        return v[1::2] + [nan] + v[::-2] + [0.5 * (p + q) for p, q in zip(v, v[1:])] + [nan]

    def third(v):
        return [(2 * p + q) / 3. for p, q in zip(v, v[1:])][::-1]
    return [("eq", "spectrum", list(out["ln"]), want(a)), ("eq", "exponential", list(out["sa"]), want(a)), ("eq", "deviations", list(out["sd"]), want(s)),
            ("eq", "spectrum, a third on", list(out["third"]), third(a)), ("eq", "deviations, a third on", list(out["third_sd"]), third(s)), ("eq", "one node", out["node"], a[-1])]


SEEN = []
for _m in MODELS:
    if "periods" in TABLE[_m.mod] and _m.mod not in SEEN:
        SEEN.append(_m.mod)
        _cs = _m.configs(T1)
        add("C08", _m, "%s interpolation" % _m.name, REAL8, (lambda x, cfg: x), _cs if K.TIER == "thorough" else _cs[:3], claims=real8_claims)
