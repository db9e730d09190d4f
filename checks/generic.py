"""Properties every model must satisfy, run over the catalogue of models (C04 ... C09)."""
import json

from engine import check as K
from engine import ops as O
from engine import sym as S
from checks import correl, framework, models
from checks.framework import ESTIMATED, CATKEYS, KEYS, NUMKEYS, PLAIN, TABLE, WIDE, raw_case, wide
from checks.models import OMIT, SPECS

# ------------------------------------------------------------------ what is read from a model
READ = {}
for _m, _t in TABLE.items():
    if "periods" in _t:
        READ[_m] = '{"ln_sa": np.log(m.spec_accels), "ln_std": m.ln_stds%s%s%s}' % (
            "" if _t["INDEX_PGA"] is None else ', "ln_pga": np.log(m.pga), "ln_std_pga": m.ln_std_pga',
            "" if _t["INDEX_PGV"] is None else ', "ln_pgv": np.log(m.pgv), "ln_std_pgv": m.ln_std_pgv',
            "" if _t["INDEX_PGD"] is None else ', "ln_pgd": np.log(m.pgd), "ln_std_pgd": m.ln_std_pgd')
READ["abrahamson_bhasin_2020"] = '{"ln_pgv": np.log(m.pgv), "ln_std": m.ln_std}'
READ["abrahamson_silva_1996"] = '{"ln_dur": np.log(m.duration), "std": m.std_err, "at": np.log(m.interp([0.2, 0.75, 0.9], [-1, 0, 1]))}'
READ["bayless_abrahamson_2019"] = '{"ln_eas": np.log(m.eas), "ln_std": m.ln_std}'
READ["gulerce_abrahamson_2011"] = '{"ln_ratio": np.log(m.ratio), "ln_std": m.ln_std}'
READ["afshari_stewart_2016"] = '{"ln_dur": {k: np.log(m.duration[k]) for k in m.duration.dtype.names}, "std": {k: m.std_err[k] for k in m.std_err.dtype.names}}'
READ["kempton_stewart_2006"] = '{"dur": {k: m.duration[k] for k in m.duration.dtype.names}, "std": {k: m.std_err[k] for k in m.std_err.dtype.names}}'
READ["pinilla_ramos_et_al_2023"] = '{"dur": [m.duration, m.duration_plus_sigma, m.duration_minus_sigma], "at": list(m.duration_for_energy(0.9))}'
READ["pinilla_ramos_et_al_2024"] = READ["pinilla_ramos_et_al_2023"][:-1] + ', "d575": [m.d575_median, m.d575_sigma]}'

MAKE = '''
import warnings
import numpy as np
EXTRA = ("adjust_c1", "scale_atten", "pga", "psa_1s")
def make(x):
    from pygmm.model import Scenario
    from pygmm.%(mod)s import %(cls)s as M
    kw = {k: x[k] for k in EXTRA if k in x}
    s = Scenario(**{k: v for k, v in x.items() if k not in kw})
    return s, M(s, **kw)
def read(m):
    return %(read)s
'''


class Model:
    """one conformance specification, reused as the input space of a model"""

    def __init__(self, s, **over):
        s = dict(s, **over)
        s["cat"] = {k: v for k, v in s["cat"].items() if k not in ("probe", "energies")}
        self.s, self.name, self.mod, self.cls = s, s["name"], s["mod"], TABLE[s["mod"]]["cls"]
        self.params = {p["name"]: p for p in TABLE[self.mod]["params"]}
        self.code = MAKE % dict(mod=self.mod, cls=self.cls, read=READ[self.mod])

    def configs(self, t):
        s = dict(self.s, quick_t=t)
        return models.configs(s, "quick" if t else "thorough")

    def x(self, cfg):
        return {k: v for k, v in models.make_x(dict(self.s, more={}), cfg)().items()}

    def assume(self, x, cfg):
        return self.s["assume"](x, cfg) if self.s.get("assume") else []

    def cats(self):
        return {k: [v for v in vs if v is not OMIT] for k, vs in self.s["cat"].items()}


MODELS = []
for _s in list(SPECS):
    if _s["mod"] in READ and _s["prop"] in ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"):
        if _s["mod"] == "pinilla_ramos_et_al_2024":
            _s = dict(_s, cat=dict(event_type=["interface", "slab"], region=["Japan", "New Zealand", "South America", "Taiwan"]),
                      ok=lambda c: not (c["event_type"] == "interface" and c["region"] == "Taiwan"))
        if _s["name"] == "CB14":   # the estimated hypocentral depth is explored with the other depths estimated as well
            _s = dict(_s, ok=lambda c, f=_s["ok"]: f(c) and (c["?depth_hyp"] or not (c["?width"] or c["?depth_tor"] or c["?depth_bor"] or c["?depth_bot"] or c["!width"])))
        if _s["name"] == "CY14":   # between the hinges of the estimated depth
            _s = dict(_s, zones=dict(mag=models.Z(3.5, 4.97, 5.849, 4.97 + 2.673 / 1.136, 5.849 + 2.704 / 1.226, 8.5)))
        if _s["name"] == "AS16":
            _s = dict(_s, cat=dict(mechanism=["SS", "NS", "RS"]))
        MODELS.append(Model(_s))
_ab = [s for s in SPECS if s["name"] == "AB20"][0]
MODELS.append(Model(_ab, num=dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(180, 1500), pga=(1e-4, 3)), cat={}, ref=None))

T1 = 2 if K.TIER == "thorough" else 1


def add(prop, model, name, code, wrap, configs, claims=None, ref=None, tol=1e-9, **k):
    """a raw specification: wrap(x, cfg) -> harness input; assumptions are those of the model's own inputs"""
    def build(**c):
        cfg = json_cfg[c["n"]]
        return wrap(model.x(cfg), cfg)
    json_cfg = configs

    def assume(x, c):
        return model.assume(x["a"] if "a" in x else x, json_cfg[c["n"]]) if "zero" not in x else []
    raw_case(prop=prop, name=name, mod=model.mod, code=model.code + code, build=build, raw_configs=[dict(n=i) for i in range(len(configs))], assume=assume if model.s.get("assume") else None,
             claims=claims, ref=ref, tol=tol, label_of=lambda c: json_cfg[c["n"]], **k)


# ------------------------------------------------------------------ C04
PURE = '''
def kept(now, before):
    return list(now) == list(before) and all(now[k] is before[k] or bool(now[k] == before[k]) for k in before)
def obs(x):
    given = dict(x)
    try:
        s, m = make(x)
    except Exception as e:
        return {"refused": type(e).__name__}, None, True
    before = {k: v for k, v in given.items() if k not in EXTRA}
    r = read(m)
    same = kept(s.data, before) and kept(x, given)
    again = read(m)
    return {"first": r, "second": again}, m, same
def run(x):
    fresh(MOD)
    alone, m, ok1 = obs(x["a"])
    fresh(MOD)
    start = tables()
    b1, mb, ok2 = obs(x["b"])
    after, ma, ok3 = obs(x["a"])
    late = None if mb is None else read(mb)
    b2, mc, ok4 = obs(x["b"])
    late_a = None if ma is None else read(ma)
    return {"alone": alone, "after": after, "late_a": late_a, "b": b1, "b again": b2, "b late": late, "inputs": [ok1, ok2, ok3, ok4], "tables": tables_changed(start)}
'''


def pure_claims(x, out):
    cl = [("ok", "inputs of the caller unchanged", all(v is True for v in out["inputs"])), ("ok", "coefficient tables unchanged", out["tables"] == [])]
    for a, b in (("alone", "after"), ("b", "b again")):
        cl.append(("eq", "%s / %s" % (a, b), out[a], out[b]))
    for a, b in (("after", "late_a"), ("b", "b late")):
        if "first" in out[a]:
            cl.append(("eq", "%s / second reading" % a, out[a]["first"], out[a]["second"]))
            cl.append(("eq", "%s / %s" % (a, b), out[a]["first"], out[b]))
    return cl


def second(model, x, part):
    """another scenario of the model: part of the numbers shared, the others and the options different, optional inputs left out unless shared"""
    b = {}
    nums = [n for n in model.s["num"] if n not in ("adjust_c1", "scale_atten")]
    for i, n in enumerate(nums):
        shared = part == 2 and i % 2 == 0 or part == 3 and i % 2 == 1
        if shared and n in x:
            b[n] = x[n]
        elif n not in model.s["opt"]:
            lo, hi = model.s["num"][n]
            b[n] = PLAIN.get(n, 0.3) if lo <= PLAIN.get(n, 0.3) <= hi else 0.6 * lo + 0.4 * hi
    if model.mod == "akkar_sandikkaya_bommer_2014" and not any(k.startswith("dist") for k in b):
        b["dist_jb"] = 30.0
    if model.mod == "campbell_bozorgnia_2014":   # its geometry given, so that it adds no branches
        b.update(mag=6.2, width=11.0, depth_hyp=8.0, depth_bor=14.0, depth_bot=15.0, depth_tor=2.0)
    if model.mod == "abrahamson_gregor_addo_2016":
        b["dist_rup"], b["dist_hyp"] = 80.0, 90.0
    for k, vs in model.cats().items():
        if k == "adjust_c1":
            continue
        i = vs.index(x[k]) if x.get(k) in vs else -1
        b[k] = vs[(i + 1) % len(vs)]
    if part > 1 and "on_hanging_wall" in b and model.name == "ASK14":
        b["on_hanging_wall"] = False
    if b.get("region") == "Taiwan":
        b["event_type"] = "slab"
    return b


for _m in MODELS:
    for _part in (1, 2, 3):
        add("C04", _m, "%s then another scenario %d" % (_m.name, _part), PURE.replace("MOD", repr(_m.mod)),
            (lambda x, cfg, m=_m, p=_part: dict(a=x, b=second(m, x, p))), _m.configs(T1), claims=pure_claims)


# ------------------------------------------------------------------ C05
# inputs a model can leave undetermined: it then leaves out the term that would use them
UNSET = {("abrahamson_silva_kamai_2014", "dist_y0"), ("abrahamson_silva_kamai_2014", "depth_1_0"), ("abrahamson_silva_kamai_2014", "dist_crjb"), ("boore_stewart_seyhan_atkinson_2014", "depth_1_0"),
         ("campbell_bozorgnia_2014", "depth_1_0"), ("afshari_stewart_2016", "depth_1_0"), ("akkar_sandikkaya_bommer_2014", "dist_jb"), ("akkar_sandikkaya_bommer_2014", "dist_epi"),
         ("akkar_sandikkaya_bommer_2014", "dist_hyp"), ("abrahamson_gregor_addo_2016", "dist_rup"), ("abrahamson_gregor_addo_2016", "dist_hyp"), ("abrahamson_gregor_addo_2016", "depth_hyp"),
         ("abrahamson_bhasin_2020", "pga")}
EFF = '''
def run(x):
    s, m = make(x["a"])
    names = x["names"]
    eff = {n: m.scenario[n] for n in names}
    r = read(m)
    kw = {k: x["a"][k] for k in EXTRA if k in x["a"]}
    from pygmm.%(mod)s import %(cls)s as M
    from pygmm.model import Scenario
    m2 = M(Scenario(**{n: v for n, v in eff.items() if v is not None}), **kw)
    m3 = M(m.scenario, **kw)
    return {"eff": eff, "keys": sorted(m.scenario.keys()), "r": r, "eff2": {n: m2.scenario[n] for n in names}, "r2": read(m2), "eff3": {n: m3.scenario[n] for n in names}, "r3": read(m3),
            "later": {n: m.scenario[n] for n in names}, "attrs": {n: getattr(m.scenario, n) for n in names}}
'''


def eff_claims(mod):
    def claims(x, out):
        cl = [("ok", "every documented input is shown", all(n in out["keys"] for n in x["names"]))]
        for n in x["names"]:
            v = x["a"].get(n)
            if v is not None:
                cl.append(("eq", "%s as given" % n, out["eff"][n], v, 1e-12))
            elif (mod, n) not in UNSET:
                cl.append(("ok", "%s left out: the value used is shown" % n, out["eff"][n] is not None))
                p = [p for p in TABLE[mod]["params"] if p["name"] == n][0]
                if p["default"] is not None and (mod, n) not in ESTIMATED:
                    cl.append(("eq", "%s left out: the default is shown" % n, out["eff"][n], p["default"], 1e-12))
        for k in ("later", "attrs", "eff2", "eff3"):
            cl.append(("eq", k, out[k], out["eff"]))
        cl += [("eq", "fed back", out["r2"], out["r"]), ("eq", "scenario fed back", out["r3"], out["r"])]
        return cl
    return claims


for _m in MODELS:
    if _m.mod not in ("abrahamson_bhasin_2020",):
        add("C05", _m, "%s effective inputs" % _m.name, EFF % dict(mod=_m.mod, cls=_m.cls),
            (lambda x, cfg, m=_m: dict(a=x, names=list(m.params))), _m.configs(1 if K.TIER == "quick" and _m.name in ("CB14", "ASK14") else T1 + 1), claims=eff_claims(_m.mod))

ZERO = '''
def run(x):
    out = []
    for k in ("zero", "near"):
        s, m = make(x[k])
        out.append(read(m))
    s, m = make(x["zero"])
    return {"zero": out[0], "near": out[1], "used": m.scenario[x["name"]]}
'''
NOT_ZERO = {"width", "dip", "depth_bot", "depth_bor", "mag", "v_s30", "pga_ref", "pga", "scale_atten", "adjust_c1"}


def ordinary(model, x):
    """the inputs of x with ordinary numbers"""
    out = dict(x)
    for k, (lo, hi) in model.s["num"].items():
        if k in x:
            out[k] = 1.0 if k == "scale_atten" else PLAIN.get(k, 0.3) if lo <= PLAIN.get(k, 0.3) <= hi else 0.7 * lo + 0.3 * hi
    return out


def near_zero(model, x, n):
    """ordinary inputs, the input n zero and anything up to a millionth"""
    x = ordinary(model, x)
    return dict(zero=dict(x, **{n: 0.0}), near=dict(x, **{n: S.var("small", 0, 1e-6)}), name=n)


def zero_claims(x, out):
    return [("eq", "zero used as supplied", out["used"], 0.0, 1e-12), ("eq", "zero / almost zero", out["zero"], out["near"])]


for _m in MODELS:
    for _n, (_lo, _hi) in _m.s["num"].items():
        if _n in NOT_ZERO or not _lo <= 0.0 < _hi or (_m.name, _n) in {("CB14", "dist_rup")}:
            continue
        _cfgs = []
        for c in _m.configs(1):
            zs = _m.s.get("zones", {}).get(_n)
            i = [j for j, (a, b) in enumerate(zs or []) if a <= 0 < b]
            if zs and not i:
                continue
            c = dict(c, **({"@" + _n: i[0]} if zs else {}), **({"?" + _n: True} if _n in _m.s["opt"] else {}))
            if (_m.s.get("ok") is None or _m.s["ok"](c)) and c not in _cfgs:
                _cfgs.append(c)
        add("C05", _m, "%s %s of zero" % (_m.name, _n), ZERO, (lambda x, cfg, m=_m, n=_n: near_zero(m, x, n)), _cfgs, claims=zero_claims, tol=1e-3)


# ------------------------------------------------------------------ C06
UNUSED = '''
import pygmm.model
import pygmm.MOD
def obs(x):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            s, m = make(x)
            r = read(m)
            eff = {n: m.scenario[n] for n in NAMES}
        except Exception as e:
            return {"refused": type(e).__name__}, []
    return {"r": r, "eff": eff}, sorted(str(i.message) for i in w)
def run(x):
    plain, wp = obs(x["a"])
    out = {}
    for k in ("some", "others", "changed"):
        r, w = obs(dict(x[k], **x["a"]))
        out[k] = [r, w == wp]
    return {"plain": plain, "with": out}
'''


def unused_claims(x, out):
    cl = []
    for k, (r, w) in out["with"].items():
        cl += [("ok", "%s: same warnings" % k, w), ("eq", "%s: same result" % k, r, out["plain"])]
    return cl


def extras(model, t):
    """recognised keys the model does not document, with any value"""
    out = {}
    for k in KEYS:
        if k in model.params or k in model.s["num"]:
            continue
        if k in NUMKEYS:
            lo, hi = WIDE[k]
            out[k] = S.var("%s_%s" % (k, t), lo, hi)
        elif k in ("is_aftershock", "on_hanging_wall"):
            out[k] = t == "p"
        else:
            out[k] = S.SymStr("%s_%s" % (k, t), list(dict.fromkeys(CATVALUES[k] + framework.literals(model.mod)[:40])))
    return out


CATVALUES = {}
for _t in TABLE.values():
    for _p in _t["params"]:
        if _p["kind"] != "num":
            CATVALUES.setdefault(_p["name"], []).extend(o for o in _p["options"] if isinstance(o, str) and o not in CATVALUES.get(_p["name"], []))


def with_extras(model, x):
    e, f = extras(model, "p"), extras(model, "q")
    ks = list(e)
    return dict(a=x, some={k: e[k] for k in ks[::2]}, others={k: e[k] for k in ks[1::2]}, changed=f)


for _m in MODELS:
    add("C06", _m, "%s with inputs it does not use" % _m.name, UNUSED.replace("MOD", _m.mod).replace("NAMES", repr([n for n in _m.params])), (lambda x, cfg, m=_m: with_extras(m, x)), _m.configs(T1), claims=unused_claims)
