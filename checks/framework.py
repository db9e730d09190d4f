"""Properties of the model framework: scenarios, parameters, purity, accessors, interpolation (C01 ... C08)."""
import ast
import json
import os

from engine import check as K
from engine import ops as O
from engine import sym as S
from engine import symnp as N
from checks import models
from checks.models import OMIT, SPECS, spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = json.load(open(os.path.join(HERE, "refs", "params.json")))
TIER = K.TIER

# wide, physically meaningful ranges for a value outside the documented limits
WIDE = dict(mag=(0.5, 11), dip=(1, 120), v_s30=(20, 4000), depth_1_0=(0, 30), depth_2_5=(-5, 40), depth_bor=(-5, 90), depth_bot=(1, 90), depth_hyp=(-20, 300),
            depth_tor=(-5, 60), dist_crjb=(-20, 500), dist_epi=(-20, 2000), dist_hyp=(-20, 2000), dist_jb=(-20, 2000), dist_rup=(-20, 2000), dist_x=(-500, 500),
            dist_y0=(-500, 500), dpp_centered=(-50, 50), width=(0.1, 200), pga_ref=(1e-5, 50))
# an ordinary scenario, used for the inputs that are not under study
PLAIN = dict(mag=6.3, dip=60.0, v_s30=520.0, depth_1_0=0.3, depth_2_5=1.5, depth_bor=13.0, depth_bot=16.0, depth_hyp=9.0, depth_tor=2.0, dist_crjb=12.0, dist_epi=40.0,
             dist_hyp=42.0, dist_jb=37.0, dist_rup=38.0, dist_x=36.0, dist_y0=5.0, dpp_centered=0.4, width=14.0, pga_ref=0.2)
NUMKEYS = list(PLAIN)
CATKEYS = ["event_type", "is_aftershock", "mechanism", "on_hanging_wall", "region", "site_cond", "tectonic_region", "vs_source"]
KNOWN = sorted(NUMKEYS + CATKEYS)


def plain_of(mod, p):
    if p["kind"] == "num":
        v = PLAIN[p["name"]]
        lo, hi = p["min"], p["max"]
        if lo is not None and v < lo:
            v = lo + 0.25 * ((hi if hi is not None else 2 * abs(lo) + 1) - lo)
        if hi is not None and v > hi:
            v = hi - 0.25 * (hi - (lo if lo is not None else 0.0))
        return v
    return p["options"][0]


# combinations a model refuses for documented reasons
def plain(mod):
    x = {p["name"]: plain_of(mod, p) for p in TABLE[mod]["params"]}
    return x


def wide(name, lo, hi):
    a, b = WIDE[name]
    if lo is not None:
        a = min(a, lo - 0.5 * abs(lo) - 1e-3) if name not in ("v_s30", "mag", "dip", "pga_ref") else min(a, lo * 0.5)
    if hi is not None:
        b = max(b, hi * 1.5)
    return a, b


# ------------------------------------------------------------------ C02
PARAM_CODE = '''
import re
import warnings
from pygmm.model import Model, Scenario
from pygmm.%s import %s as M
NUM = re.compile(r"[-+]?[0-9]*\\.?[0-9]+(?:[eE][-+]?[0-9]+)?")
def numbers(t):
    return [float(v) for v in NUM.findall(t)]
def run(x):
    name = x["name"]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        m = object.__new__(M)
        Model.__init__(m, Scenario(**x["s"]))
    msgs = [str(r.message) for r in w]
    mine = [t for t in msgs if re.search(r"\\b%%s\\b" %% name, t)]
    out = {"used": m.scenario[name], "mine": len(mine), "others": len(msgs) - len(mine)}
    v = x["s"].get(name)
    if isinstance(v, str) or x.get("options"):
        out["shows_value"] = out["shows_low"] = out["shows_high"] = False
        out["shows_options"] = any(all(str(o) in t for o in x["options"]) for t in mine)
    else:
        rest = " ".join(t.replace(str(v), " ").replace(name, " ") for t in mine)
        out["shows_value"] = all(str(v) in t or (isinstance(v, float) and any(abs(n - v) <= 1e-3 * max(1, abs(v)) for n in numbers(t))) for t in mine)
        out["shows_low"] = x["low"] is not None and any(abs(n - x["low"]) < 1e-9 for n in numbers(rest))
        out["shows_high"] = x["high"] is not None and any(abs(n - x["high"]) < 1e-9 for n in numbers(rest))
    return out
'''


def num_claims(x, out):
    v = x["s"].get(x["name"])
    lo, hi = x["low"], x["high"]
    if v is None:
        if x["default"] == "estimate":
            return [("ok", "no warning for a value left out", out["mine"] == 0)]
        return [("eq", "default", out["used"], x["default"], 1e-12), ("ok", "no warning for a value left out", out["mine"] == 0), ("ok", "no other warning", out["others"] == 0)]
    below = False if lo is None else O.lt(v, lo)
    above = False if hi is None else O.gt(v, hi)
    if not isinstance(below, S.SBool):
        below = bool(below)
    if not isinstance(above, S.SBool):
        above = bool(above)
    outside = O.either(below, above)
    cl = [("eq", "value used unchanged", out["used"], v, 1e-12), ("ok", "no warning about another input", out["others"] == 0)]
    if out["mine"] == 0:
        cl.append(("ok", "a value outside the limits is reported", S.b_not(outside)))
    else:
        cl.append(("ok", "only a value outside the limits is reported", outside))
        cl.append(("ok", "one warning", out["mine"] == 1))
        cl.append(("ok", "the warning shows the value", out["shows_value"]))
        if not out["shows_low"]:
            cl.append(("ok", "the warning shows the lower limit", S.b_not(below)))
        if not out["shows_high"]:
            cl.append(("ok", "the warning shows the upper limit", S.b_not(above)))
    return cl


# optional inputs whose missing value is estimated by the model (shown by C05), not defaulted
ESTIMATED = {("abrahamson_silva_kamai_2014", k) for k in ("depth_tor", "width")} | {("chiou_youngs_2014", k) for k in ("depth_tor", "depth_1_0")} | {
    ("campbell_bozorgnia_2014", k) for k in ("depth_2_5", "depth_tor", "width", "depth_bor", "depth_hyp")} | {("bayless_abrahamson_2019", "depth_1_0")} | {
    ("abrahamson_silva_kamai_2014", "depth_1_0"), ("boore_stewart_seyhan_atkinson_2014", "depth_1_0")}


def param_cases(prop):
    for mod, t in TABLE.items():
        for p in t["params"]:
            if (p["kind"] == "num") != (prop == "C02"):
                continue
            yield mod, t["cls"], p


def must_refuse(x):
    raise O.Refuse("ValueError")


def raw_case(**k):
    """a spec whose case is built by hand: build() -> x"""
    build = k.pop("build")
    s = spec(num={}, opt=[], cat={}, raw=build, **k)
    return s


def others_of(mod, name):
    """symbolic values, inside their limits, for the other numeric inputs; plain options for the categorical ones"""
    x = {}
    for p in TABLE[mod]["params"]:
        n = p["name"]
        if n == name:
            continue
        if p["kind"] == "num":
            a, b = WIDE[n]
            a = max(a, p["min"]) if p["min"] is not None else max(a, 0.0) if n.startswith(("dist_", "depth_")) and n != "dist_x" else a
            b = min(b, p["max"]) if p["max"] is not None else b
            if n in ("depth_bor", "depth_bot"):
                a, b = 12.0, 40.0
            if n == "dip":
                a, b = max(a, 15.0), min(b, 90.0)
            if n == "depth_tor":
                b = min(b, 10.0)
            x[n] = S.var(n, a, b)
        else:
            x[n] = p["options"][0]
    return x


def c02_specs():
    for mod, cls, p in param_cases("C02"):
        name = p["name"]
        code = PARAM_CODE % (mod, cls)

        def given(mod=mod, p=p, name=name):
            lo, hi = wide(name, p["min"], p["max"])
            s = others_of(mod, name)
            s[name] = S.var(name, lo, hi)
            return dict(name=name, low=p["min"], high=p["max"], default=None, s=s)
        raw_case(prop="C02", name="%s.%s given" % (cls, name), mod=mod, code=code, build=given, claims=num_claims, tol=1e-9)
        for how in ("left out", "None"):
            def left(mod=mod, p=p, name=name, how=how):
                s = others_of(mod, name)
                if how == "None":
                    s[name] = None
                d = "estimate" if (mod, name) in ESTIMATED else p["default"]
                return dict(name=name, low=p["min"], high=p["max"], default=d, s=s)
            raw_case(prop="C02", name="%s.%s %s" % (cls, name, how), mod=mod, code=code, build=left, tol=1e-9,
                     **(dict(ref=must_refuse) if p["required"] else dict(claims=num_claims)))


OWN_CODE = '''
import warnings
from pygmm.model import NumericParameter
def run(x):
    p = NumericParameter("thickness", x["required"], x["low"], x["high"], x["default"])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        used = p.check(x["value"])
    return {"used": used, "warned": len(w), "named": all("thickness" in str(r.message) for r in w), "limits": [p.min, p.max, p.default, p.required]}
'''


def own_claims(x, out):
    """a parameter a user defines, whatever its limits (zero included)"""
    v, lo, hi = x["value"], x["low"], x["high"]
    used = x["default"] if v is None else v
    cl = [("ok", "the warning names the input", out["named"]), ("ok", "no value used", out["used"] is None) if used is None else ("eq", "value used", out["used"], used, 1e-12)]
    cl += [("ok" if want is None or isinstance(want, bool) else "eq", n, (got is want) if want is None or isinstance(want, bool) else got) + (() if want is None or isinstance(want, bool) else (want, 1e-12))
           for n, got, want in zip(("low", "high", "default", "required"), out["limits"], (lo, hi, x["default"], x["required"]))]
    if v is None and used is None:
        return cl + [("ok", "nothing to warn about", out["warned"] == 0)]
    below = False if lo is None else O.lt(used, lo)
    above = False if hi is None else O.gt(used, hi)
    outside = O.either(*[c if isinstance(c, S.SBool) else bool(c) for c in (below, above)])
    if out["warned"]:
        return cl + [("ok", "a value within the limits is not reported", outside)]
    return cl + [("ok", "a value outside the limits is reported", S.b_not(outside) if isinstance(outside, S.SBool) else not outside)]


def own_specs():
    for low in ("low", "zero", None):
        for high in ("high", "zero", None):
            for how in ("given", "default", "nothing"):
                def build(low=low, high=high, how=how):
                    lo = {"low": S.var("low", -10, 0) if low == "low" else None, "zero": 0.0, None: None}[low]
                    hi = {"high": S.var("high", 0, 10) if high == "high" else None, "zero": 0.0, None: None}[high]
                    return dict(low=lo, high=hi, required=how == "given", default=S.var("default", -20, 20) if how == "default" else None, value=S.var("value", -20, 20) if how == "given" else None)
                raw_case(prop="C02", name="own parameter, lower limit %s, upper limit %s, %s" % (low, high, how), mod="model", code=OWN_CODE, build=build, claims=own_claims, tol=1e-9)


# ------------------------------------------------------------------ C03
def literals(mod):
    """string constants of the model's source: what a categorical value could be compared with"""
    out = []
    for f in (mod, "model"):
        try:
            tree = ast.parse(open(os.path.join(N.SRC, f + ".py")).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 16 and n.value.replace("_", "").replace(" ", "").isalnum():
                out.append(n.value)
    return out


def tokens(mod, options):
    opts = [o for o in options if isinstance(o, str)]
    near = [o.lower() for o in opts] + [o.upper() for o in opts] + [o + " " for o in opts] + [""]
    return list(dict.fromkeys(opts + near + literals(mod)))


def cat_claims(x, out):
    v, opts = x["s"].get(x["name"]), x["options"]
    if v is None:
        if x["default"] in opts:
            return [("ok", "silent default", out["mine"] == 0), ("ok", "default used", out["used"] == x["default"]), ("ok", "no other warning", out["others"] == 0)]
        return [("ok", "default used", out["used"] == x["default"])]
    if isinstance(v, S.SymStr):
        known = O.either(*[c for c in (v == o for o in opts) if c is not False] or [False])
        known = known if isinstance(known, S.SBool) else bool(known)
    else:
        known = v in opts
    used_v, used_d = out["used"] == v, out["used"] == x["default"]
    cl = []
    if out["mine"] + out["others"] == 0:
        cl += [("ok", "a value that is not an option is reported", known), ("ok", "an option is used as given", used_v)]
    else:
        cl += [("ok", "an option is not reported", S.b_not(known)), ("ok", "the warning names the input", out["mine"] > 0),
               ("ok", "the warning shows the options", out["shows_options"]), ("ok", "the default is used instead", used_d)]
    return cl


def c03_specs():
    for mod, cls, p in param_cases("C03"):
        name, opts = p["name"], p["options"]
        code = PARAM_CODE % (mod, cls)
        base = dict(name=name, options=opts, default=p["default"])
        if all(isinstance(o, str) for o in opts):
            def given(mod=mod, name=name, opts=opts, base=base):
                return dict(base, s=dict(others_of(mod, name), **{name: S.SymStr(name, tokens(mod, opts))}))
            raw_case(prop="C03", name="%s.%s any text" % (cls, name), mod=mod, code=code, build=given, claims=cat_claims, tol=1e-9)
            values = [False, 3]
        else:
            values = list(opts) + ["yes", 2, 0.5]
        for v in values:
            raw_case(prop="C03", name="%s.%s %r" % (cls, name, v), mod=mod, code=code, claims=cat_claims, tol=1e-9,
                     build=lambda mod=mod, name=name, base=base, v=v: dict(base, s=dict(others_of(mod, name), **{name: v})))
        for how in ("left out", "None"):
            raw_case(prop="C03", name="%s.%s %s" % (cls, name, how), mod=mod, code=code, tol=1e-9,
                     build=lambda mod=mod, name=name, base=base, how=how: dict(base, s=dict(others_of(mod, name), **({name: None} if how == "None" else {}))),
                     **(dict(ref=must_refuse) if p["required"] else dict(claims=cat_claims)))


c02_specs()
own_specs()
c03_specs()


# ------------------------------------------------------------------ C01
KEYS = json.load(open(os.path.join(HERE, "refs", "scenario_keys.json")))
SC_CODE = '''
import copy
from pygmm.model import Scenario
MISSING = "missing"
def outcome(f):
    try:
        return "ok", f()
    except Warning as e:
        return "rejected", str(e)
    except TypeError as e:
        return "type error", str(e)
def look(s, keys):
    out = {}
    for k in keys:
        try:
            a = s[k]
        except KeyError:
            a = MISSING
        try:
            b = getattr(s, k)
        except AttributeError:
            b = MISSING
        out[k] = [a, b, s.get(k, MISSING), k in s, hasattr(s, k), getattr(s, k, MISSING)]
    return out
def run(x):
    kw, up, known = x["kw"], x["up"], x["known"]
    out = {}
    s = Scenario(**kw)
    out["look"] = look(s, known)
    out["keys"] = sorted(s.keys())
    out["len"] = len(s)
    # a key of any text: when building and when deriving
    key = x.get("key")
    if key is not None:
        rest = {k: v for k, v in kw.items() if k != key}
        kind, got = outcome(lambda: Scenario(**rest, **{key: x["val"]}))
        out["build"] = kind
        if kind == "ok":
            out["built"] = [got[key], getattr(got, key)]
        kind, got = outcome(lambda: s.copy_with(**{key: x["val"]}))
        out["derive"] = kind
        if kind == "ok":
            out["derived"] = [got[key], getattr(got, key)]
        out["after"] = look(s, known)
        out["after_keys"] = sorted(s.keys())
    # deriving and copying, then changing the copies in every way
    t = s.copy_with(**up)
    made = {"derive": t, "derive0": s.copy_with(), "copy": s.copy(), "copy2": copy.copy(s), "deep": copy.deepcopy(s), "twice": s.copy_with(**up).copy_with(**kw)}
    out["made"] = {n: look(c, known) for n, c in made.items()}
    out["types"] = [type(c) is Scenario for c in made.values()]
    out["equal"] = [made[n] == s for n in ("derive0", "copy", "copy2", "deep")]
    new = x["new"]
    for n, c in made.items():
        c.update(new)
        for k in list(c.keys())[::2]:
            c[k] = x["val"]
        for k in list(c.keys())[1::3]:
            del c[k]
        c["width"] = x["val"]
        out["kept_" + n] = look(s, known)
        out["kept_len_" + n] = len(s)
    # a change of the original shows in no copy
    u, v = s.copy_with(**up), copy.deepcopy(s)
    s.update(new)
    s["mag"] = x["val"]
    out["late"] = [look(u, known), look(v, known)]
    # the dictionaries of the caller are not taken over
    out["caller"] = [sorted(kw), sorted(up), [kw[k] for k in sorted(kw)]]
    return out
'''


def seen(d, known):
    return {k: [d[k], d[k], d[k], True, True, d[k]] if k in d else ["missing", "missing", "missing", False, False, "missing"] for k in known}


def sc_ref(x):
    kw, up, known = x["kw"], x["up"], x["known"]
    out = {"look": seen(kw, known), "keys": sorted(kw), "len": len(kw)}
    key = x.get("key")
    if key is not None:
        ok = any(bool(key == k) for k in KEYS)
        out["build"] = out["derive"] = "ok" if ok else "rejected"
        if ok:
            out["built"] = out["derived"] = [x["val"], x["val"]]
        out["after"] = seen(kw, known)
        out["after_keys"] = sorted(kw)
    t = {**kw, **up}
    made = {"derive": t, "derive0": kw, "copy": kw, "copy2": kw, "deep": kw, "twice": {**t, **kw}}
    out["made"] = {n: seen(c, known) for n, c in made.items()}
    out["types"] = [True] * 6
    out["equal"] = [True] * 4
    for n in made:
        out["kept_" + n] = seen(kw, known)
        out["kept_len_" + n] = len(kw)
    out["late"] = [seen({**kw, **up}, known), seen(kw, known)]
    out["caller"] = [sorted(kw), sorted(up), [kw[k] for k in sorted(kw)]]
    return out


def sc_value(n, tag):
    if n in NUMKEYS:
        return S.var("%s_%s" % (n, tag), -1e3, 1e3)
    return "%s-%s" % (n, tag)


def sc_literals():
    return [t for t in dict.fromkeys(KEYS + [k.upper() for k in KEYS] + [k + "s" for k in KEYS] + ["data", "KNOWN_KEYS", "name", "mag_", "vs30", "self", "rake", "dist"] + literals("model"))
            if t not in ("self",)]


def c01_specs():
    subsets = {"all": KEYS, "none": [], "few": ["mag", "dist_jb", "mechanism"], "odd": KEYS[::2], "even": KEYS[1::2]}
    ups = {"none": [], "one": ["v_s30"], "third": KEYS[::3]}
    for sn, ks in subsets.items():
        for un, us in ups.items():
            def build(ks=ks, us=us):
                return dict(kw={k: sc_value(k, "a") for k in ks}, up={k: sc_value(k, "b") for k in us}, new={k: sc_value(k, "c") for k in KEYS[::4]}, known=KEYS,
                            val=S.var("value", -1e3, 1e3))
            raw_case(prop="C01", name="scenario %s derive %s" % (sn, un), mod="model", code=SC_CODE, build=build, ref=sc_ref, tol=1e-12)
        if sn != "odd":
            def build2(ks=ks):
                return dict(kw={k: sc_value(k, "a") for k in ks if k not in ("width",)}, up={}, new={}, known=KEYS, val=S.var("value", -1e3, 1e3), key=S.SymStr("key", sc_literals()))
            raw_case(prop="C01", name="scenario %s any key" % sn, mod="model", code=SC_CODE, build=build2, ref=sc_ref, tol=1e-12)


c01_specs()
