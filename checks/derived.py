"""Properties derived from the published equations, decided on the output of the real models (C09, C31 ... C34)."""
import math

from engine import check as K
from engine import ops as O
from engine import sym as S
from checks import generic, models
from checks.framework import PLAIN, TABLE, raw_case
from checks.models import OMIT
from checks.generic import MODELS, Model, T1, add
from refs import asb14, ba19, correl, dbc14, durations, subduction

BY = {m.name: m for m in MODELS}

# ------------------------------------------------------------------ C33
PARTS = '''
def pick(m, v, i):
    return None if v is None or i is None else v[i]
def run(x):
    s, m = make(x)
    M = type(m)
    tau, phi = getattr(m, "_tau", None), getattr(m, "_phi", None)
    out = {}
    for n, i in (("sa", M.INDICES_PSA), ("pga", M.INDEX_PGA), ("pgv", M.INDEX_PGV)):
        if i is not None:
            t, p = pick(m, tau, i), pick(m, phi, i)
            out[n] = [m.ln_stds if n == "sa" else m.ln_std_pga if n == "pga" else m.ln_std_pgv, t if p is not None else None, p if t is not None else None]
    return out
'''


def parts_claims(ref):
    def claims(x, out):
        cl = []
        want = ref(x)
        for n in ("sa", "pga", "pgv"):
            if n not in out:
                continue
            tot, tau, phi = [([v] if K.isnumish(v) else v) for v in out[n]]
            w = want["ln_std" if n == "sa" else "ln_std_" + n]
            w = w if isinstance(w, (list, tuple)) else [w]
            for i, t in enumerate(tot):
                if tau is not None:
                    cl.append(("eq", "%s[%d] squared / tau^2 + phi^2" % (n, i), t * t, tau[i] * tau[i] + phi[i] * phi[i], 1e-9))
                cl.append(("eq", "%s[%d] / published" % (n, i), t, w[i], 1e-6))
        return cl
    return claims


for _n in ("ASK14", "BSSA14", "CB14", "CY14"):
    add("C33", BY[_n], "%s parts of the deviation" % _n, PARTS, (lambda x, cfg: x), BY[_n].configs(T1 + 1), claims=parts_claims(BY[_n].s["ref"]))

TOTAL = '''
def run(x):
    s, m = make(x)
    M = type(m)
    out = {"sa": m.ln_stds}
    if M.INDEX_PGA is not None:
        out["pga"] = m.ln_std_pga
    if M.INDEX_PGV is not None:
        out["pgv"] = m.ln_std_pgv
    return out
'''


def total_claims(parts, tol):
    """parts(x): {"sa": [(between, within)...], ...} published deviations; tolerance of the rounding of the published total"""
    def claims(x, out):
        cl = []
        for n, ps in parts(x).items():
            tot = out[n] if n == "sa" else [out[n]]
            cl.append(("ok", "%s: one deviation per period" % n, len(tot) == len(ps)))
            cl += [("eq", "%s[%d]" % (n, i), t, O.sqrt(a * a + b * b), tol) for i, (t, (a, b)) in enumerate(zip(tot, ps))]
        return cl
    return claims


def asb_parts(x):
    k = next(k for k in ("dist_jb", "dist_hyp", "dist_epi") if x.get(k) is not None)
    p = [(c["sd_between"], c["sd_within"]) for c in asb14.T[k]]
    return dict(sa=p[2:64], pga=p[:1], pgv=p[1:2])


def dbc_parts(x):
    t = dbc14.D["log10_std"]
    p = [(a * math.log(10), b * math.log(10)) for a, b in zip(t["between"], t["within"])]
    return dict(sa=p[2:], pgv=p[:1], pga=p[1:2])


def bch_parts(x):
    p = [(c["tau"], c["phi"]) for c in subduction.BCH]
    return dict(sa=p[1:], pga=p[:1])


def cob_parts(x):
    p = [(c["tau"], c["phi"]) for c in subduction.COB]
    return dict(sa=p, pga=p[:1])


for _n, _f, _t in (("ASB14", asb_parts, 2e-4), ("DBC14", dbc_parts, 2.5e-3), ("BCHydro", bch_parts, 1e-9), ("CoB14", cob_parts, 1e-9)):
    add("C33", BY[_n], "%s parts of the deviation" % _n, TOTAL, (lambda x, cfg: x), BY[_n].configs(T1 + 1), claims=total_claims(_f, _t))

STD = '''
def run(x):
    s, m = make(x)
    return {"std": %s}
'''


add("C33", BY["AS16"], "AS16 parts of the deviation", STD % '{k: m.std_err[k] for k in m.std_err.dtype.names}', (lambda x, cfg: x), BY["AS16"].configs(2),
    claims=lambda x, out: [("eq", k, out["std"][k], v, 1e-9) for k, v in durations.as16(x)["sd"].items()] + [("ok", "all measures", sorted(out["std"]) == sorted(durations.as16(x)["sd"]))])
add("C33", BY["BA19"], "BA19 parts of the deviation", STD % 'm.ln_std', (lambda x, cfg: x), BY["BA19"].configs(1),
    claims=lambda x, out: [("eq", "std", list(out["std"]), ba19.std(x), 1e-9)])
for _g in ("pga", "psa_1s"):
    _m = Model(dict(BY["AB20"].s, num=dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(180, 1500), **{_g: (1e-4, 3)})))
    add("C33", _m, "AB20 %s parts of the deviation" % _g, STD % 'm.ln_std', (lambda x, cfg: x), _m.configs(None),
        claims=(lambda x, out, g=_g: [("eq", "std", out["std"], correl.ab20_std(x, g), 1e-9)]))
add("C33", BY["GA11"], "GA11 parts of the deviation", (STD % 'list(m.ln_std)').replace('}', ', "within": part(m, "_calc_ln_std_within"), "between": part(m, "_calc_ln_std_between")}') + '''
def part(m, n):
    f = getattr(m, n, None)
    return None if f is None else list(f())
''', (lambda x, cfg: x), BY["GA11"].configs(None),
    claims=lambda x, out: ([("eq", "std", out["std"], list(BY["GA11"].s["ref"](dict(x, probe=[0.1]))["ln_std"]), 1e-6)]
                           + [("eq", "std[%d] squared" % i, t * t, a * a + b * b, 1e-9) for i, (t, a, b) in
                              enumerate(zip(out["std"], out["within"], out["between"]) if out["within"] and out["between"] else [])]))

# ------------------------------------------------------------------ C34
TWO = '''
def run(x):
    out = {}
    for k in ("a", "b"):
        s, m = make(x[k])
        out[k] = read(m)
    return out
'''


def two(model, x, v):
    return dict(a=x, b=dict(x, **{v: S.add(x[v], S.var("step", 0, 2e-6))}))


def continuous(name, v, tol=1e-5, zones=None, num=None, cat=None, opt=None, ok=None, t=1, read=None, code=TWO, split=False, known=None, note=""):
    m = Model(dict(BY[name].s, zones=zones or {}, num=dict(BY[name].s["num"], **(num or {})), cat=dict(BY[name].s["cat"], **(cat or {})), opt=BY[name].s["opt"] if opt is None else opt,
                   ok=ok or (BY[name].s.get("ok") if not BY[name].s.get("zones") else None), branch={}, assume=None))
    if opt is not None:
        for o in BY[name].s["opt"]:
            if o not in opt and o not in (num or {}):
                m.s["num"].pop(o)
    cfgs = m.configs(t)

    raw_case(prop="C34", split=split, known=known, name="%s%s across %s" % (name, note, v), mod=m.mod, code=(m.code if read is None else m.code.replace(generic.READ[m.mod], read)) + code, build=lambda n: two(m, m.x(cfgs[n]), v), raw_configs=[dict(n=i) for i in range(len(cfgs))],
             tol=tol, label_of=lambda c: cfgs[c["n"]], job="jumps", var=v, what="continuity")


GEOMETRY = dict(ok=lambda c: c.get("?depth_tor", True) and c.get("?width", True) and c.get("?depth_hyp", True) and c.get("?depth_bor", True) and c.get("?depth_bot", True))
# the published-looking coefficient c_15 at 0.5 s makes the deviation almost vanish below magnitude 7.2 (known finding): that deviation alone is judged apart
TP05_READ = '(lambda every, half: {"ln_sa": np.log(m.spec_accels), "ln_pga": np.log(m.pga), "std_pga": m.ln_std_pga, "ln_std": [m.ln_stds[i] for i in %s]})(range(len(m.periods)), list(m.periods).index(0.5))'


def tp05_half_second(v):
    """the recorded jump: at magnitude 7.2, from the value with c_15 = -0.173 to the constant 0.505"""
    a, b = v["inputs"]["a"]["mag"], v["inputs"]["b"]["mag"]
    d = v["diffs"]
    return a < 7.2 <= b and 7.2 - a < 1e-5 and len(d) == 1 and str(d[0][0]).startswith("ln_std") and abs(float(str(d[0][1]).split()[0]) - 0.0344) < 1e-3


# tolerance above the rounding of published coefficients that make two branches meet; boxes within which the published equations are continuous
JUMPY = {("I14", "mag"): dict(tol=2e-3), ("I14", "v_s30"): dict(tol=2e-3), ("BCHydro", "v_s30"): dict(num=dict(v_s30=(150, 1000))), ("CoB14", "v_s30"): dict(num=dict(v_s30=(150, 1000))),
         ("C03", "mag"): dict(tol=3e-3), ("TP05", "mag"): dict(tol=1e-2, read=TP05_READ % "[i for i in every if i != half]"), ("Pea11", "mag"): dict(tol=1e-3), ("AS16", "mag"): dict(num=dict(mag=(5.36, 8)), zones=dict(dist_rup=models.Z(0, 10, 50, 300), v_s30=models.Z(150, 600, 1500))),
         ("AS16", "v_s30"): dict(zones=dict(dist_rup=models.Z(0, 10, 50, 300), mag=models.Z(3, 5.2, 5.35, 7.15, 7.4, 8))),
         **{("PR23", v): dict(read='{"dur": m.duration}') for v in ("mag", "v_s30")},
         **{("PR24", v): dict(read='{"dur": m.duration, "d575": [m.d575_median, m.d575_sigma]}', ok=BY["PR24"].s["ok"]) for v in ("mag", "v_s30")}}
for _n in ("ASK14", "CY14"):
    for _v in ("mag", "v_s30"):
        JUMPY[_n, _v] = dict(GEOMETRY)
    JUMPY[_n, "mag"]["num"] = dict(dist_jb=(12, 12), dist_x=(15, 15))
for _n in ("ASK14", "CY14"):
    for _v in ("mag", "v_s30"):
        JUMPY[_n, _v]["cat"] = dict(on_hanging_wall=[False])
JUMPY["ASK14", "v_s30"]["split"] = True
JUMPY["CY14", "mag"]["cat"] = dict(on_hanging_wall=[False], region=[OMIT, "california", "china"])     # published for 6 < M < 6.9 only: the Italian and Japanese factor
for _n in ("BSSA14", "ASB14", "BCHydro", "CoB14", "GA11", "KS06", "PR23", "PR24", "I14", "CY14", "ASK14", "C03", "TP05", "Pea11", "DBC14", "AS96", "AS16", "AB20"):
    for _v in ("mag", "v_s30"):
        if _v in BY[_n].s["num"] and (_n, _v) not in (("ASK14", "mag"), ("CY14", "mag")):
            continuous(_n, _v, **JUMPY.get((_n, _v), {}))
continuous("TP05", "mag", tol=1e-2, read=TP05_READ.replace('"ln_sa": np.log(m.spec_accels), "ln_pga": np.log(m.pga), "std_pga": m.ln_std_pga, ', "") % "[half]", known=dict(id="tp05-c15", same=tp05_half_second), note=" deviation at 0.5 s")
