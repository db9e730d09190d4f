"""Correlation models, conditional spectra and the conditional PGV model."""
from engine import check as K
from engine import ops as O
from engine import sym as S
from checks.models import Z, spec, with_x
from refs import correl

BJ = '''
import numpy as np
from pygmm.baker_jayaram_2008 import calc_correls
def run(x):
    t = x["t"]
    return {"rho": calc_correls(np.array(t), x["tc"]), "scalar": calc_correls(t[0], x["tc"]),
            "swapped": [calc_correls(np.array([x["tc"]]), v)[0] for v in t], "equal": [calc_correls(np.array([v]), v)[0] for v in t]}
'''


def bj_range(x, out):
    return [c for v in list(out["rho"]) + list(out["swapped"]) for c in (("le", "rho at most one", v, 1.0), ("le", "rho at least zero", 0.0, v))]


TZ = Z(0.01, 0.109, 0.2, 10)
with_x(spec(prop="C27", name="BJ08", mod="baker_jayaram_2008", code=BJ, num=dict(tc=(0.01, 10), t0=(0.01, 10)), opt=[], cat={},
            zones=dict(tc=TZ, t0=TZ), ref=correl.bj08_table), t=lambda x: [x.pop("t0"), 0.02, 0.109, 0.15, 0.2, 1.0, 7.5])

# the range claim is decided over a parametrisation of all ordered pairs lo <= hi that keeps differences and ratios exact:
#   hi < 0.2:      hi = 0.0099 + q, lo = hi - q v          (hi - lo over hi - 0.0099 is v)
#   lo > 0.109:    hi = lo r
#   otherwise:     lo < 0.109, hi > 0.2 directly
RANGE = [("short", dict(q=(1e-4, 0.0991 - 1e-7), v=(0.0, 1.0))), ("middle", dict(q=(0.0991 + 1e-7, 0.1901 - 1e-7), v=(0.0, 1.0))),
         ("long", dict(lo=(0.109 + 1e-7, 10.0), r=(1.0, 92.0))), ("wide", dict(lo=(0.01, 0.109 - 1e-7), hi=(0.2 + 1e-7, 10.0)))]


def pair(x):
    z = dict(x.pop("zone")[1])
    u = {k: S.var(k, *iv) for k, iv in z.items()}
    if "q" in u:
        hi = u["q"] + 0.0099
        lo = hi - u["q"] * u["v"]
    elif "r" in u:
        lo = u["lo"]
        hi = lo * u["r"]
    else:
        lo, hi = u["lo"], u["hi"]
    x["tc"] = hi
    return [lo]


with_x(spec(prop="C27", name="BJ08 range", mod="baker_jayaram_2008", code=BJ, num={}, opt=[], cat=dict(zone=RANGE), claims=bj_range, tol=1e-5,
            assume=lambda x, cfg: [O.ge(x["t"][0], 0.01), O.le(x["tc"], 10)] + ([O.lt(x["t"][0], 0.109)] if cfg["zone"][0] == "middle" else [])), t=pair)

CMS = '''
import numpy as np
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum as f
def run(x):
    m, s = f(x["t"], x["m"], x["s"], x["tc"], x["lnc"])
    return {"m": m, "s": s}
'''
CMSV = '''
import numpy as np
from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector as f
from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum as g
def run(x):
    c = np.ma.masked_array([0.0 if v is None else v for v in x["c"]], mask=[v is None for v in x["c"]])
    m, s = f(x["t"], x["m"], x["s"], c)
    out = {"m": m, "s": s}
    on = [i for i in range(len(x["t"])) if x["c"][i] is not None]
    if len(on) == 1:
        a, b = g(x["t"], x["m"], x["s"], x["t"][on[0]], x["c"][on[0]])
        out["single_m"], out["single_s"] = a, b
    return out
'''
GRIDS = [[0.05, 0.15, 0.3, 1.0, 4.0], [0.01, 0.02, 0.1, 0.2], [0.5, 0.50001, 2.0], [0.109, 0.11, 10.0]]
vec = lambda n, p, lo, hi: [S.var("%s%d" % (p, i), lo, hi) for i in range(n)]


def cms_claims(x, out):
    T, k = x["t"], [i for i, t in enumerate(x["t"]) if t == x["tc"]]
    want = correl.cms(x)
    cl = [("eq", "m", out["m"], want["m"]), ("eq", "s", out["s"], want["s"])]
    for i in k:
        cl += [("eq", "value at the conditioning period", out["m"][i], x["lnc"]), ("eq", "deviation at the conditioning period", out["s"][i], 0.0)]
    cl += [("le", "deviation not above the unconditional one", a, b) for a, b in zip(out["s"], x["s"])]
    return cl


with_x(spec(prop="C28", name="CMS", mod="baker_jayaram_2008", code=CMS, num=dict(lnc=(-8, 3)), opt=[],
            cat=dict(t=GRIDS, tc=[0.01, 0.05, 0.109, 0.15, 0.3, 0.5, 2.0, 4.0, 10.0]), claims=cms_claims),
       m=lambda x: vec(len(x["t"]), "m", -8, 3), s=lambda x: vec(len(x["t"]), "s", 0.1, 1.5))
TCZ = [(0.052, 0.148), (0.152, 0.298), (0.302, 0.98), (1.02, 3.98)]
with_x(spec(prop="C28", name="CMS between grid points", mod="baker_jayaram_2008", code=CMS, num=dict(lnc=(-8, 3), tc=(0.052, 3.98)), opt=[],
            cat=dict(t=GRIDS[:1]), zones=dict(tc=TCZ), claims=cms_claims, tol=1e-5),
       m=lambda x: vec(len(x["t"]), "m", -8, 3), s=lambda x: vec(len(x["t"]), "s", 0.1, 1.5))


def cmsv_claims(x, out):
    want = correl.cmsv(x)
    cl = [("eq", "m", out["m"], want["m"]), ("eq", "s", out["s"], want["s"])]
    cl += [("le", "deviation not above the unconditional one", a, b) for a, b in zip(out["s"], x["s"])]
    if "single_m" in out:
        cl += [("eq", "vector against single: mean", out["m"], out["single_m"]), ("eq", "vector against single: deviation", out["s"], out["single_s"])]
    return cl


def pattern(x):
    n = len(x["t"])
    on = [i for i in x.pop("on") if i < n]
    return [S.var("c%d" % i, -8, 3) if i in on else None for i in range(n)]


with_x(spec(prop="C28", name="CMS vector", mod="kishida_2017", code=CMSV, num={}, opt=[],
            cat=dict(t=GRIDS, on=[(0,), (1,), (2,), (3,), (4,), (0, 1), (0, 2), (1, 2), (1, 3), (2, 4), (3, 4), (0, 3)]), ok=lambda c: max(c['on']) < len(c['t']), claims=cmsv_claims),
       c=pattern, m=lambda x: vec(len(x["t"]), "m", -8, 3), s=lambda x: vec(len(x["t"]), "s", 0.1, 1.5))

BA = '''
import numpy as np
from pygmm.bayless_abrahamson_2018 import BaylessAbrahamson2018 as M
def run(x):
    out = {"corr": M.corr(x["f"]), "cov": M.cov(x["f"], std=x["std"])}
    for k in x["comp"]:
        out["cov_" + k] = M.cov(x["f"], component=k)
    return out
'''
BF = correl.BF
EPS = 1e-7
IV = [(a + EPS, b - EPS) for a, b in zip([0.05] + BF, BF + [BF[-1] * 1.3])]
FZ = [(i, (i * 37 + 11) % len(IV)) for i in range(0, len(IV), 1 if K.TIER == "thorough" else 2)] + [(i, i) for i in range(0, len(IV), 12)]


def ba_x(x):
    i, j = x.pop("iv")
    return [S.var("f1", *IV[i]), S.var("f2", *IV[j]), BF[0], BF[7], 3.3, BF[-1]]


def ba_claims(x, out):
    n = range(len(x["f"]))
    want = correl.ba18(x)
    cl = [("eq", k, out[k], want[k]) for k in sorted(want)]
    for k in ("corr", "cov"):
        m = [[c for c in r] for r in out[k]]
        cl += [("eq", k + " symmetric", m[i][j], m[j][i]) for i in n for j in n if i < j]
    m = [[c for c in r] for r in out["corr"]]
    cl += [("eq", "unit diagonal", m[i][i], 1.0) for i in n]
    cl += [("le", "entry at most one", m[i][j], 1.0, 1e-9) for i in n for j in n]
    cl += [("le", "entry at least minus one", -1.0, m[i][j], 1e-9) for i in n for j in n]
    return cl


with_x(spec(prop="C29", name="BA18", mod="bayless_abrahamson_2018", code=BA, num={}, opt=[],
            cat=dict(iv=FZ, comp=[("tau", "phi_s2s", "phi_s", "sigma")]), claims=ba_claims),
       f=ba_x, std=lambda x: vec(6, "sd", 0.05, 1.5))

ST = '''
import numpy as np
from pygmm.stafford_2017 import Stafford2017 as M
def run(x):
    f, n = np.array(x["f"]), len(x["f"])
    kw = {k: np.array(v) for k, v in x["given"].items()}
    if x["mag"] is not None:
        kw["mag"] = x["mag"]
    mag = 6.0 if x["mag"] is None else x["mag"]
    e, s, a = M.compute_variances(f)
    return {"cov": M.cov(f, **kw), "cor": M.cor(f, **kw), "model": {"sigma_E": e, "sigma_S": s, "sigma_A": a},
            "E": [[M.between_event_correlation(p, q, mag) for q in f] for p in f],
            "S": [[M.between_site_correlation(p, q) for q in f] for p in f],
            "A": [[M.within_event_correlation(p, q) for q in f] for p in f]}
'''


def st_claims(x, out):
    n = range(len(x["f"]))
    sd = {k: x["given"].get(k, out["model"][k]) for k in ("sigma_E", "sigma_S", "sigma_A")}
    cl = []
    tot = [O.sqrt(sum(sd["sigma_" + k][i] * sd["sigma_" + k][i] for k in "ESA")) for i in n]
    for i in n:
        for k in "ESA":
            cl.append(("eq", k + " unit diagonal", out[k][i][i], 1.0))
        cl.append(("eq", "diagonal is the total variance", out["cov"][i][i], tot[i] ** 2))
        cl.append(("eq", "unit diagonal of cor", out["cor"][i][i], 1.0))
        for j in n:
            cl.append(("eq", "covariance is the sum of its parts", out["cov"][i][j], sum(out[k][i][j] * sd["sigma_" + k][i] * sd["sigma_" + k][j] for k in "ESA")))
            cl.append(("eq", "correlation is the scaled covariance", out["cor"][i][j], out["cov"][i][j] / (tot[i] * tot[j])))
            if i < j:
                for k in "ESA":
                    cl.append(("eq", k + " symmetric", out[k][i][j], out[k][j][i]))
                for k in ("cov", "cor"):
                    cl.append(("eq", k + " symmetric", out[k][i][j], out[k][j][i]))
    return cl


def st_given(x):
    k = x.pop("which")
    return {n: vec(len(x["f"]), n, 0.05, 1.5) for n in k}


SIG = ("sigma_E", "sigma_S", "sigma_A")
FB = [(0.1, 0.24), (0.26, 1.9), (2.1, 3.9), (4.1, 4.9), (5.1, 9.9), (10.1, 24)]
with_x(spec(prop="C30", name="Stafford", mod="stafford_2017", code=ST, num=dict(), opt=[],
            cat=dict(which=[tuple(s for b, s in enumerate(SIG) if k >> b & 1) for k in range(8)], magz=[None, (3, 8)],
                     pair=[(i, j) for i in range(len(FB)) for j in range(len(FB)) if i != j]), quick_t=2, claims=st_claims),
       f=lambda x: (lambda p: [S.var("f1", *FB[p[0]]), S.var("f2", *FB[p[1]])])(x.pop("pair")),
       given=st_given, mag=lambda x: (lambda z: None if z is None else S.var("mag", *z))(x.pop("magz")))

AB = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.abrahamson_bhasin_2020 import AbrahamsonBhasin2020 as M
def run(x):
    x = dict(x)
    given, value = x.pop("given"), x.pop("value")
    m = M(Scenario(**x), **({} if given is None else {given: value}))
    return {"ln_pgv": m.ln_pgv, "pgv": m.pgv, "ln_std": m.ln_std, "ln_period": M.ln_period_pgv(x["mag"])}
'''
spec(prop="C35", name="AB20", mod="abrahamson_bhasin_2020", code=AB, num=dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(180, 1500), value=(1e-4, 3)), opt=[],
     cat=dict(given=["pga", "psa_1s", "psa", None]), zones=dict(mag=Z(3, 5, 7, 7.5, 8)), ref=correl.ab20, tol={"pgv": 1e-3, "*": 1e-6})
