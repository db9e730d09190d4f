"""Order properties decided on the output of the real models: attenuation with distance (C31), durations and their percentiles (C32)."""
from engine import check as K
from engine import ops as O
from engine import sym as S
from checks import generic, models
from refs import durations
from checks.derived import BY, TWO, two
from checks.framework import raw_case
from checks.generic import Model
from checks.models import OMIT

MEDIANS = '''
def run(x):
    s, m = make(x)
    M = type(m)
    out = {"sa": np.log(m.spec_accels)}
    if M.INDEX_PGA is not None:
        out["pga"] = np.log(m.pga)
    if M.INDEX_PGV is not None:
        out["pgv"] = np.log(m.pgv)
    return out
'''
JUMP = '''
def run(x):
    out = {}
    for k in ("a", "b"):
        s, m = make(x[k])
        M = type(m)
        out[k] = {"sa": np.log(m.spec_accels)}
        if M.INDEX_PGA is not None:
            out[k]["pga"] = np.log(m.pga)
        if M.INDEX_PGV is not None:
            out[k]["pgv"] = np.log(m.pgv)
    return out
'''


def falls(name, v, tol=1e-7, zones=None, num=None, cat=None, opt=None, ok=None, t=1, jump_tol=1e-5, with_jumps=True):
    m = Model(dict(BY[name].s, zones=zones or {}, num=dict(BY[name].s["num"], **(num or {})), cat=dict(BY[name].s["cat"], **(cat or {})), opt=BY[name].s["opt"] if opt is None else opt,
                   ok=ok or (BY[name].s.get("ok") if not BY[name].s.get("zones") else None), branch={}, assume=None))
    if opt is not None:
        for o in BY[name].s["opt"]:
            if o not in opt and o not in (num or {}):
                m.s["num"].pop(o)
    cfgs = [c for c in m.configs(t) if c.get("?" + v, True)]
    raw_case(prop="C31", name="%s with %s" % (name, v), mod=m.mod, code=m.code + MEDIANS, build=lambda n: m.x(cfgs[n]), raw_configs=[dict(n=i) for i in range(len(cfgs))],
             tol=tol, label_of=lambda c: cfgs[c["n"]], job="slopes", var=v, sign=1, what="amplitude does not grow with distance")
    if with_jumps:
        raw_case(prop="C31", name="%s steps of %s" % (name, v), mod=m.mod, code=m.code + JUMP, build=lambda n: two(m, m.x(cfgs[n]), v), raw_configs=[dict(n=i) for i in range(len(cfgs))],
                 tol=jump_tol, label_of=lambda c: cfgs[c["n"]], job="jumps", var=v, sign=1, what="amplitude does not step up with distance")


falls("I14", "dist_rup")
ROCK = dict(v_s30=(1100, 1500))      # the nonlinear site terms vanish: the reference motion falls, the amplification is constant
for _d in ("dist_jb", "dist_epi", "dist_hyp"):
    falls("ASB14", _d, num={_d: BY["ASB14"].s["num"][_d], "v_s30": (750.001, 1200)}, opt=[], ok=lambda c: True)
falls("BCHydro", "dist_rup", opt=[], num=dict(dist_rup=(0, 1000), **ROCK), cat=dict(event_type=["interface"]), ok=lambda c: True)
falls("BCHydro", "dist_hyp", opt=[], num=dict(dist_hyp=(0, 1000), **ROCK), cat=dict(event_type=["intraslab"]), ok=lambda c: True)
falls("CoB14", "dist_rup", opt=[], num=ROCK)
falls("BSSA14", "dist_jb", num=dict(v_s30=(760, 1500)), cat=dict(region=[OMIT, "global", "california", "italy", "japan", "new_zealand", "taiwan"]))   # the published Q of China and Turkey makes long periods grow
for _n in ("TP05", "Pea11", "C03"):  # the published reflections from the Moho make the motion grow between 70 and 140 km
    falls(_n, "dist_rup", num=dict(dist_rup=(10, 60)))
    falls(_n, "dist_rup", num=dict(dist_rup=(140, 1000)))

# ------------------------------------------------------------------ C32
add, T1 = generic.add, generic.T1


def over(name, num=None, zones=None, cat=None, opt=None):
    s = dict(BY[name].s, num={**BY[name].s["num"], **(num or {})}, cat={**BY[name].s["cat"], **(cat or {})}, zones=BY[name].s.get("zones", {}) if zones is None else zones)
    for o in s["opt"] if opt is not None else []:
        s["num"].pop(o)
    s["opt"] = s["opt"] if opt is None else opt
    return Model(s)


def root(v, n):
    """v ** n; of v = base ** (1 / n) the base itself, which is what it is wherever v is a real number"""
    if isinstance(v, S.Sym) and len(v.t) == 1:
        (m, c), = v.t.items()
        if len(m) == 1 and S.C.atoms[m[0][0]].kind == "poly" and abs(m[0][1] * n - 1.0) < 1e-9:
            return S.scale(S.C.atoms[m[0][0]].data, c ** n)
    return O.power(v, n)


add("C32", BY["AS96"], "AS96 durations", '''
def run(x):
    s, m = make(x)
    levels = [round(0.10 + 0.05 * i, 2) for i in range(18)]
    r = m.interp(levels, [-1, 0, 1])
    return {"dur": m.duration, "at": [list(v) for v in r]}
''', (lambda x, cfg: x), BY["AS96"].configs(None),
    claims=lambda x, out: ([("le", "duration positive", 0.0, out["dur"])]
                           + [("le", "level %d, %d sigma: positive" % (i, k), 0.0, out["at"][k][i]) for k in range(3) for i in range(18)]
                           + [("le", "level %d before level %d" % (i, i + 1), O.log(out["at"][1][i]), O.log(out["at"][1][i + 1])) for i in range(17)]
                           + [("le", "level %d: band %d" % (i, k), O.log(out["at"][k][i]), O.log(out["at"][k + 1][i])) for k in range(2) for i in range(18)]))

DUR = '''
def run(x):
    s, m = make(x)
    return {"dur": {k: m.duration[k] for k in m.duration.dtype.names}, "sd": {k: m.std_err[k] for k in m.std_err.dtype.names}}
'''


def as16_claims(x, out):
    d = out["dur"]
    return ([("le", "%s positive" % k, 0.0, v) for k, v in d.items()] + [("le", "deviation of %s positive" % k, 0.0, v) for k, v in out["sd"].items()]
            + [("le", "5-75 within 5-95", d["D_5t75"], d["D_5t95"], 1e-9), ("le", "20-80 within 5-95", d["D_20t80"], d["D_5t95"], 1e-9)])


_m = over("AS16", num=dict(mag=(3, 7.9), dist_rup=(0, 200), v_s30=(200, 1000)), opt=[], zones=dict(mag=models.Z(3, 5.2, 5.35, 7.15, 7.4, 7.9), dist_rup=models.Z(0, 10, 50, 200), v_s30=models.Z(200, 600, 1000)), cat=dict(mechanism=["SS", "NS", "RS"]))
add("C32", _m, "AS16 durations", DUR, (lambda x, cfg: x), _m.configs(3), claims=as16_claims)


def ks06_claims(x, out):
    d, ref = out["dur"], durations.ks06(x)["dur"]
    pos = {k: O.gt(v, 0.01) for k, v in ref.items()}
    cl = [("le", "deviation of %s positive" % k, 0.0, v) for k, v in out["sd"].items()]
    cl += [("le", "%s positive" % k, 0.0, O.ite(pos[k], v, 1.0)) for k, v in d.items()]
    for k in "av":
        a, b = "D_5t75" + k, "D_5t95" + k
        both = O.ite(pos[a], O.ite(pos[b], 1.0, 0.0), 0.0)
        cl.append(("le", "5-75%s within 5-95%s" % (k, k), d[a] * both, d[b] * both, 1e-9))
    return cl


add("C32", BY["KS06"], "KS06 durations", DUR, (lambda x, cfg: x), BY["KS06"].configs(None), claims=ks06_claims)

LEVELS = [round(0.10 + 0.05 * i, 2) for i in range(18)]
ENERGY = '''
def run(x):
    s, m = make(x)
    out = {"base": [m.duration, m.duration_plus_sigma, m.duration_minus_sigma]}
    out["at"] = [list(m.duration_for_energy(e)) for e in %r]
    return out
''' % LEVELS


def pr_claims(n, ratio):
    def claims(x, out):
        cl = []
        for lab, (m, p, q) in [("base", out["base"])] + [("%g" % e, v) for e, v in zip(LEVELS, out["at"])]:
            cl += [("le", "median at %s positive" % lab, 0.0, m), ("le", "+1 sigma above the median at %s" % lab, root(m, n), root(p, n)), ("le", "-1 sigma below the median at %s" % lab, root(q, n), root(m, n))]
        for i in range(17):
            a, b = out["at"][i][0], out["at"][i + 1][0]
            c = ratio(x, LEVELS[i]), ratio(x, LEVELS[i + 1])
            ok = O.le(c[0], c[1])
            cl.append(("le", "median at %g not above that at %g" % (LEVELS[i], LEVELS[i + 1]), O.ite(ok, a, 0.0), O.ite(ok, b, 0.0), 1e-9))
        return cl
    return claims


def ratio23(x, e):
    if e == 0.75:
        return 1.0
    lv, cm, a0, r1, v1, sc, rho = min(durations.P3, key=lambda q: abs(q[0] - e))
    return cm + a0 + r1 * x["dist_rup"] + v1 * O.log(x["v_s30"] / 2000.0)


_m = over("PR23", zones=dict(v_s30=models.Z(150, 200, 275, 1899.999), dist_rup=models.Z(10.001, 42, 44, 129.999), mag=models.Z(4, 6.75, 8)))
add("C32", _m, "PR23 durations", ENERGY, (lambda x, cfg: x), _m.configs(T1 + 1), claims=pr_claims(0.3, ratio23))
_m = over("PR23", zones=dict(v_s30=models.Z(150, 200, 275, 500, 1000, 1899.999), dist_rup=[(0, 9.999)], mag=models.Z(4, 6.75, 8)))
add("C32", _m, "PR23 near durations", ENERGY, (lambda x, cfg: x), _m.configs(T1 + 1), claims=pr_claims(0.3, ratio23))
_m = over("PR24", cat=dict(event_type=["interface"], region=["Japan", "New Zealand", "South America"]))
add("C32", _m, "PR24 interface durations", ENERGY, (lambda x, cfg: x), _m.configs(T1 + 1), claims=pr_claims(0.15, lambda x, e: 0.0))
