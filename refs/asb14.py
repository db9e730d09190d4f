"""Akkar, Sandikkaya & Bommer (2014), Bull. Earthquake Eng. 12."""
from engine.ops import *
from . import table

T = {k: table("akkar-sandikkaya-bommer-2014-%s.csv" % k, 2) for k in ("dist_jb", "dist_hyp", "dist_epi")}
VREF = 750.0


def rock(c, s, R):
    M = s["mag"]
    dm = M - c["c_1"]
    f = (c["a_1"] + c["a_3"] * (8.5 - M) ** 2 + (c["a_4"] + c["a_5"] * dm) * log(sqrt(R ** 2 + c["a_6"] ** 2))
         + join(M, c["c_1"], c["a_2"] * dm, c["a_7"] * dm))
    return f + {"NS": c["a_8"], "RS": c["a_9"], "SS": 0.0}[s["mechanism"]]


def predict(s):
    for k in ("dist_jb", "dist_hyp", "dist_epi"):
        if s.get(k) is not None:
            t, R = T[k], s[k]
            break
    pga = exp(rock(t[0], s, R))
    vs = s["v_s30"]
    med = []
    for c in t:
        q = vs / VREF
        nl = c["b_1"] * log(q) + c["b_2"] * log((pga + c["c"] * power(q, c["n"])) / ((pga + c["c"]) * power(q, c["n"])))
        lin = c["b_1"] * log(mn(vs, c["v_con"]) / VREF)
        med.append(rock(c, s, R) + join(vs, VREF, nl, lin))
    sd = [c["sd_total"] for c in t]
    return dict(ln_sa=med[2:64], ln_std=sd[2:64], ln_pga=med[0], ln_std_pga=sd[0], ln_pgv=med[1], ln_std_pgv=sd[1])
