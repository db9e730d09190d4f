"""Gulerce & Abrahamson (2011): vertical-to-horizontal spectral ratio."""
import math

from engine.ops import *
from . import table

T = table("gulerce_abrahamson_2011-coefficients.csv", 2)


def v1(t):
    if t < 0:
        return 862.0
    if t <= 0.5:
        return 1500.0
    if t <= 1:
        return math.exp(8 - 0.795 * math.log(t / 0.21))
    if t <= 2:
        return math.exp(6.76 - 0.297 * math.log(t))
    return 700.0


def predict(s):
    M, R, P = s["mag"], s["dist_rup"], s["pga_ref"]
    med, sd = [], []
    for c in T:
        dm = M - c["c1"]
        y = (c["a1"] + c["a8"] * (8.5 - M) ** 2 + (c["a2"] + c["a3"] * dm) * log(sqrt(R ** 2 + c["c4"] ** 2)) + join(M, c["c1"], c["a4"] * dm, c["a5"] * dm))
        vs = mn(s["v_s30"], v1(c["period"]))
        q = vs / c["v_lin"]
        y = y + c["a10"] * log(q) - ite(lt(vs, c["v_lin"]), -c["b"] * log(P + c["c"]) + c["b"] * log(P + c["c"] * power(q, c["n"])), c["b"] * c["n"] * log(q))
        y = y + {"RS": c["a6"], "NS": c["a7"], "SS": 0.0}[s["mechanism"]]
        f = (clip(M, 5, 7) - 5) / 2
        phi, tau = c["s1"] + (c["s2"] - c["s1"]) * f, c["s3"] + (c["s4"] - c["s3"]) * f
        med.append(y)
        sd.append(sqrt(phi ** 2 + tau ** 2))
    lp = [math.log(c["period"]) for c in T[2:]]
    probe = s["probe"]
    return dict(ln_ratio=med, ln_std=sd, mid=[interp(math.log(p), lp, med[2:]) for p in probe], mid_std=[interp(math.log(p), lp, sd[2:]) for p in probe])
