"""Bayless & Abrahamson (2019): effective amplitude spectrum."""
import math

from engine import sym as S
from engine.ops import *
from . import table

T = table("bayless_abrahamson_2019.csv", 2)
NMAX = 239          # the last frequency with coefficients
REF5 = 170          # 5 Hz


def z1(vs):
    return exp(-7.67 / 4 * log((power(vs, 4) + 610.0 ** 4) / (1360.0 ** 4 + 610.0 ** 4))) / 1000


def base(c, s, vs, z):
    M, R = s["mag"], s["dist_rup"]
    y = c["c1"] + c["c2"] * (M - 6) + (c["c2"] - c["c3"]) / c["cn"] * log(1 + exp(c["cn"] * (c["cM"] - M)))
    y = y + c["c4"] * log(R + c["c5"] * cosh(c["c6"] * mx(M - c["chm"], 0))) + (-0.5 - c["c4"]) * log(sqrt(R ** 2 + 2500)) + c["c7"] * R
    y = y + c["c9"] * mn(s["depth_tor"], 20) + (c["c10"] if s.get("mechanism") == "NS" else 0.0)
    c11 = cases((le(vs, 200), c["c11a"]), (le(vs, 300), c["c11b"]), (le(vs, 500), c["c11c"]), default=c["c11d"])
    return y + c11 * log((mn(z, 2) + 0.01) / (z1(vs) + 0.01))


def predict(s):
    vs = s["v_s30"]
    z = s.get("depth_1_0")
    z = z1(vs) if z is None else z
    ir = exp(1.238 + 0.846 * base(T[REF5], s, 760.0, z1(760.0)))
    nl = []
    for c in T[:NMAX]:
        f2 = c["f4"] * (exp(c["f5"] * (mn(vs, 760.0) - 360)) - exp(c["f5"] * 400.0))
        nl.append(f2 * log((ir + c["f3"]) / c["f3"]))
    i = S.argmin(nl)                    # beyond its lowest point the nonlinear term stays there
    low = S.at(nl, i)
    nl = [ite(lt(i, k), low, v) for k, v in enumerate(nl)]
    nl = [sum(nl[j] for j in range(max(k - 3, 0), min(k + 4, NMAX))) / 7 for k in range(NMAX)]
    nl = nl[:NMAX - 7] + [S.at(nl, i)] * 7
    out = []
    for k, c in enumerate(T[:NMAX]):
        out.append(base(c, s, vs, z) + c["c8"] * log(mn(vs, 1000.0) / 1000) + nl[k])
    kappa = exp(-0.4 * log(vs / 760) - 3.5)
    for c in T[NMAX:]:
        out.append(out[NMAX - 1] - math.pi * kappa * (c["freq_hz"] - T[NMAX - 1]["freq_hz"]))
    return dict(ln_eas=out, ln_std=std(s))


def std(s):
    f = clip((s["mag"] - 4) / 2, 0, 1)
    mixv = lambda a, b: a + (b - a) * f
    return [sqrt(mixv(c["s1"], c["s2"]) ** 2 + mixv(c["s3"], c["s4"]) ** 2 + mixv(c["s5"], c["s6"]) ** 2 + (c["c1a"] if c["c1a"] == c["c1a"] else 0.0) ** 2) for c in T]
