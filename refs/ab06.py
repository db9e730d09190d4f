"""Atkinson & Boore (2006) with the magnitude-dependent stress of Atkinson & Boore (2011)."""
import math
from engine.ops import *
from . import table

BC = table("atkinson_boore_2006-bc.csv", 2)
SF = table("atkinson_boore_2006-sf.csv", 2)
ST = table("atkinson_boore_2006-site.csv", 2)
G = 980.665


def rock(c, s):
    M, R = s["mag"], s["dist_rup"]
    f0 = mx(log10(10.0 / R), 0)
    f1 = mn(log10(R), math.log10(70.0))
    f2 = mx(log10(R / 140.0), 0)
    return (c["c_1"] + c["c_2"] * M + c["c_3"] * M ** 2 + (c["c_4"] + c["c_5"] * M) * f1 + (c["c_6"] + c["c_7"] * M) * f2
            + (c["c_8"] + c["c_9"] * M) * f0 + c["c_10"] * R)


def stress(M):
    """log10 factors at the tabulated periods: log2(stress / 140 bar), capped at a factor two, times log10 SF2"""
    # log10(stress) = 3.45 - 0.2 M
    n = mn((3.45 - 0.2 * M - math.log10(140.0)) / math.log10(2.0), 1.0)
    return [n * mn(c["delta"] + 0.05, 0.05 + c["delta"] * mx(M - c["m_1"], 0) / (c["m_h"] - c["m_1"])) for c in SF]


def soil(vs, pga):
    """log10 factors at the tabulated periods; pga in cm/s2 at the B/C boundary"""
    out = []
    for c in ST:
        b1, b2 = c["b_1"], c["b_2"]
        bnl = cases((le(vs, 180), b1),
                    (le(vs, 300), (b1 - b2) * log(vs / 300.0) / math.log(180.0 / 300.0) + b2),
                    (le(vs, 760), b2 * log(vs / 760.0) / math.log(300.0 / 760.0)), default=0.0)
        out.append((c["b_lin"] * log(vs / 760.0) + bnl * log(mx(pga, 60.0) / 100.0)) / LN10)
    return out


def at(period, ts, vals):
    """table value at a period: linear in between, constant outside"""
    if period <= ts[0]:
        return vals[0]
    for i in range(len(ts) - 1):
        if period <= ts[i + 1]:
            w = (period - ts[i]) / (ts[i + 1] - ts[i])
            return vals[i] * (1 - w) + vals[i + 1] * w
    return vals[-1]


def predict(s):
    st = stress(s["mag"])
    tsf, tst = [c["period"] for c in SF], [c["period"] for c in ST]
    base = [rock(c, s) + at(c["period"], tsf, st) for c in BC]
    so = soil(s["v_s30"], pow10(base[2]))
    med = [(b + at(c["period"], tst, so)) * LN10 - math.log(G) for b, c in zip(base, BC)]
    sd = 0.30 * LN10
    return dict(ln_sa=med[3:27], ln_std=[sd] * 24, ln_pga=med[2], ln_std_pga=sd, ln_pgv=med[1] + math.log(G), ln_std_pgv=sd,
                ln_pgd=med[0] + math.log(G), ln_std_pgd=sd)
