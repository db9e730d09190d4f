"""Correlation and conditional-spectrum references: BJ08, Kishida (2017), BA18, AB20."""
import math

from engine.ops import *
from refs import table


# ---------------------------------------------------------------- Baker & Jayaram (2008)
def bj08(t1, t2):
    lo, hi = mn(t1, t2), mx(t1, t2)
    c1 = 1 - cos(math.pi / 2 - 0.366 * log(hi / mx(lo, 0.109)))
    h2 = mn(hi, 0.2)
    c2 = ite(lt(hi, 0.2), 1 - 0.105 * (1 - 1 / (1 + exp(100 * h2 - 5))) * (hi - lo) / (hi - 0.0099), 0.0)
    c3 = ite(lt(hi, 0.109), c2, c1)
    c4 = c1 + 0.5 * (sqrt(c3) - c3) * (1 + cos(math.pi * lo / 0.109))
    return cases((lt(hi, 0.109), c2), (gt(lo, 0.109), c1), (lt(hi, 0.2), mn(c2, c4)), default=c4)


def bj08_table(x):
    return dict(rho=[bj08(t, x["tc"]) for t in x["t"]], scalar=bj08(x["t"][0], x["tc"]), swapped=[bj08(t, x["tc"]) for t in x["t"]],
                equal=[1.0 for t in x["t"]])


def cms(x):
    """conditional mean spectrum on one period"""
    T, m, s, tc = x["t"], x["m"], x["s"], x["tc"]
    eps = (x["lnc"] - interp(tc, T, m)) / interp(tc, T, s)
    rho = [bj08(t, tc) for t in T]
    return dict(m=[a + b * r * eps for a, b, r in zip(m, s, rho)], s=[sqrt(b ** 2 * (1 - r ** 2)) for b, r in zip(s, rho)])


def cmsv(x):
    """conditional mean spectrum on a vector of periods (multivariate normal conditioning)"""
    T, m, s, c = x["t"], x["m"], x["s"], x["c"]
    on = [i for i in range(len(T)) if c[i] is not None]
    out_m, out_s = [], []
    e = {i: (c[i] - m[i]) / s[i] for i in on}
    for i in range(len(T)):
        if i in on:
            out_m.append(c[i])
            out_s.append(0.0)
        elif len(on) == 0:
            out_m.append(m[i])
            out_s.append(s[i])
        elif len(on) == 1:
            r = bj08(T[i], T[on[0]])
            out_m.append(m[i] + s[i] * r * e[on[0]])
            out_s.append(s[i] * math.sqrt(1 - r * r))
        elif len(on) == 2:
            j, k = on
            rj, rk, q = bj08(T[i], T[j]), bj08(T[i], T[k]), bj08(T[j], T[k])
            d = 1 - q * q
            wj, wk = (rj - q * rk) / d, (rk - q * rj) / d
            out_m.append(m[i] + s[i] * (wj * e[j] + wk * e[k]))
            out_s.append(s[i] * math.sqrt(1 - wj * rj - wk * rk))
    return dict(m=out_m, s=out_s)


# ---------------------------------------------------------------- Bayless & Abrahamson (2018)
BA = table("bayless_abrahamson_2018.csv", 3)
BF = [r[[k for k in r if "freq" in k][0]] for r in BA]


def _ba(f, k):
    return interp(f, BF, [r[k] for r in BA])


def ba18_rho(f1, f2):
    lo = mn(f1, f2)
    d = absv(log(f1 / f2))
    return tanh(_ba(lo, "A") * exp(_ba(lo, "B") * d) + _ba(lo, "C") * exp(_ba(lo, "D") * d))


def ba18(x):
    f = x["f"]
    n = range(len(f))
    rho = [[1.0 if i == j else ba18_rho(f[i], f[j]) for j in n] for i in n]
    out = dict(corr=rho, cov=[[rho[i][j] * x["std"][i] * x["std"][j] for j in n] for i in n])
    for k in x["comp"]:
        sd = [_ba(v, k) for v in f]
        out["cov_" + k] = [[rho[i][j] * sd[i] * sd[j] for j in n] for i in n]
    return out


# ---------------------------------------------------------------- Abrahamson & Bhasin (2020)
AB = {"pga": (4.77, .738, .484, .275, -.036, -.332, -.44, 0, (.32, .42), (.12, .26)),
      "psa_1s": (4.80, .82, .55, .27, .054, -.382, -.21, 0, (.28, .38), (.12, .17))}


def ab20(s):
    if s["given"] is None:
        raise Refuse()
    if s["given"] == "psa":
        raise Refuse("NotImplementedError")
    M, R, V = s["mag"], s["dist_rup"], s["v_s30"]
    a1, a2, a3, a4, a5, a6, a7, a8, ph, ta = AB[s["given"]]
    f1 = a2 + (a3 - a2) * (clip(M, 5, 7.5) - 5) / 2.5
    ln = (a1 + f1 * log(s["value"]) + a4 * (M - 6) + a5 * (8.5 - M) ** 2 + a6 * log(R + 5 * exp(0.4 * (M - 6)))
          + (a7 + a8 * (M - 5)) * log(V / 425.0))
    sd = ab20_std(s, s["given"])
    return dict(ln_pgv=ln, pgv=exp(ln), ln_std=sd, ln_period=-4.09 + 0.66 * M)


def ab20_std(s, given):
    ph, ta = AB[given][8:]
    w = (clip(s["mag"], 5, 7) - 5) / 2
    return sqrt((ph[0] + (ph[1] - ph[0]) * w) ** 2 + (ta[0] + (ta[1] - ta[0]) * w) ** 2)
