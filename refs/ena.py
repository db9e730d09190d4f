"""Campbell (2003); Tavakoli & Pezeshk (2005); Pezeshk, Zandieh & Tavakoli (2011): eastern North America hard rock."""
import math

from engine.ops import *
from . import table

C03 = table("campbell_2003.csv", 1)
TP05 = table("tavakoli_pezeshk_2005.csv", 1)
P11 = table("pezeshk_zandieh_tavakoli_2011.csv", 1)


def campbell(s):
    M, R = s["mag"], s["dist_rup"]
    med, sd = [], []
    for c in C03:
        f1 = c["c_2"] * M + c["c_3"] * (8.5 - M) ** 2
        f2 = c["c_4"] * log(sqrt(R ** 2 + (c["c_7"] * exp(c["c_8"] * M)) ** 2)) + (c["c_5"] + c["c_6"] * M) * R
        g1 = join(R, 70.0, 0.0, c["c_9"] * (log(R) - math.log(70.0)))
        f3 = join(R, 130.0, g1, g1 + c["c_10"] * (log(R) - math.log(130.0)))
        med.append(c["c_1"] + f1 + f2 + f3)
        sd.append(ite(lt(M, 7.16), c["c_11"] + c["c_12"] * M, c["c_13"]))
    return dict(ln_sa=med, ln_std=sd)


def tp05(s):
    M, R = s["mag"], s["dist_rup"]
    med, sd = [], []
    for c in TP05:
        f1 = c["c_1"] + c["c_2"] * M + c["c_3"] * power(8.5 - M, 2.5)
        far = (c["c_9"] * log(R + 4.5) + c["c_10"] * mx(log(R / 70.0), 0) + c["c_11"] * mx(log(R / 130.0), 0))
        heff = sqrt(R ** 2 + (c["c_5"] * exp(c["c_6"] * M + c["c_7"] * power(8.5 - M, 2.5))) ** 2)
        f3 = (c["c_4"] + c["c_13"] * M) * log(heff) + (c["c_8"] + c["c_12"] * M) * heff
        med.append(f1 + far + f3)
        sd.append(ite(lt(M, 7.2), c["c_14"] + c["c_15"] * M, c["c_16"]))
    return dict(ln_sa=med[1:], ln_std=sd[1:], ln_pga=med[0], ln_std_pga=sd[0])


def p11(s):
    M, R = s["mag"], s["dist_rup"]
    med, sd = [], []
    for c in P11:
        d = sqrt(R ** 2 + c["c_11"] ** 2)
        y = (c["c_1"] + c["c_2"] * M + c["c_3"] * M ** 2 + (c["c_4"] + c["c_5"] * M) * mn(log10(d), math.log10(70.0))
             + (c["c_6"] + c["c_7"] * M) * mx(mn(log10(d / 70.0), math.log10(2.0)), 0.0)
             + (c["c_8"] + c["c_9"] * M) * mx(log10(d / 140.0), 0.0) + c["c_10"] * d)
        m = ite(le(M, 7), c["c_12"] * M + c["c_13"], -6.95e-3 * M + c["c_14"])
        med.append(y * LN10)
        sd.append(sqrt(m ** 2 + c["sigma_reg"] ** 2))
    return dict(ln_sa=med[1:], ln_std=sd[1:], ln_pga=med[0], ln_std_pga=sd[0])
