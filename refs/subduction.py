"""Abrahamson, Gregor & Addo (2016, BC Hydro) and Coppersmith & Bommer (2014)."""
import math

from engine.ops import *
from . import table

BCH = table("abrahamson_gregor_addo_2016.csv", 1)
COB = table("coppersmith_bommer_2014.csv", 1)


def dc1_default(T, intraslab):
    if intraslab:
        return -0.3
    x = math.log(max(0.01, T))
    return interp(x, [math.log(t) for t in (0.3, 0.5, 1, 2, 3)], [0.2, 0.1, 0.0, -0.1, -0.2])


def site(c, pga, vs):
    if vs is None:                      # rock reference, 1000 m/s
        r = math.log(1000.0 / c["v_lin"])
        return (c["t_12"] + c["b"] * c["n"]) * r
    v = mn(vs, 1000.0)
    q = v / c["v_lin"]
    soft = c["t_12"] * log(q) - c["b"] * log(pga + c["c"]) + c["b"] * log(pga + c["c"] * power(q, c["n"]))
    return ite(lt(vs, c["v_lin"]), soft, (c["t_12"] + c["b"] * c["n"]) * log(q))


def mag_term(c, M, dc1):
    k = 7.8 + dc1
    return join(M, k, c["t_4"] * (M - k), c["t_5"] * (M - k)) + c["t_13"] * (10 - M) ** 2


def bch(s):
    M, slab = s["mag"], s["event_type"] == "intraslab"
    R = s["dist_hyp"] if slab else s["dist_rup"]
    F = 1.0 if slab else 0.0
    adj, att = s.get("adjust_c1"), s.get("scale_atten", 1.0)

    def one(i, c, pga, vs):
        d = (adj[i] if isinstance(adj, list) else adj) if adj is not None else dc1_default(c["period"], slab)
        y = (c["t_1"] + c["t_4"] * d + (c["t_2"] + c["t_14"] * F + c["t_3"] * (M - 7.8)) * log(R + c["c_4"] * exp(c["t_9"] * (M - 6)))
             + att * c["t_6"] * R + c["t_10"] * F + mag_term(c, M, d) + site(c, pga, vs))
        if slab:
            y = y + c["t_11"] * (mn(s["depth_hyp"], 120.0) - 60.0)
        if s.get("tectonic_region") == "backarc":
            y = y + (c["t_7"] + c["t_8"] * log(mx(R, 85.0) / 40.0) if slab else c["t_15"] + c["t_16"] * log(mx(R, 100.0) / 40.0))
        return y
    ref = exp(one(0, BCH[0], None, None))
    med = [one(i, c, ref, s["v_s30"]) for i, c in enumerate(BCH)]
    sd = [math.sqrt(c["phi"] ** 2 + c["tau"] ** 2) for c in BCH]
    return dict(ln_sa=med[1:], ln_std=sd[1:], ln_pga=med[0], ln_std_pga=sd[0])


def cob(s):
    M, slab, R, att = s["mag"], s["event_type"] == "intraslab", s["dist_rup"], s.get("scale_atten", 1.0)

    def one(c, pga, vs):
        d = dc1_default(c["period"], slab)
        return (c["t_1"] + c["t_4"] * d + (c["t_2"] + c["t_3"] * (M - 7.8)) * log(R + c["c_4"] * exp(c["t_9"] * (M - 6)))
                + att * c["t_6"] * R + mag_term(c, M, d) + site(c, pga, vs) + c["t_16"] * log(mx(R, 40.0) / 40.0))
    ref = exp(one(COB[0], None, None))
    med = [one(c, ref, s["v_s30"]) for c in COB]
    sd = [math.sqrt(c["phi"] ** 2 + c["tau"] ** 2) for c in COB]
    return dict(ln_sa=med, ln_std=sd, ln_pga=med[0], ln_std_pga=sd[0])
