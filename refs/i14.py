"""Idriss (2014), Earthquake Spectra 30(3)."""
from engine.ops import *
from . import table

SMALL, LARGE = table("idriss_2014-small.csv", 2), table("idriss_2014-large.csv", 2)


def median(c, s):
    M, R = s["mag"], s["dist_rup"]
    return (c["alpha_1"] + c["alpha_2"] * M + c["alpha_3"] * (8.5 - M) ** 2 - (c["beta_1"] + c["beta_2"] * M) * log(R + 10)
            + c["gamma"] * R + c["epsilon"] * log(s["v_s30"]) + (c["phi"] if s["mechanism"] == "RS" else 0.0))


def predict(s):
    M = s["mag"]
    med = [ite(le(M, 6.75), median(a, s), median(b, s)) for a, b in zip(SMALL, LARGE)]
    sd = [1.18 + 0.035 * log(min(max(a["period"], 0.05), 3.0)) - 0.06 * clip(M, 5.0, 7.5) for a in SMALL]
    return dict(ln_sa=med[:22], ln_std=sd[:22], ln_pga=med[0], ln_std_pga=sd[0])
