"""Derras, Bard & Cotton (2014): two-layer neural network."""
import math

from engine.ops import *
from . import load_json

D = load_json("derras_bard_cotton_2014.json")


def predict(s):
    lim = D["min_max"]
    x = dict(log10_dist_jb=log10(s["dist_jb"]), mag=s["mag"], log10_v_s30=log10(s["v_s30"]), depth_hyp=s["depth_hyp"],
             mechanism={"NS": 1, "RS": 3, "SS": 4}[s["mechanism"]])
    p = [2 * (x[k] - lim[k][0]) / (lim[k][1] - lim[k][0]) - 1 for k in ("log10_dist_jb", "mag", "log10_v_s30", "depth_hyp", "mechanism")]
    b1 = [v[0] if isinstance(v, list) else v for v in D["b_1"]]
    b2 = [v[0] if isinstance(v, list) else v for v in D["b_2"]]
    hid = []
    for w, b in zip(D["w_1"], b1):
        z = b
        for a, q in zip(w, p):
            z = z + a * q
        hid.append(tanh(z))
    med, sd = [], []
    for i in range(64):
        y = b2[i]
        for a, h in zip(D["w_2"][i], hid):
            y = y + a * h
        lo, hi = lim["log10_resp"][i]
        y = 0.5 * (y + 1) * (hi - lo) + lo
        med.append((y - math.log10(0.01 if i == 0 else 9.80665)) * LN10)
        sd.append(D["log10_std"]["total"][i] * LN10)
    return dict(ln_sa=med[2:], ln_std=sd[2:], ln_pgv=med[0], ln_std_pgv=sd[0], ln_pga=med[1], ln_std_pga=sd[1])
