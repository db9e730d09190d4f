"""Chiou & Youngs (2014), Earthquake Spectra 30(3)."""
from engine.ops import *
from . import table

T = table("chiou_youngs_2014.csv", 2)


def z1_ref(vs, region):
    """km"""
    if region == "japan":
        return exp(-5.23 / 2 * log((vs ** 2 + 412.39 ** 2) / (1360.0 ** 2 + 412.39 ** 2))) / 1000
    return exp(-7.15 / 4 * log((vs ** 4 + 570.94 ** 4) / (1360.0 ** 4 + 570.94 ** 4))) / 1000


def ztor(mag, mech):
    if mech == "RS":
        return mx(2.704 - 1.226 * mx(mag - 5.849, 0), 0) ** 2
    return mx(2.673 - 1.136 * mx(mag - 4.970, 0), 0) ** 2


def rock(c, s):
    M, R = s["mag"], s["dist_rup"]
    ch = cosh(2 * mx(M - 4.5, 0))
    f = c["c_1"]
    if s["mechanism"] == "RS":
        f = f + c["c_1a"] + c["c_1c"] / ch
    elif s["mechanism"] == "NS":
        f = f + c["c_1b"] + c["c_1d"] / ch
    f = f + (c["c_7"] + c["c_7b"] / ch) * (s["depth_tor"] - ztor(M, s["mechanism"]))
    f = f + (c["c_11"] + c["c_11b"] / ch) * cos(radians(s["dip"])) ** 2
    f = f + c["c_2"] * (M - 6) + (c["c_2"] - c["c_3"]) / c["c_n"] * log(1 + exp(c["c_n"] * (c["c_m"] - M)))
    f = f + c["c_4"] * log(R + c["c_5"] * cosh(c["c_6"] * mx(M - c["c_hm"], 0)))
    f = f + (c["c_4a"] - c["c_4"]) * log(sqrt(R ** 2 + c["c_rb"] ** 2))
    g = (c["c_gamma1"] + c["c_gamma2"] / cosh(mx(M - c["c_gamma3"], 0))) * R
    if s["region"] in ("japan", "italy"):
        g = ite(both(gt(M, 6), lt(M, 6.9)), c["gamma_ji"] * g, g)
    elif s["region"] == "china":
        g = c["gamma_c"] * g
    f = f + g
    f = f + (c["c_8"] * mx(1 - mx(R - 40, 0) / 30, 0) * mn(mx(M - 5.5, 0) / 0.8, 1)
             * exp(-c["c_8a"] * (M - c["c_8b"]) ** 2) * s["dpp_centered"])
    if s["on_hanging_wall"]:
        f = f + (c["c_9"] * cos(radians(s["dip"])) * (c["c_9a"] + (1 - c["c_9a"]) * tanh(s["dist_x"] / c["c_9b"]))
                 * (1 - sqrt(s["dist_jb"] ** 2 + s["depth_tor"] ** 2) / (R + 1)))
    return f


def nlin(c, vs):
    return c["phi_2"] * (exp(c["phi_3"] * (mn(vs, 1130.0) - 360)) - exp(c["phi_3"] * (1130.0 - 360)))


def site(c, vs, z1, region, ref):
    j = "jp" if region == "japan" else ""
    f = c["phi_1" + j] * mn(log(vs / 1130.0), 0)
    f = f + nlin(c, vs) * log((ref + c["phi_4"]) / c["phi_4"])
    dz = 1000 * (z1 - z1_ref(vs, region))
    return f + c["phi_5" + j] * (1 - exp(-dz / c["phi_6" + j]))


def std(c, s, ref):
    w = (clip(s["mag"], 5.0, 6.5) - 5.0) / 1.5
    tau = c["tau_1"] + (c["tau_2"] - c["tau_1"]) * w
    nl0 = nlin(c, s["v_s30"]) * ref / (ref + c["phi_4"])
    s2 = c["sigma_2jp"] if s["region"] == "japan" else c["sigma_2"]
    extra = 0.7 if s["vs_source"] == "measured" else c["sigma_3"]
    sig = c["sigma_1"] + (s2 - c["sigma_1"]) * w
    return sqrt((1 + nl0) ** 2 * tau ** 2 + sig ** 2 * (extra + (1 + nl0) ** 2))


def defaults(x):
    s = dict(x)
    s.setdefault("mechanism", "U")
    s.setdefault("region", "california")
    s.setdefault("vs_source", "measured")
    s.setdefault("on_hanging_wall", False)
    s.setdefault("dpp_centered", 0)
    if s.get("depth_tor") is None:
        s["depth_tor"] = ztor(s["mag"], s["mechanism"])
    if s.get("depth_1_0") is None:
        s["depth_1_0"] = z1_ref(s["v_s30"], s["region"])
    return s


def predict(x):
    s = defaults(x)
    med, sd = [], []
    for c in T:
        r = rock(c, s)
        ref = exp(r)
        med.append(r + site(c, s["v_s30"], s["depth_1_0"], s["region"], ref))
        sd.append(std(c, s, ref))
    return dict(ln_sa=med[:24], ln_std=sd[:24], ln_pga=med[24], ln_std_pga=sd[24], ln_pgv=med[25], ln_std_pgv=sd[25])
