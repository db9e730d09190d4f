"""Campbell & Bozorgnia (2014), Earthquake Spectra 30(3)."""
from engine.ops import *
from . import table
from . import cy14

T = table("campbell_bozorgnia_2014.csv", 2)
CC, NN = 1.88, 1.18


def z25(vs, region):
    if region == "japan":
        return exp(5.359 - 1.102 * log(vs))
    return exp(7.089 - 1.144 * log(vs))


def rock(c, s):
    M, R = s["mag"], s["dist_rup"]
    f = c["c_0"] + c["c_1"] * M
    for m0, k in ((4.5, "c_2"), (5.5, "c_3"), (6.5, "c_4")):
        f = f + c[k] * join(M, m0, 0.0, M - m0)
    f = f + (c["c_5"] + c["c_6"] * M) * log(sqrt(R ** 2 + c["c_7"] ** 2))
    t = clip(M - 4.5, 0, 1)
    if s["mechanism"] == "RS":
        f = f + c["c_8"] * t
    elif s["mechanism"] == "NS":
        f = f + c["c_9"] * t
    # hanging wall
    x = s["dist_x"]
    r1 = s["width"] * cos(radians(s["dip"]))
    r2 = 62 * M - 350
    q = x / r1
    f1 = c["h_1"] + c["h_2"] * q + c["h_3"] * q ** 2
    q = (x - r1) / (r2 - r1)
    f2 = mx(0, c["h_4"] + c["h_5"] * q + c["h_6"] * q ** 2)
    frx = cases((lt(x, 0), 0.0), (le(x, r1), f1), default=f2)
    frr = ite(eq(R, 0), 1.0, (R - s["dist_jb"]) / R)
    fm = join(M, 5.5, 0.0, mn(M - 5.5, 1) * (1 + c["a_2"] * (M - 6.5)))
    fz = ite(gt(s["depth_tor"], 16.66), 0.0, 1 - 0.06 * s["depth_tor"])
    f = f + c["c_10"] * frx * frr * fm * fz * (90 - s["dip"]) / 45
    # hypocentral depth
    f = f + clip(s["depth_hyp"] - 7, 0, 13) * (c["c_17"] + (c["c_18"] - c["c_17"]) * clip(M - 5.5, 0, 1))
    # dip
    f = f + c["c_19"] * s["dip"] * clip(5.5 - M, 0, 1)
    # anelastic attenuation
    k = {"japan": "dc_20jp", "italy": "dc_20jp", "china": "dc_20ch"}.get(s["region"], "dc_20ca")
    return f + (c["c_20"] + c[k]) * mx(R - 80, 0)


def site(c, vs, z, region, pga):
    r = vs / c["k_1"]
    lin = (c["c_11"] + c["k_2"] * NN) * log(r)
    if pga is None:
        f = lin            # reference velocity exceeds every k_1
        assert vs > c["k_1"]
    else:
        nl = c["c_11"] * log(r) + c["k_2"] * (log(pga + CC * power(r, NN)) - log(pga + CC))
        f = join(vs, c["k_1"], nl, lin)
    if region == "japan":
        a = (c["c_12"] + c["k_2"] * NN) * (log(r) - log(200 / c["k_1"]))
        b = (c["c_13"] + c["k_2"] * NN) * log(r)
        f = f + b + join(vs, 200, a, 0.0)
    low = (c["c_14"] + (c["c_15"] if region == "japan" else 0.0)) * (z - 1)
    high = c["c_16"] * c["k_3"] * exp(-0.75) * (1 - exp(-0.25 * (z - 3)))
    return f + join(z, 1.0, low, join(z, 3.0, 0.0, high))


def std(c, p, s, pga):
    """c: coefficients at the period, p: at PGA"""
    M = s["mag"]
    w = clip(5.5 - M, 0, 1)
    tau = lambda k: k["tau_2"] + (k["tau_1"] - k["tau_2"]) * w
    phi = lambda k: k["phi_2"] + (k["phi_1"] - k["phi_2"]) * w
    r = s["v_s30"] / c["k_1"]
    a = c["k_2"] * pga * (1 / (pga + CC * power(r, NN)) - 1 / (pga + CC))
    a = join(s["v_s30"], c["k_1"], a, 0.0)
    ty, tp = tau(c), tau(p)
    rho = c["rho_lnPGAlnY"]
    tau2 = ty ** 2 + a ** 2 * tp ** 2 + 2 * a * rho * ty * tp
    pb2 = phi(p) ** 2 - p["phi_lnAF"] ** 2
    yb2 = phi(c) ** 2 - c["phi_lnAF"] ** 2
    phi2 = yb2 + c["phi_lnAF"] ** 2 + a ** 2 * pb2 + 2 * a * rho * sqrt(yb2) * sqrt(pb2)
    return sqrt(tau2 + phi2)


def width(mag, dip, ztor, zbot):
    return mn(sqrt(pow10((mag - 4.07) / 0.98)), (zbot - ztor) / sin(radians(dip)))


def zhyp(mag, dip, ztor, zbor):
    d = mn(mn(-4.317 + 0.984 * mag, 2.325) + mn(0.0445 * (dip - 40), 0), log(0.9 * (zbor - ztor)))
    return ztor + exp(d)


def defaults(x):
    s = dict(x)
    s.setdefault("region", "global")
    s.setdefault("depth_bot", 15.0)
    if s.get("depth_2_5") is None:
        s["depth_2_5"] = z25(s["v_s30"], s["region"])
    if s.get("depth_tor") is None:
        s["depth_tor"] = cy14.ztor(s["mag"], s["mechanism"])
    if s.get("width") is None:
        s["width"] = width(s["mag"], s["dip"], s["depth_tor"], s["depth_bot"])
    if s.get("depth_bor") is None:
        s["depth_bor"] = s["depth_tor"] + s["width"] * sin(radians(s["dip"]))
    if s.get("depth_hyp") is None:
        s["depth_hyp"] = zhyp(s["mag"], s["dip"], s["depth_tor"], s["depth_bor"])
    return s


VREF = 1100.0


def predict(x):
    s = defaults(x)
    pga = exp(rock(T[-2], s) + site(T[-2], VREF, z25(VREF, s["region"]), s["region"], None))
    med = [rock(c, s) + site(c, s["v_s30"], s["depth_2_5"], s["region"], pga) for c in T]
    # Equation 1: spectral accelerations at short periods are not less than PGA
    med = [mx(m, med[-2]) if 0 < c["period"] < 0.25 else m for m, c in zip(med, T)]
    sd = [std(c, T[-2], s, pga) for c in T]
    return dict(ln_sa=med[:21], ln_std=sd[:21], ln_pga=med[-2], ln_std_pga=sd[-2], ln_pgv=med[-1], ln_std_pgv=sd[-1])
