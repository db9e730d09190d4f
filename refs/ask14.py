"""Abrahamson, Silva & Kamai (2014), Earthquake Spectra 30(3)."""
from engine.ops import *
from . import table

T = table("abrahamson_silva_kamai_2014.csv", 2)
VREF = 1180.0


def z1_ref(vs, region):
    if region == "japan":
        return exp(-5.23 / 2 * log((vs ** 2 + 412.0 ** 2) / (1360.0 ** 2 + 412.0 ** 2))) / 1000
    return exp(-7.67 / 4 * log((vs ** 4 + 610.0 ** 4) / (1360.0 ** 4 + 610.0 ** 4))) / 1000


def width(mag, dip):
    return mn(18 / sin(radians(dip)), pow10(-1.75 + 0.45 * mag))


def ztor(mag):
    return clip(7.8 - 7.8 / 2.2 * (mag - 5.0), 0.0, 7.8)


def v1(per):
    if per <= 0.5:
        return 1500.0
    return exp(-0.35 * log(min(per, 3.0) / 0.5) + log(1500.0))


def median(c, s, vs, sa1180):
    M, R = s["mag"], s["dist_rup"]
    reg = s["region"]
    c4m = c["c4"] - (c["c4"] - 1) * clip(5 - M, 0, 1)
    lnR = log(sqrt(R ** 2 + c4m ** 2))
    m1, m2 = c["m1"], c["m2"]
    above = c["a1"] + c["a5"] * (M - m1) + c["a8"] * (8.5 - M) ** 2 + (c["a2"] + c["a3"] * (M - m1)) * lnR + c["a17"] * R
    mid = c["a1"] + c["a4"] * (M - m1) + c["a8"] * (8.5 - M) ** 2 + (c["a2"] + c["a3"] * (M - m1)) * lnR + c["a17"] * R
    low = (c["a1"] + c["a4"] * (m2 - m1) + c["a8"] * (8.5 - m2) ** 2 + c["a6"] * (M - m2) + c["a7"] * (M - m2) ** 2
           + (c["a2"] + c["a3"] * (m2 - m1)) * lnR + c["a17"] * R)
    f = cases((gt(M, m1), above), (gt(M, m2), mid), default=low)
    # hanging wall
    if s["on_hanging_wall"]:
        t1 = mn(90 - s["dip"], 60) / 45
        t2 = cases((le(M, 5.5), 0.0), (lt(M, 6.5), 1 + 0.2 * (M - 6.5) - 0.8 * (M - 6.5) ** 2), default=1 + 0.2 * (M - 6.5))
        r1 = s["width"] * cos(radians(s["dip"]))
        r2 = 3 * r1
        x = s["dist_x"]
        t3 = cases((lt(x, r1), 0.25 + 1.5 * (x / r1) - 0.75 * (x / r1) ** 2), (lt(x, r2), 1 - (x - r1) / (r2 - r1)), default=0.0)
        t4 = clip(1 - s["depth_tor"] ** 2 / 100, 0, 1)
        if s.get("dist_y0") is None:
            t5 = clip(1 - s["dist_jb"] / 30, 0, 1)
        else:
            t5 = clip(1 - (s["dist_y0"] - x * tan(radians(20))) / 5, 0, 1)
        f = f + c["a13"] * t1 * t2 * t3 * t4 * t5
    f = f + c["a15"] * clip(s["depth_tor"] / 20, 0, 1)
    if s["mechanism"] == "RS":
        f = f + c["a11"] * clip(M - 4, 0, 1)
    elif s["mechanism"] == "NS":
        f = f + c["a12"] * clip(M - 4, 0, 1)
    # site
    vstar = mn(vs, v1(c["period"]))
    lin = (c["a10"] + c["b"] * c["n"]) * log(vstar / c["v_lin"])
    if sa1180 is None:
        f5 = lin           # reference velocity is above every v_lin
        assert vs >= c["v_lin"]
    else:
        nl = (c["a10"] * log(vstar / c["v_lin"]) - c["b"] * log(sa1180 + c["c"])
              + c["b"] * log(sa1180 + c["c"] * power(vstar / c["v_lin"], c["n"])))
        f5 = ite(lt(vstar, c["v_lin"]), nl, lin)
    f = f + f5
    # basin
    if s.get("depth_1_0") is not None and sa1180 is not None:
        f10 = (interp(vs, [150.0, 250.0, 400.0, 700.0], [c["a43"], c["a44"], c["a45"], c["a46"]])
               * log((s["depth_1_0"] + 0.01) / (z1_ref(vs, reg) + 0.01)))
        f = f + f10
    if s["is_aftershock"]:
        f = f + c["a14"] * clip(1 - (s["dist_crjb"] - 5) / 10, 0, 1)
    if reg == "taiwan":
        f = f + c["a31"] * log(vstar / c["v_lin"]) + c["a25"] * R
    elif reg == "china":
        f = f + c["a28"] * R
    elif reg == "japan":
        f13 = interp(vs, [150.0, 250.0, 350.0, 450.0, 600.0, 850.0, 1150.0], [c["a%d" % i] for i in range(36, 43)])
        f = f + f13 + c["a29"] * R
    return f


def std(c, s, sa1180):
    M, vs = s["mag"], s["v_s30"]
    if s["region"] == "japan":
        phi_al = c["s5"] + (c["s6"] - c["s5"]) * clip((s["dist_rup"] - 30) / 50, 0, 1)
    else:
        k = "m" if s["vs_source"] == "measured" else "e"
        phi_al = c["s1" + k] + (c["s2" + k] - c["s1" + k]) * clip((M - 4) / 2, 0, 1)
    tau_al = c["s3"] + (c["s4"] - c["s3"]) * clip((M - 5) / 2, 0, 1)
    phi_b2 = mx(phi_al ** 2 - 0.4 ** 2, 0.0)
    d = c["b"] * sa1180 * (-1 / (sa1180 + c["c"]) + 1 / (sa1180 + c["c"] * power(vs / c["v_lin"], c["n"])))
    d = ite(ge(vs, c["v_lin"]), 0.0, d)
    return sqrt(phi_b2 * (1 + d) ** 2 + 0.4 ** 2 + (tau_al * (1 + d)) ** 2)


def defaults(s):
    s = dict(s)
    s.setdefault("region", "global")
    s.setdefault("vs_source", "measured")
    s.setdefault("is_aftershock", False)
    s.setdefault("on_hanging_wall", False)
    s.setdefault("dist_crjb", 15)
    if s.get("width") is None:
        s["width"] = width(s["mag"], s["dip"])
    if s.get("depth_tor") is None:
        s["depth_tor"] = ztor(s["mag"])
    return s


def predict(x):
    s = defaults(x)
    med, sd = [], []
    for c in T:
        sa = exp(median(c, s, VREF, None))
        med.append(median(c, s, s["v_s30"], sa))
        sd.append(std(c, s, sa))
    return dict(ln_sa=med[:22], ln_std=sd[:22], ln_pga=med[22], ln_std_pga=sd[22], ln_pgv=med[23], ln_std_pgv=sd[23])
