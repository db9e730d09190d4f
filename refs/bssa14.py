"""Boore, Stewart, Seyhan & Atkinson (2014), Earthquake Spectra 30(3)."""
from engine.ops import *
from . import table
from . import cy14

T = table("boore_stewart_seyhan_atkinson-2014.csv", 2)
PGA = 1


def path_region(region):
    return {"china": "dc_3ct", "turkey": "dc_3ct", "italy": "dc_3ij", "japan": "dc_3ij"}.get(region, "dc_3global")


def rock(c, s):
    M = s["mag"]
    e = c[{"U": "e_0", "SS": "e_1", "NS": "e_2", "RS": "e_3"}[s["mechanism"]]]
    dm = M - c["M_h"]
    fe = join(M, c["M_h"], e + c["e_4"] * dm + c["e_5"] * dm ** 2, e + c["e_6"] * dm)
    R = sqrt(s["dist_jb"] ** 2 + c["h"] ** 2)
    fp = ((c["c_1"] + c["c_2"] * (M - c["M_ref"])) * log(R / c["R_ref"])
          + (c["c_3"] + c[path_region(s["region"])]) * (R - c["R_ref"]))
    return fe + fp


def site(c, vs, z1, region, pga_r):
    flin = c["c"] * log(mn(vs, c["V_c"]) / c["V_ref"])
    f2 = c["f_4"] * (exp(c["f_5"] * (mn(vs, 760.0) - 360)) - exp(c["f_5"] * (760.0 - 360)))
    fnl = c["f_1"] + f2 * log((pga_r + c["f_3"]) / c["f_3"])
    f = flin + fnl
    if c["period"] >= 0.65 and z1 is not None:
        dz = z1 - cy14.z1_ref(vs, region)
        f = f + mn(c["f_6"] * dz, c["f_7"])
    return f


def std(c, s):
    M = s["mag"]
    w = clip(M - 4.5, 0, 1)
    tau = c["tau_1"] + (c["tau_2"] - c["tau_1"]) * w
    phi = c["phi_1"] + (c["phi_2"] - c["phi_1"]) * w
    # distance and velocity corrections
    phi = phi + c["dphi_R"] * clip(log(mx(s["dist_jb"], 0.1) / c["R_1"]) / log(c["R_2"] / c["R_1"]), 0, 1)
    phi = phi - c["dphi_V"] * clip(log(c["V_2"] / s["v_s30"]) / log(c["V_2"] / c["V_1"]), 0, 1)
    return sqrt(tau ** 2 + phi ** 2)


def predict(x):
    s = dict(x)
    s.setdefault("mechanism", "U")
    s.setdefault("region", "global")
    pga_r = exp(rock(T[PGA], s))
    med = [rock(c, s) + site(c, s["v_s30"], s.get("depth_1_0"), s["region"], pga_r) for c in T]
    sd = [std(c, s) for c in T]
    return dict(ln_sa=med[2:107], ln_std=sd[2:107], ln_pga=med[1], ln_std_pga=sd[1], ln_pgv=med[0], ln_std_pgv=sd[0])
