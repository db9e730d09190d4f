"""Significant-duration models: AS96, KS06, AS16, PR23, PR24."""
import math

from engine.ops import *


def source(dsigma_ln, M):
    """(stress drop / moment)^(-1/3) / (4.9e6 * 3.2)"""
    return exp(-(dsigma_ln - (1.5 * M + 16.05) * LN10) / 3) / (4.9e6 * 3.2)


# ---------------------------------------------------------------- Abrahamson & Silva (1996)
AS_I = [0.10 + 0.05 * i for i in range(18)]
AS_SD = [0.843, 0.759, 0.713, 0.691, 0.674, 0.660, 0.646, 0.636, 0.628, 0.616, 0.605, 0.594, 0.582, 0.565, 0.545, 0.528, 0.510, 0.493]


def as_incr(i):
    q = log((i - 0.05) / (1 - i))
    return -0.532 + 0.552 * q - 0.0262 * q ** 2


def as96(s):
    M, R = s["mag"], s["dist_rup"]
    base = log(source(5.204 + 0.851 * (M - 6), M) + (0.805 if s["site_cond"] == "soil" else 0.0) + 0.063 * mx(R - 10, 0))
    n = s["nias"]
    med = [base + as_incr(i) for i in n]
    sd = [interp(i, AS_I, AS_SD) for i in n]
    return dict(ln_dur=base + as_incr(0.75), std_err=0.55, med=med, band=[[m + k * e for m, e in zip(med, sd)] for k in s["stds"]],
                out=[math.nan, math.nan])


# ---------------------------------------------------------------- Kempton & Stewart (2006)
KS = dict(D_5t75a=(6.02, 0.0, 0.07, 0.82, -0.0013, 0.57), D_5t95a=(2.79, 0.82, 0.15, 3.00, -0.0041, 0.47),
          D_5t75v=(5.46, 0.0, 0.10, 1.40, -0.0022, 0.66), D_5t95v=(1.53, 1.34, 0.15, 3.99, -0.0062, 0.52))


def ks06(s):
    M, R, V = s["mag"], s["dist_rup"], s["v_s30"]
    d = {k: source(a + b * (M - 6), M) + p * R + (c + e * V) for k, (a, b, p, c, e, sd) in KS.items()}
    return dict(dur={k: exp(log(v)) for k, v in d.items()}, sd={k: v[5] for k, v in KS.items()})


# ---------------------------------------------------------------- Afshari & Stewart (2016)
A = dict(D_5t75=dict(M1=5.35, M2=7.15, b={"SS": (1.279, 5.578), "NS": (1.555, 4.992), "RS": (0.7806, 7.061), None: (1.280, 5.576)}, b2=0.9011, b3=-1.684,
                     c=(0.1159, 0.1065, 0.0682, -0.2246, 0.0006), vref=368.2, tau=(0.28, 0.25), phi=(0.54, 0.41)),
         D_5t95=dict(M1=5.2, M2=7.4, b={"SS": (2.302, 3.467), "NS": (2.541, 3.170), "RS": (1.612, 4.536), None: (2.182, 3.628)}, b2=0.9443, b3=-3.911,
                     c=(0.3165, 0.2539, 0.0932, -0.3183, 0.0006), vref=369.9, tau=(0.25, 0.19), phi=(0.43, 0.35)),
         D_20t80=dict(M1=5.2, M2=7.4, b={"SS": (0.8804, 6.188), "NS": (1.409, 4.778), "RS": (0.7729, 6.188), None: (0.8822, 6.182)}, b2=0.7414, b3=-3.164,
                      c=(0.0646, 0.0865, 0.0373, -0.4237, 0.0005), vref=369.6, tau=(0.30, 0.19), phi=(0.56, 0.45)))


def as_z1(v):
    """California mean depth to 1 km/s, in metres"""
    return exp(-7.15 / 4 * log((power(v, 4) + 570.94 ** 4) / (1360.0 ** 4 + 570.94 ** 4)))


def as16(s):
    M, R, V = s["mag"], s["dist_rup"], s["v_s30"]
    mech = s["mechanism"] if s["mechanism"] in ("SS", "NS", "RS") else None
    med, sd = {}, {}
    for k, p in A.items():
        b0, b1 = p["b"][mech]
        c1, c2, c3, c4, c5 = p["c"]
        fe = ite(le(M, p["M1"]), b0, source(b1 + p["b2"] * (mn(M, p["M2"]) - 6) + p["b3"] * mx(M - p["M2"], 0), M))
        fp = c1 * mn(R, 10) + c2 * mx(mn(R, 50) - 10, 0) + c3 * mx(R - 50, 0)
        fs = c4 * log(mn(V, 600) / p["vref"])
        if s.get("depth_1_0") is not None:
            fs = fs + c5 * mn(1000 * s["depth_1_0"] - as_z1(V), 200)
        med[k] = log(fe + fp) + fs
        tau = p["tau"][0] + (p["tau"][1] - p["tau"][0]) * (clip(M, 6.5, 7) - 6.5) / 0.5
        phi = p["phi"][0] + (p["phi"][1] - p["phi"][0]) * (clip(M, 5.5, 5.75) - 5.5) / 0.25
        sd[k] = sqrt(tau ** 2 + phi ** 2)
    return dict(dur=med, sd=sd)


# ---------------------------------------------------------------- Pinilla-Ramos et al. (2023)
P3 = [  # level, c_med, a0, r1, v1, std_c, rho
    (.05, 0, 0, 0, 0, 0, 0), (.10, .157, -.010798, .0007, .039, .156, -.083), (.15, .264, -.016831, .0012, .0656, .192, .022),
    (.20, .342, -.012831, .0014, .0852, .205, .078), (.25, .402, .002943, .0015, .1001, .206, .113), (.30, .455, .02267, .0015, .1134, .202, .137),
    (.35, .505, .047579, .0014, .1259, .195, .154), (.40, .553, .076718, .0013, .1377, .187, .167), (.45, .603, .107148, .0012, .1501, .177, .178),
    (.50, .654, .136351, .001, .1587, .163, .188), (.55, .71, .115442, .0008, .1365, .146, .198), (.60, .769, .092914, .0007, .1105, .125, .206),
    (.65, .835, .067803, .0005, .08, .097, .209), (.70, .912, .034992, .0002, .0428, .06, .204), (.75, 1, 0, 0, 0, 0, 0),
    (.80, 1.114, -.044725, -.0003, -.0512, .089, -.301), (.85, 1.273, -.112447, -.0006, -.1197, .21, -.361), (.90, 1.522, -.209689, -.001, -.2111, .434, -.403),
    (.95, 2.014, -.38092, -.0015, -.3589, .907, -.452)]


def pr23_base(s):
    M, R, V = s["mag"], s["dist_rup"], s["v_s30"]
    c2 = interp(R, [0, 10, 42], [0.41, 0.455, 0.54])
    c2 = join(R, 42, c2, 0.54 + 0.035 * (R - 42) / 158.0)
    src = ite(lt(M, 6.75), 3.655 * pow10((M - 6.75) * 0.515), 3.655 * pow10((M - 6.75) * c2))
    path = 0.041 * R + join(R, 44, 0.063 * R, join(R, 130, 0.063 * 44 + 0.034 * (R - 44), 0.063 * 44 + 0.034 * 86 + 0.083 * (R - 130)))
    lv = log(V)
    L = math.log
    sv = interp(lv, [L(200.0), L(275.0), L(1900.0), L(2000.0)], [1.11, 0.565, 0.565, 0.0])
    site = -0.619 * (lv - L(2000.0)) * exp(0.278 * sv)
    med = src + path + site
    sg = (0.537 - 0.093 * R / 100 + 0.0278 * (R / 100) ** 2 - 0.0372 * M + 0.00179 * M ** 2 + mn(0.0206 * power(200 / V, 2.401), 0.0419))
    return med, sg


def pr23(s):
    med, sg = pr23_base(s)
    out = dict(base=[med, power(power(med, 0.3) + sg, 1 / 0.3), power(power(med, 0.3) - sg, 1 / 0.3)])
    for e in s["energies"]:
        if abs(e - 0.75) < 1e-6:
            out["e%g" % e] = list(out["base"])
            continue
        lv, cm, a0, r1, v1, sc, rho = min(P3, key=lambda q: abs(q[0] - e))
        c = cm + a0 + r1 * s["dist_rup"] + v1 * log(s["v_s30"] / 2000.0)
        da, dc = power(c, 0.3), power(med, 0.3) * 0.3 * power(c, -0.7)
        sig = sqrt((da * sg) ** 2 + (dc * sc) ** 2 + 2 * rho * da * dc * sg * sc)
        m = power(c * med, 0.3)
        out["e%g" % e] = [c * med, power(m + sig, 1 / 0.3), power(m - sig, 1 / 0.3)]
    return out


# ---------------------------------------------------------------- Pinilla-Ramos et al. (2024)
P4 = {
    'interface': {
        'c_median': [0.04020966, 0.08388851, 0.13077859, 0.1815641, 0.23651304, 0.29491758, 0.35754282, 0.42528554, 0.4974965, 0.57657072, 0.66322614, 0.76042762, 0.87127838, 1.0, 1.156691, 1.35981923, 1.64806185, 2.14387062],
        'a0': [0.00733073, 0.0082492, 0.00374054, -0.00437519, -0.01719855, -0.03221052, -0.04872026, -0.06537968, -0.0775099, -0.08107197, -0.07769041, -0.06689982, -0.04362409, 0.0, 0.07075031, 0.19400743, 0.40879893, 0.85474174],
        'm1': [0.00014309, 0.00117448, 0.00259631, 0.00410708, 0.00587722, 0.00790171, 0.01010809, 0.01227336, 0.01365048, 0.01360863, 0.01233418, 0.00990628, 0.00596924, 0.0, -0.00864832, -0.02218093, -0.04374555, -0.07625391],
        'r1': [0.00240356, 0.00495213, 0.00759418, 0.0103042, 0.01287056, 0.01498933, 0.01646171, 0.01716948, 0.01753574, 0.01709783, 0.01588001, 0.01298844, 0.00821674, 0.0, -0.01349763, -0.03821902, -0.08847199, -0.21293647],
        'v1': [0.00547392, 0.01140383, 0.01633181, 0.02028365, 0.023049, 0.02498088, 0.02612515, 0.02645767, 0.02556579, 0.02366726, 0.02005288, 0.01446657, 0.00779351, 0.0, -0.00992416, -0.02254522, -0.04507584, -0.07641776],
        'rho_c_d575': [-0.04461951, 0.06461454, 0.14724378, 0.20758114, 0.2514994, 0.28656202, 0.31098974, 0.33129013, 0.34623991, 0.3543134, 0.3577682, 0.3535797, 0.33183304, 0.0, -0.38333019, -0.44116537, -0.4875535, -0.53284828],
        'sigma_c': [0.01395505, 0.02371422, 0.03224683, 0.03982668, 0.04629945, 0.05151767, 0.05540747, 0.05772215, 0.05816558, 0.05630814, 0.05154701, 0.04259618, 0.02792395, 0.0, 0.04378463, 0.1063117, 0.2196963, 0.48117887],
    },
    'slab': {
        'c_median': [0.03784117, 0.08352235, 0.13083025, 0.18030833, 0.23239066, 0.28891588, 0.34921976, 0.41510462, 0.48731871, 0.56681198, 0.65450169, 0.75358998, 0.86718004, 1.0, 1.16409534, 1.38075492, 1.69269723, 2.22279683],
        'a0': [-0.02602886, -0.01820382, -0.0179457, -0.02417655, -0.03142039, -0.03858319, -0.04451747, -0.04873467, -0.04927577, -0.04910907, -0.04485417, -0.03689654, -0.02248334, 0.0, 0.04127725, 0.10055556, 0.20353897, 0.38563394],
        'm1': [0.0052392, 0.00598378, 0.00764049, 0.00998344, 0.01243448, 0.01438996, 0.01589705, 0.01668025, 0.01651024, 0.01585809, 0.01396992, 0.01083706, 0.00631921, 0.0, -0.00947123, -0.02266151, -0.04240792, -0.07401577],
        'r1': [0.00226879, 0.00419625, 0.00701796, 0.01021163, 0.0129733, 0.01554978, 0.01720173, 0.0182664, 0.01846989, 0.01753247, 0.01580923, 0.01256225, 0.00751923, 0.0, -0.01202052, -0.03231773, -0.07103404, -0.16362926],
        'v1': [0.00409751, 0.01193314, 0.01968596, 0.02664136, 0.03281428, 0.03781827, 0.04107292, 0.04268421, 0.04266614, 0.04062058, 0.03576105, 0.0275821, 0.0162236, 0.0, -0.02139202, -0.05326305, -0.10313415, -0.21286673],
        'rho_c_d575': [0.23703883, 0.2062694, 0.26652301, 0.33081508, 0.38018048, 0.41419228, 0.43660475, 0.45004969, 0.45471735, 0.45897072, 0.45725023, 0.44906822, 0.42848698, 0.0, -0.46673359, -0.51548056, -0.55293589, -0.60041303],
        'sigma_c': [0.01952566, 0.02989091, 0.03838868, 0.04680806, 0.05476812, 0.06195816, 0.06758683, 0.0712496, 0.07242325, 0.07068507, 0.0647861, 0.05349118, 0.03450956, 0.0, 0.05308633, 0.1307839, 0.26720298, 0.56903831],
    },
}
P4_LEVELS = [0.10 + 0.05 * i for i in range(18)]
P4_SITE = {"interface": {"Japan": (0.03, -2.485), "New Zealand": (0.024, -2.420), "South America": (0.024, -2.248)},
           "slab": {"Japan": (0.046, -1.480), "New Zealand": (0.032, -1.252), "South America": (0.042, -1.510), "Taiwan": (0.038, -1.151)}}


def pr24(s):
    M, R, V, ev = s["mag"], s["dist_rup"], s["v_s30"], s["event_type"]
    if ev not in P4_SITE or s["region"] not in P4_SITE[ev]:
        raise Refuse("ValueError")
    c3, c4 = P4_SITE[ev][s["region"]]
    lv = log(V)
    if ev == "interface":
        src, near, far, n = 5.268 * pow10(0.275 * (M - 7.0)), 0.031, 0.029, 0.15
        sg = 0.3107 - 0.0393 * R / 100 + 0.0062 * (R / 100) ** 2 - 0.0519 * M + 0.0041 * M ** 2 + 0.0028 * lv
    else:
        src = join(M, 6.0, 0.340 * pow10(0.5 * (M - 4.25)), 0.340 * 10 ** (0.5 * 1.75) + 2.770 * (M - 6.0) / 2.5)
        near, far, n = 0.013, 0.020, 0.25
        sg = 0.3035 - 0.0188 * R / 100 + 0.004 * (R / 100) ** 2 - 0.0288 * M + 0.0019 * M ** 2 + 0.0038 * lv
    med = src + c4 * (lv - math.log(3100.0)) + c3 * R + join(R, 250.0, near * R, near * 250.0 + far * (R - 250.0))

    def band(m, sig):
        q = power(m, n)
        return [m, power(q + sig, 1 / n), power(q - sig, 1 / n)]
    out = dict(base=band(med, sg), d575=[med, sg])
    for e in s["energies"]:
        i = min(range(18), key=lambda j: abs(P4_LEVELS[j] - e))
        if i == 13:             # the 75 % level is the base model
            out["e%g" % e] = band(med, sg)
            continue
        t = {k: v[i] for k, v in P4[ev].items()}
        c = t["c_median"] + t["a0"] + t["m1"] * M + t["r1"] * R / 100 + t["v1"] * (lv - math.log(3100.0))
        # first-order variance of (c med)^n for correlated med^n and c
        var = (sg ** 2 * power(c, 2 * n) + (n * t["sigma_c"]) ** 2 * power(med, 2 * n) * power(c, 2 * n - 2)
               + 2 * n * t["rho_c_d575"] * t["sigma_c"] * sg * power(med, n) * power(c, 2 * n - 1))
        out["e%g" % e] = band(med * c, sqrt(var))
    return out
