"""Model catalogue: inputs, boxes, discrete options, observation code and reference of every model."""
from engine import check as K
from engine import ops as O
from engine import sym as S
from refs import ab06, asb14, ask14, ba19, bssa14, cb14, cy14, dbc14, durations, ena, ga11, i14, subduction

ASSUME = [
    "real arithmetic: floats are treated as reals, differences below the tolerance and IEEE rounding/overflow are outside the claim",
    "numpy/scipy are replaced by stand-ins written from their documented semantics; on every path one concrete point of the encoding is compared with the real package",
    "coefficient tables are compared with copies pinned in /verif/refs/data (the published numbers themselves are not re-derived)",
]

OBS = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.%(mod)s import %(cls)s as M
def run(x):
    m = M(Scenario(**x))
    return {%(out)s}
'''
SA = '"ln_sa": np.log(m.spec_accels), "ln_std": m.ln_stds'
PGA = ', "ln_pga": np.log(m.pga), "ln_std_pga": m.ln_std_pga'
PGV = ', "ln_pgv": np.log(m.pgv), "ln_std_pgv": m.ln_std_pgv'

SPECS = []


def spec(**k):
    SPECS.append(k)
    return k


def discrete_note(s, tier):
    return dict(options={k: [repr(v) for v in vs] for k, vs in s["cat"].items()}, omitted=s["opt"],
                enumeration="full product" if (tier == "thorough" or s.get("quick_t") is None) else "%d-wise covering set of the product" % s["quick_t"])


def Z(*pts, eps=1e-6):
    """zones between the given hinge points, leaving out a sliver around each hinge"""
    return [(a + (eps if i else 0.0), b - (eps if i < len(pts) - 2 else 0.0)) for i, (a, b) in enumerate(zip(pts, pts[1:]))]


def configs(s, tier):
    if s.get("raw"):
        return [dict(c) for c in s.get("raw_configs", [{}])]
    dims = dict(s["cat"])
    for o in s["opt"]:
        dims["?" + o] = [True, False]
    for n, zs in s.get("zones", {}).items():
        dims["@" + n] = list(range(len(zs)))
    for n, k in s.get("branch", {}).items():
        dims["!" + n] = list(range(k))
    ok = s.get("ok")
    if tier == "thorough" or s.get("quick_t") is None:
        return [c for c in K.product(dims) if ok is None or ok(c)]
    return K.covering(dims, s["quick_t"], ok=ok)


def cases_of(s, tier):
    out = []
    for cfg in configs(s, tier):
        out.append(make_case(s, cfg))
    return out


def label(s, cfg):
    if s.get("label_of"):
        cfg = s["label_of"](cfg)
    return "%s[%s]" % (s["name"], ",".join("%s=%s" % (k, v) for k, v in cfg.items()))


def make_x(s, cfg):
    if s.get("raw"):
        return (lambda: s["raw"](**cfg)) if cfg else s["raw"]

    def build():
        x = {}
        for n, (lo, hi) in s["num"].items():
            if cfg.get("?" + n, True):
                if "@" + n in cfg:
                    lo, hi = s["zones"][n][cfg["@" + n]]
                x[n] = S.var(n, lo, hi) if lo < hi else lo
        for n in s["cat"]:
            if cfg[n] is not OMIT:
                x[n] = cfg[n]
        for n, f in s.get("more", {}).items():
            x[n] = f(x) if f.__code__.co_argcount else f()
        return x
    return build


class _Omit:
    def __repr__(self):
        return "omitted"


OMIT = _Omit()


def make_case(s, cfg):
    return dict(label=label(s, cfg), modules=[s["mod"], "model"], code=s["code"], x=make_x(s, cfg), ref=s.get("ref"), claims=s.get("claims"), raises=s.get("raises", ()),
                assume=(lambda x: s["assume"](x, cfg)) if s.get("assume") else None, tol=s.get("tol", 1e-6), budget=s.get("budget", 40.0), fork=s["fork"](cfg) if s.get("fork") else 0,
                job=s.get("job"), var=s.get("var"), sign=s.get("sign", 0), what=s.get("what", "property"), split=s.get("split", False), known=s.get("known"))


def ask14_assume(x, c):
    if c["on_hanging_wall"] is not True:
        return []
    out = [O.lt(x["dip"], 90)]
    w = x.get("width")
    if w is None:      # the two branches of the default width are separate configurations
        a, b = 18 / O.sin(O.radians(x["dip"])), O.pow10(-1.75 + 0.45 * x["mag"])
        out.append(O.le(a, b) if c["!width"] else O.gt(a, b))
        w = b if not c["!width"] else a
    r1 = w * O.cos(O.radians(x["dip"]))
    out.append(O.lt(x["dist_x"], r1) if c["!t3"] == 0 else O.ge(x["dist_x"], r1))
    return out


spec(prop="C10", name="ASK14", mod="abrahamson_silva_kamai_2014", cls="AbrahamsonSilvaKamai2014",
     code=OBS % dict(mod="abrahamson_silva_kamai_2014", cls="AbrahamsonSilvaKamai2014", out=SA + PGA + PGV),
     num=dict(mag=(3, 8.5), dist_rup=(0, 300), dist_jb=(0, 300), dist_x=(-300, 300), dist_y0=(0, 300), dist_crjb=(0, 50), dip=(10, 90), v_s30=(150, 1500),
              depth_1_0=(0, 5), depth_tor=(0, 30), width=(0.5, 60)),
     opt=["depth_tor", "width", "depth_1_0", "dist_y0", "dist_crjb"],
     zones=dict(v_s30=[(180, 1000), (150, 179.999), (1000.001, 1500)], mag=[(3, 8.5), (3, 5.5), (5.5, 6.5), (6.5, 8.5)]),
     branch=dict(width=2, t3=2),
     ok=lambda c: ((c["on_hanging_wall"] is True) == (c["@mag"] > 0) and (c["on_hanging_wall"] is True or not c["!t3"])
                   and (c["on_hanging_wall"] is True and not c["?width"] or not c["!width"])),
     cat=dict(mechanism=["SS", "NS", "RS"], region=[OMIT, "global", "california", "china", "italy", "japan", "taiwan"],
              vs_source=[OMIT, "measured", "inferred"], is_aftershock=[True, False, OMIT], on_hanging_wall=[True, False, OMIT]),
     assume=ask14_assume,
     quick_t=2, ref=ask14.predict)


def obs(mod, cls, out):
    return OBS % dict(mod=mod, cls=cls, out=out)


spec(prop="C11", name="BSSA14", mod="boore_stewart_seyhan_atkinson_2014", code=obs("boore_stewart_seyhan_atkinson_2014", "BooreStewartSeyhanAtkinson2014", SA + PGA + PGV),
     num=dict(mag=(3, 8.5), dist_jb=(0, 300), v_s30=(150, 1500), depth_1_0=(0, 5)), opt=["depth_1_0"],
     cat=dict(mechanism=[OMIT, "U", "SS", "NS", "RS"], region=[OMIT, "global", "california", "china", "italy", "japan", "new_zealand", "taiwan", "turkey"]),
     quick_t=2, ref=bssa14.predict)


def cb14_assume(x, c):
    # the rupture lies within the seismogenic zone: its top is above its bottom
    out = []
    M, dip = x["mag"], x["dip"]
    ztor = x["depth_tor"] if "depth_tor" in x else cy14.ztor(M, c["mechanism"])
    zbot = x.get("depth_bot", 15.0)
    if "width" not in x and "depth_tor" in x:
        out.append(O.le(x["depth_tor"], zbot - 0.1))
    if "depth_bor" in x and "depth_hyp" not in x and "depth_tor" in x:
        out.append(O.le(x["depth_tor"], x["depth_bor"] - 0.1))
    # the branches of the estimated width and hypocentral depth are separate configurations
    if "width" in x:
        w = x["width"]
    else:
        a, b = O.sqrt(O.pow10((M - 4.07) / 0.98)), (zbot - ztor) / O.sin(O.radians(dip))
        out.append((O.gt if c["!width"] else O.le)(a, b))
        w = b if c["!width"] else a
    if "depth_hyp" not in x:
        zbor = x["depth_bor"] if "depth_bor" in x else ztor + w * O.sin(O.radians(dip))
        a = O.mn(-4.317 + 0.984 * M, 2.325) + O.mn(0.0445 * (dip - 40), 0)
        out.append((O.gt if c["!hyp"] else O.le)(a, O.log(0.9 * (zbor - ztor))))
    return out


spec(prop="C12", name="CB14", mod="campbell_bozorgnia_2014", code=obs("campbell_bozorgnia_2014", "CampbellBozorgnia2014", SA + PGA + PGV),
     num=dict(mag=(3.3, 8.5), dist_rup=(0, 300), dist_jb=(0, 300), dist_x=(-300, 300), dip=(15, 90), v_s30=(150, 1500), depth_1_0=(0, 5), depth_2_5=(0, 10),
              depth_tor=(0, 20), depth_bor=(8, 40), depth_bot=(8, 40), depth_hyp=(0, 20), width=(0.5, 60)),
     opt=["depth_1_0", "depth_2_5", "depth_tor", "depth_bor", "depth_bot", "depth_hyp", "width"],
     zones=dict(mag=[(3.3, 4.5), (4.500001, 4.97), (4.970001, 5.5), (5.500001, 5.849), (5.849001, 6.5), (6.500001, 6.75), (6.750001, 4.97 + 2.673 / 1.136),
                     (4.970001 + 2.673 / 1.136, 5.849 + 2.704 / 1.226), (5.849001 + 2.704 / 1.226, 8.5)],
                dip=[(15, 40), (40.000001, 90)],
                dist_x=[(-300, -1e-6), (0, 300)], dist_rup=[(0.001, 80), (0, 0), (80.000001, 300)], depth_2_5=[(0, 1), (1.000001, 3), (3.000001, 10)],
                depth_tor=[(0, 16.66), (16.660001, 20)], depth_hyp=[(0, 7), (7.000001, 20)]),
     branch=dict(width=2, hyp=2),
     ok=lambda c: (not (c["?width"] and c["!width"]) and not (c["?depth_hyp"] and c["!hyp"]) and not (not c["?depth_2_5"] and c["@depth_2_5"])
                   and not (not c["?depth_tor"] and c["@depth_tor"]) and not (not c["?depth_hyp"] and c["@depth_hyp"])),
     cat=dict(mechanism=["SS", "NS", "RS"], region=[OMIT, "global", "california", "japan", "italy", "china"]),
     quick_t=2, assume=cb14_assume, ref=cb14.predict)

spec(prop="C13", name="CY14", mod="chiou_youngs_2014", code=obs("chiou_youngs_2014", "ChiouYoungs2014", SA + PGA + PGV),
     num=dict(mag=(3.5, 8.5), dist_rup=(0, 300), dist_jb=(0, 300), dist_x=(-300, 300), dip=(10, 90), v_s30=(180, 1500), depth_1_0=(0, 5), depth_tor=(0, 20), dpp_centered=(-5, 5)),
     opt=["depth_tor", "depth_1_0", "dpp_centered"],
     cat=dict(mechanism=[OMIT, "U", "SS", "NS", "RS"], region=[OMIT, "california", "china", "italy", "japan"], on_hanging_wall=[OMIT, True, False],
              vs_source=[OMIT, "measured", "inferred"]),
     quick_t=2, ref=cy14.predict)

spec(prop="C14", name="I14", mod="idriss_2014", code=obs("idriss_2014", "Idriss2014", SA + PGA),
     num=dict(mag=(5, 8.5), dist_rup=(0, 150), v_s30=(450, 1200)), opt=[], cat=dict(mechanism=["SS", "RS"]), ref=i14.predict)

spec(prop="C15", name="ASB14", mod="akkar_sandikkaya_bommer_2014", code=obs("akkar_sandikkaya_bommer_2014", "AkkarSandikkayaBommer2014", SA + PGA + PGV),
     num=dict(mag=(4, 8), dist_jb=(0, 200), dist_epi=(0, 200), dist_hyp=(0, 200), v_s30=(150, 1200)), opt=["dist_jb", "dist_epi", "dist_hyp"],
     ok=lambda c: c["?dist_jb"] or c["?dist_epi"] or c["?dist_hyp"],
     cat=dict(mechanism=["SS", "NS", "RS"]), ref=asb14.predict)

spec(prop="C16", name="AB06", mod="atkinson_boore_2006",
     code=obs("atkinson_boore_2006", "AtkinsonBoore2006", SA + PGA + PGV + ', "ln_pgd": np.log(m.pgd), "ln_std_pgd": m.ln_std_pgd'),
     num=dict(mag=(3.5, 8), dist_rup=(1, 1000), v_s30=(150, 2500)), opt=[], cat=dict(), ref=ab06.predict)

spec(prop="C17", name="C03", mod="campbell_2003", code=obs("campbell_2003", "Campbell2003", SA),
     num=dict(mag=(5, 8.2), dist_rup=(0.01, 1000)), opt=[], cat=dict(), ref=ena.campbell)
spec(prop="C17", name="TP05", mod="tavakoli_pezeshk_2005", code=obs("tavakoli_pezeshk_2005", "TavakoliPezeshk05", SA + PGA),
     num=dict(mag=(5, 8.2), dist_rup=(0, 1000)), opt=[], cat=dict(), ref=ena.tp05)
spec(prop="C17", name="Pea11", mod="pezeshk_zandieh_tavakoli_2011", code=obs("pezeshk_zandieh_tavakoli_2011", "PezeshkZandiehTavakoli2011", SA + PGA),
     num=dict(mag=(5, 8), dist_rup=(0, 1000)), opt=[], cat=dict(), ref=ena.p11)

AGA_CODE = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.abrahamson_gregor_addo_2016 import AbrahamsonGregorAddo2016 as M
def run(x):
    x = dict(x)
    kw = {k: x.pop(k) for k in ("adjust_c1", "scale_atten") if k in x}
    m = M(Scenario(**x), **kw)
    return {%s}
''' % (SA + PGA)
spec(prop="C18", name="BCHydro", mod="abrahamson_gregor_addo_2016", code=AGA_CODE,
     num=dict(mag=(3, 8.5), dist_rup=(0, 1000), dist_hyp=(0, 1000), depth_hyp=(0, 200), v_s30=(150, 1500), scale_atten=(0.1, 3)), opt=["scale_atten", "dist_hyp", "dist_rup"],
     ok=lambda c: (c["?dist_hyp"] or c["event_type"] == "interface") and (c["?dist_rup"] or c["event_type"] == "intraslab"),
     cat=dict(event_type=["interface", "intraslab"], tectonic_region=[OMIT, "forearc", "backarc", "unknown"], adjust_c1=[OMIT, 0.25, [0.02 * i - 0.2 for i in range(23)]]),
     quick_t=3, ref=subduction.bch)
COB_CODE = AGA_CODE.replace("abrahamson_gregor_addo_2016", "coppersmith_bommer_2014").replace("AbrahamsonGregorAddo2016", "CoppersmithBommer2014")
spec(prop="C18", name="CoB14", mod="coppersmith_bommer_2014", code=COB_CODE,
     num=dict(mag=(3, 8.5), dist_rup=(0, 1000), v_s30=(150, 1500), scale_atten=(0.1, 3)), opt=["scale_atten"],
     cat=dict(event_type=["interface", "intraslab"]), ref=subduction.cob)

spec(prop="C19", name="BA19", mod="bayless_abrahamson_2019",
     code=obs("bayless_abrahamson_2019", "BaylessAbrahamson2019", '"ln_eas": np.log(m.eas), "ln_std": m.ln_std').replace(
         "return {", 'assert len(m.freqs) == 301\n    return {'),
     num=dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(180, 1500), depth_tor=(0, 30), depth_1_0=(0, 5)), opt=["depth_1_0"],
     zones=dict(v_s30=[(180, 200), (200.000001, 300), (300.000001, 500), (500.000001, 759.999999), (760, 1000), (1000.000001, 1500)]),
     cat=dict(mechanism=[OMIT, "SS", "NS", "RS"]), quick_t=2, ref=ba19.predict)

spec(prop="C20", name="DBC14", mod="derras_bard_cotton_2014", code=obs("derras_bard_cotton_2014", "DerrasBardCotton2014", SA + PGA + PGV),
     num=dict(mag=(3.6, 7.6), dist_jb=(1, 547), v_s30=(200, 1500), depth_hyp=(0, 25)), opt=[], cat=dict(mechanism=["SS", "NS", "RS"]), ref=dbc14.predict)

GA_PROBE = [0.01, 0.02, 0.033, 0.24, 0.7, 1.0, 6.5, 10.0]
GA_CODE = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.gulerce_abrahamson_2011 import GulerceAbrahamson2011 as M
def run(x):
    x = dict(x)
    probe = x.pop("probe")
    m = M(Scenario(**x))
    return {"ln_ratio": np.log(m.ratio), "ln_std": m.ln_std, "mid": np.log(m.interp_ratio(probe)), "mid_std": m.interp_ln_std(probe)}
'''
spec(prop="C21", name="GA11", mod="gulerce_abrahamson_2011", code=GA_CODE,
     num=dict(mag=(4, 8.5), dist_rup=(0, 200), v_s30=(200, 2000), pga_ref=(0.001, 10)), opt=[],
     cat=dict(mechanism=["SS", "NS", "RS"], probe=[GA_PROBE]), ref=ga11.predict)

AS96_CODE = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.abrahamson_silva_1996 import AbrahamsonSilva1996 as M
def run(x):
    x = dict(x)
    nias, stds = x.pop("nias"), x.pop("stds")
    m = M(Scenario(**x))
    return {"ln_dur": np.log(m.duration), "std_err": m.std_err, "med": np.log(m.interp(nias)), "band": np.log(m.interp(nias, stds)),
            "out": [v for v in m.interp([0.05, 0.96])]}
'''


def with_x(s, /, **more):
    """spec whose case gets extra symbolic inputs inside lists"""
    s["more"] = more
    return s


with_x(spec(prop="C22", name="AS96", mod="abrahamson_silva_1996", code=AS96_CODE,
            num=dict(mag=(4, 8), dist_rup=(0, 300)), opt=[], cat=dict(site_cond=["soil", "rock"]), ref=durations.as96),
       nias=lambda: [S.var("level", 0.10, 0.95), 0.10, 0.475, 0.75, 0.95], stds=lambda: [0, 1, -1.5, S.var("nstd", -3, 3)])

KS_CODE = '''
import numpy as np
from pygmm.model import Scenario
from pygmm.%s import %s as M
def run(x):
    m = M(Scenario(**x))
    return {"dur": {k: %s for k in m.duration.dtype.names}, "sd": {k: m.std_err[k] for k in m.std_err.dtype.names}}
'''
spec(prop="C23", name="KS06", mod="kempton_stewart_2006", code=KS_CODE % ("kempton_stewart_2006", "KemptonStewart2006", "m.duration[k]"),
     num=dict(mag=(5, 7.6), dist_rup=(0, 200), v_s30=(200, 1000)), opt=[], cat=dict(), ref=durations.ks06)
spec(prop="C24", name="AS16", mod="afshari_stewart_2016", code=KS_CODE % ("afshari_stewart_2016", "AfshariStewart2016", "np.log(m.duration[k])"),
     num=dict(mag=(3, 8), dist_rup=(0, 300), v_s30=(150, 1500), depth_1_0=(0, 3)), opt=["depth_1_0"], cat=dict(mechanism=["SS", "NS", "RS", "U"]), ref=durations.as16)

PR_LEVELS = [round(0.10 + 0.05 * i, 2) for i in range(18)]
PR_ODD = [0.11, 0.1249, 0.1251, 0.33, 0.52, 0.74, 0.76, 0.93]
PR_CODE = '''
from pygmm.model import Scenario
from pygmm.%s import %s as M
def run(x):
    x = dict(x)
    levels = x.pop("energies")
    m = M(Scenario(**x))
    out = {"base": [m.duration, m.duration_plus_sigma, m.duration_minus_sigma]}
    %s
    for e in levels:
        out["e%%g" %% e] = list(m.duration_for_energy(e))
    for e in (0.09, 0.96):
        try:
            m.duration_for_energy(e)
            out["refused"] = 0
        except ValueError:
            pass
    return out
'''
spec(prop="C25", name="PR23", mod="pinilla_ramos_et_al_2023", code=PR_CODE % ("pinilla_ramos_et_al_2023", "PinillaRamosEtAl2023", ""),
     num=dict(mag=(4, 8), dist_rup=(0, 300), v_s30=(150, 2000)), opt=[], cat=dict(energies=[PR_LEVELS[:6], PR_LEVELS[6:12], PR_LEVELS[12:], PR_ODD]),
     zones=dict(v_s30=Z(150, 200, 275, 1900, 1999.999), dist_rup=Z(0, 10, 42, 44, 130, 300), mag=Z(4, 6.75, 8)), quick_t=2, ref=durations.pr23)
spec(prop="C26", name="PR24", mod="pinilla_ramos_et_al_2024",
     code=PR_CODE % ("pinilla_ramos_et_al_2024", "PinillaRamosEtAl2024", 'out["d575"] = [m.d575_median, m.d575_sigma]'),
     num=dict(mag=(4.5, 8.5), dist_rup=(0, 300), v_s30=(150, 2000)), opt=[],
     cat=dict(event_type=["interface", "slab", "intraslab"], region=["Japan", "New Zealand", "South America", "Taiwan", "California"], energies=[PR_LEVELS[:9], PR_LEVELS[9:], PR_ODD]),
     zones=dict(mag=Z(4.5, 6.0, 8.5), dist_rup=Z(0, 250, 300)), quick_t=3, ref=durations.pr24)
