"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json, os
P = []
S = "src/pygmm/"
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

SAMPLE = ("The tests compare a few dozen tabulated scenarios, most of them at default options, with a relative tolerance of "
          "0.5-2 %; a branch, coefficient or period that no row reaches, and any error below the tolerance, is never seen.")

prop("C01", "A scenario accepts only recognised keys and copies independently",
     "A scenario holds exactly the recognised keys it was given, and an unrecognised key is rejected when the scenario is built or derived from another. "
     "Every value is readable both as a key and as an attribute, a missing attribute is reported like any Python missing attribute, and deriving, copying or "
     "deep-copying a scenario yields an equal one whose later changes never show in the original.",
     ["inputs", "histories"], "every set of keys, every value, and every sequence of derive/copy/update steps on a scenario",
     "Two tests cover one unknown key and one copy with one replaced value.",
     ["model.py"], [("Scenario key check, attribute access, copy_with", "model.py")], ["Scenario(...)", "Scenario.copy_with", "copy.deepcopy"])
prop("C02", "Numeric inputs: required, default, and out-of-range warnings",
     "For every numeric input of every model, a missing required value is an error, a missing optional value takes the documented default, and a given value is used unchanged. "
     "A warning naming the input, its value and the violated limit is issued exactly when the value lies outside the model's documented limits, which are inclusive, and never changes the value.",
     ["inputs", "configurations"], "every numeric parameter of every model and every real value for it",
     "Tests check the mechanism on one ad-hoc parameter; the limits of the individual models and the message are never exercised.",
     ["model.py", "abrahamson_silva_kamai_2014.py", "campbell_bozorgnia_2014.py"], [("NumericParameter.check", "model.py"), ("PARAMS tables", "abrahamson_silva_kamai_2014.py")], ["Model(scenario)", "warnings"])
prop("C03", "Categorical inputs fall back to the default with a warning",
     "For every categorical input of every model, each documented option is accepted as given and without a warning, and a missing optional value silently takes the default. "
     "Any other value triggers a warning naming the input and the possible options and the model is evaluated as if the default had been given; a missing required option is an error.",
     ["inputs", "configurations"], "every categorical parameter of every model and every option or non-option value",
     "Tests check the mechanism on one ad-hoc parameter.",
     ["model.py"], [("CategoricalParameter.check", "model.py"), ("PARAMS tables", "boore_stewart_seyhan_atkinson_2014.py")], ["Model(scenario)", "warnings"])
prop("C04", "Evaluating a model leaves its inputs and published coefficients intact",
     "Evaluating a model or a correlation routine never modifies the scenario, arrays or lists passed by the caller, nor any shared coefficient table. "
     "Consequently a model built for a scenario gives the same results whatever was evaluated before it, in whatever order.",
     ["inputs", "histories"], "every scenario within the stated boxes, followed by every second evaluation of the same or another scenario",
     "Tests build each model once per row and compare the numbers only; nobody looks at the inputs or at shared tables afterwards.",
     ["model.py", "abrahamson_silva_1996.py", "abrahamson_silva_kamai_2014.py", "stafford_2017.py"],
     [("module/class-level coefficient tables", "abrahamson_silva_kamai_2014.py"), ("AS96 interp", "abrahamson_silva_1996.py")], ["model properties", "caller's objects"])
prop("C05", "Effective inputs are visible and given inputs are never overridden",
     "After a model is built its scenario shows the value actually used for every input, including the default or the model's own estimate of an input the caller left out, and feeding those effective inputs back gives the same prediction. "
     "A value the caller supplies, including zero, is used as supplied.",
     ["inputs", "configurations"], "every subset of optional inputs left out and every value of the remaining ones",
     "Test rows almost always give all inputs; the omitted-input estimates are reached by a handful of rows.",
     ["campbell_bozorgnia_2014.py", "abrahamson_silva_kamai_2014.py", "chiou_youngs_2014.py", "boore_stewart_seyhan_atkinson_2014.py"],
     [("_check_inputs overrides", "campbell_bozorgnia_2014.py"), ("_check_inputs overrides", "abrahamson_silva_kamai_2014.py")], ["model.scenario", "model predictions"])
prop("C06", "Inputs a model does not use never influence it",
     "A model's predictions depend only on the inputs it documents: adding, removing or changing any other recognised scenario key changes neither the result nor the warnings.",
     ["inputs"], "every scenario and every value, present or absent, of every recognised key the model does not document",
     "Test scenarios only carry the keys a model needs.",
     ["model.py"], [("Model.__init__ parameter selection", "model.py")], ["model predictions"])
prop("C07", "Peak values, spectra and their logarithms are mutually consistent",
     "For every ground-motion model, periods, spectral accelerations and logarithmic standard deviations have matching lengths and order, periods are the published oscillator periods, peak values come from their own coefficient sets in the documented units (g, cm/s, cm), and a quantity the model does not predict is refused rather than invented.",
     ["inputs", "configurations"], "every model and every scenario in the stated boxes",
     "Tests compare single numbers model by model; several models' peak velocity, displacement or deviation are never read.",
     ["model.py"], [("GroundMotionModel properties", "model.py"), ("PGV_SCALE/PGD_SCALE/INDEX_*", "atkinson_boore_2006.py")], ["spec_accels", "pga", "pgv", "pgd", "ln_stds"])
prop("C08", "Spectral interpolation is exact at nodes and log-linear in between",
     "Interpolated spectra and standard deviations equal the tabulated value at every tabulated period, are linear in the logarithm of period between neighbours (hence never outside them), and are not-a-number outside the tabulated range, whatever the order and number of periods asked for. "
     "The interpolated spectrum is the exponential of the interpolated log spectrum.",
     ["inputs"], "every query period and every spectrum a model can hold",
     "One smoke test interpolates one model at one period.",
     ["model.py"], [("interp_ln_spec_accels / interp_spec_accels / interp_ln_stds", "model.py")], ["interp_spec_accels", "interp_ln_stds"])
prop("C09", "Predictions are finite and deviations positive inside the model's limits",
     "For every scenario inside a model's documented limits, every median is a finite positive number and every standard deviation is finite and positive, without failing.",
     ["inputs", "configurations"], "every scenario inside the documented limits of each model, every optional input present or absent",
     "Tests evaluate a finite list of ordinary scenarios; singular corners (zero distance, limits, hinge points) are not sampled.",
     ["abrahamson_silva_kamai_2014.py", "kempton_stewart_2006.py", "atkinson_boore_2006.py"],
     [("log/sqrt/power/division in each model's equations", "kempton_stewart_2006.py")], ["spec_accels", "ln_stds", "durations"])

def conf(id, name, files, extra="", why=SAMPLE, mech=("calc functions",), title=None, text=None):
    prop(id, title or f"{name} reproduces its published equations",
         f"For every scenario within the published range of applicability, every option and every period, {name} returns the median and the logarithmic standard deviation of its published equations and coefficients. {extra}".strip(),
         ["inputs", "configurations"], text or "every real-valued input in the stated boxes, every categorical option, every optional input present or absent, every period",
         why, files, [(m, files[0]) for m in mech], ["spec_accels", "pga", "pgv", "ln_stds"])
conf("C10", "Abrahamson, Silva & Kamai (2014)", ["abrahamson_silva_kamai_2014.py"], "This includes site, basin, hanging-wall, depth-to-top, aftershock and regional terms and the estimates used for omitted inputs.", mech=("_calc_ln_resp", "_calc_ln_std", "calc_depth_1_0/_tor/_width"))
conf("C11", "Boore, Stewart, Seyhan & Atkinson (2014)", ["boore_stewart_seyhan_atkinson_2014.py"], "This includes regional path, linear and nonlinear site and regional basin terms.", mech=("calc_event_term/calc_path_term/calc_site_term/_calc_ln_std",))
conf("C12", "Campbell & Bozorgnia (2014)", ["campbell_bozorgnia_2014.py"], "This includes hanging-wall, shallow-site, basin, dip, hypocentral depth and regional terms and the estimates used for omitted inputs.", mech=("_calc_ln_resp/_calc_ln_std/estimators",))
conf("C13", "Chiou & Youngs (2014)", ["chiou_youngs_2014.py"], "This includes hanging-wall, directivity, depth-to-top, basin and regional terms and the estimates used for omitted inputs.", mech=("_calc_ln_resp_ref/_calc_ln_resp_site/_calc_ln_std",))
conf("C14", "Idriss (2014)", ["idriss_2014.py"])
conf("C15", "Akkar, Sandikkaya & Bommer (2014)", ["akkar_sandikkaya_bommer_2014.py"], "This holds for each of the three source-to-site distance metrics.")
conf("C16", "Atkinson & Boore (2006)", ["atkinson_boore_2006.py"], "This includes the stress-drop scaling and the linear and nonlinear soil factor; the standard deviation is the published constant.")
conf("C17", "Campbell (2003), Tavakoli-Pezeshk (2005) and Pezeshk et al. (2011)", ["campbell_2003.py", "tavakoli_pezeshk_2005.py", "pezeshk_zandieh_tavakoli_2011.py"], title="The eastern North America hard-rock models reproduce their equations")
conf("C18", "each of the BC Hydro subduction models (2016) and its Coppersmith-Bommer update", ["abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py"], "The two models share their functional form and differ exactly in their published coefficients.", title="The subduction models (BC Hydro family) reproduce their equations")
conf("C19", "Bayless & Abrahamson (2019)", ["bayless_abrahamson_2019.py"], "This is the effective amplitude spectrum at each of the published frequencies, including nonlinear site and basin terms.")
conf("C20", "Derras, Bard & Cotton (2014)", ["derras_bard_cotton_2014.py"], "This is the published neural network: its input scaling, layers and output scaling.")
conf("C21", "Gulerce & Abrahamson (2011)", ["gulerce_abrahamson_2011.py"], "This is the vertical-to-horizontal ratio and, on demand, its interpolation in period.")
conf("C22", "Abrahamson & Silva (1996)", ["abrahamson_silva_1996.py"], "This is the significant duration to the 75 % energy level and its increments to any other level.")
conf("C23", "Kempton & Stewart (2006)", ["kempton_stewart_2006.py"])
conf("C24", "Afshari & Stewart (2016)", ["afshari_stewart_2016.py"], "This includes the source, path, regional-basin and site terms of each of the three durations, and the magnitude-dependent standard deviation.")
conf("C25", "Pinilla-Ramos et al. (2023)", ["pinilla_ramos_et_al_2023.py"], "This is the arbitrary-component duration of shallow crustal events for every normalised-intensity level.")
conf("C26", "Pinilla-Ramos et al. (2024)", ["pinilla_ramos_et_al_2024.py"], "This is the duration of interface and intraslab events in each region, and combinations without a published model are refused.")

prop("C27", "Baker-Jayaram correlations form a valid symmetric correlation function",
     "For all pairs of periods the Baker & Jayaram (2008) correlation follows the published piecewise formula, does not depend on the order of the two periods, is exactly one for equal periods, and lies in [0, 1].",
     ["inputs"], "every pair of periods in 0.01-10 s, arrays of any stated size",
     "Two tabulated rows are compared.", ["baker_jayaram_2008.py"], [("calc_correls", "baker_jayaram_2008.py")], ["calc_correls"])
prop("C28", "A conditional mean spectrum honours the values it is conditioned on",
     "A conditional mean spectrum passes exactly through every conditioning value with zero remaining standard deviation, its standard deviation never exceeds the unconditional one, and its shape follows the period-to-period correlations. "
     "Conditioning on a single period through the vector routine gives the single-period result.",
     ["inputs"], "every spectrum, standard deviation vector and conditioning value, every choice of one or two conditioning periods among the stated grids",
     "One smoke test plus one tabulated example per routine.", ["baker_jayaram_2008.py", "kishida_2017.py"],
     [("calc_cond_mean_spectrum", "baker_jayaram_2008.py"), ("calc_cond_mean_spectrum_vector", "kishida_2017.py")], ["calc_cond_mean_spectrum", "calc_cond_mean_spectrum_vector"])
prop("C29", "Bayless-Abrahamson correlations form valid correlation/covariance matrices",
     "For any list of frequencies the Bayless & Abrahamson (2018) matrix is symmetric with unit diagonal and entries in [-1, 1], equals the published table at published frequencies and interpolates it in between, and the covariance is that correlation scaled by the two standard deviations.",
     ["inputs"], "every list of frequencies (stated sizes) in the published range, every vector of standard deviations",
     "The model has no numeric test.", ["bayless_abrahamson_2018.py"], [("calc_correls/calc_cov", "bayless_abrahamson_2018.py")], ["corr", "cov"])
prop("C30", "Stafford inter-frequency covariances are consistent and honour given sigmas",
     "For any frequencies and magnitude the Stafford (2017) components of correlation are symmetric with unit diagonal, the covariance is the sum of its between-event, between-site and within-event parts, its diagonal is the total variance, and standard deviations given by the caller are the ones used.",
     ["inputs", "configurations"], "every list of frequencies (stated sizes), magnitude, and every subset of standard deviations given by the caller",
     "Its test is commented out; nothing is compared.", ["stafford_2017.py"], [("calc_correls/calc_cov", "stafford_2017.py")], ["cov", "cor"])
prop("C31", "Predicted shaking never grows with distance",
     "Moving the site farther away with everything else fixed never increases any predicted median, for the models and ranges whose published form guarantees it: Idriss (2014); Akkar et al. (2014), Boore et al. (2014, outside China and Turkey), and the two BC Hydro subduction models on sites stiff enough that the nonlinear site term vanishes; the three eastern North America hard-rock models outside their 60-140 km Moho-reflection range.",
     ["inputs"], "every pair of scenarios that differ in distance only, within the stated boxes",
     "Tests compare isolated points, never two distances.", ["idriss_2014.py", "akkar_sandikkaya_bommer_2014.py", "campbell_2003.py", "abrahamson_gregor_addo_2016.py"],
     [("distance scaling terms", "idriss_2014.py")], ["spec_accels"])
prop("C32", "Durations and their percentiles are ordered",
     "Wherever the published equations define it, a duration is positive, its deviation is positive, the duration to a higher energy level is never shorter than that to a lower one, and the minus-one-sigma, median and plus-one-sigma durations are in increasing order: for Abrahamson-Silva (1996) and its interpolation, Kempton-Stewart (2006), Afshari-Stewart (2016), Pinilla-Ramos (2023) up to 130 km, and the interface durations of Pinilla-Ramos (2024).",
     ["inputs"], "every scenario within the stated boxes and every pair of energy levels",
     "Tests compare isolated durations.", ["abrahamson_silva_1996.py", "pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py", "kempton_stewart_2006.py"],
     [("duration and sigma computations", "pinilla_ramos_et_al_2023.py")], ["durations"])
prop("C33", "Total variability combines between- and within-event parts in quadrature",
     "Wherever a model exposes or documents between-event and within-event deviations, the total logarithmic standard deviation squared is the sum of their squares, for every scenario, option and period.",
     ["inputs", "configurations"], "every scenario within the stated boxes, every option, every period",
     "Test data contain the total only at a few scenarios and 1 % tolerance.", ["akkar_sandikkaya_bommer_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "abrahamson_gregor_addo_2016.py", "afshari_stewart_2016.py"],
     [("_calc_ln_std", "boore_stewart_seyhan_atkinson_2014.py")], ["ln_stds"])
prop("C34", "Predictions vary continuously across magnitude and velocity hinge points",
     "Where the published equations are continuous, an arbitrarily small change of magnitude or site velocity never makes a predicted median or deviation jump (beyond the rounding of the published coefficients), in particular at the hinge points between piecewise branches. This is stated for magnitude in the Boore et al., Idriss, Akkar et al., Derras et al., eastern North America hard-rock, subduction (up to 1000 m/s), vertical-to-horizontal, conditional-velocity and duration models, and for site velocity in these and in Abrahamson et al. (2014) and Chiou & Youngs (2014).",
     ["inputs"], "every hinge point of every stated model with all remaining inputs arbitrary in their boxes",
     "Tests hardly ever put an input on a hinge.", ["chiou_youngs_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "akkar_sandikkaya_bommer_2014.py"],
     [("piecewise magnitude and site scaling", "boore_stewart_seyhan_atkinson_2014.py")], ["spec_accels"])
prop("C35", "Abrahamson-Bhasin conditional PGV follows its published equations",
     "Given a scenario and a peak ground acceleration or a 1 s spectral acceleration, the conditional peak velocity and its deviation are those of the published conditional model for the given measure; supplying neither, or conditioning on the magnitude-dependent period, is refused.",
     ["inputs", "configurations"], "every scenario and spectral value in the stated boxes, every region",
     "No test constructs it.", ["abrahamson_bhasin_2020.py"], [("constructor and calc functions", "abrahamson_bhasin_2020.py")], ["pgv"])
prop("C36", "The Hermkes et al. model answers at any point of its tabulated space",
     "The Hermkes, Kuehn & Riggelsen (2014) model returns the tabulated median and deviation of the grid point nearest to the scenario.",
     ["inputs"], "every scenario in the tabulated space",
     "The test cannot run: its table is not part of the repository checkout.", ["hermkes_kuehn_riggelsen_2014.py"], [("NearestNDInterpolator lookup", "hermkes_kuehn_riggelsen_2014.py")], ["spec_accels"])
path = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
