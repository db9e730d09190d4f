"""Write MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GMM = ["C%02d" % i for i in range(10, 31)] + ["C35"]
NOTE = ("For every input in the stated box (all reals, all listed option combinations) the real source, executed symbolically path by path, is compared by the "
        "solver with reference equations written from the publication; a difference above the tolerance is a counterexample, replayed on the real package. "
        "Trusts: the engine and its numpy stand-ins (one point per path is cross-checked against the real package), real arithmetic instead of floats, the pinned coefficient tables.")
CHECKS = {p: ("python3-vt checks/gmm.py %s" % p, "symbolic execution of the real source per path + z3 (nonlinear canonicalisation, ties, case split, branch and prune)", NOTE) for p in GMM}
FRAME = "The real framework code (%s) is executed symbolically on every path (symbolic numbers, symbolic text for keys and options); the solver decides that no input in the stated boxes violates the claims; counterexamples are replayed on the real package. Trusts: the engine and its stand-ins (one point per path is cross-checked against the real package), real arithmetic."
EXTRA = {
    "C01": ("Scenario construction, derivation, copies and lookup, with arbitrary key text and values", "symbolic execution of Scenario with a symbolic key (selector over key texts) and symbolic values + z3"),
    "C02": ("parameter checks of all numeric inputs of all models, every value in a wide range", "symbolic execution of every model's numeric parameter checks, warnings recorded per path + z3"),
    "C03": ("parameter checks of all categorical inputs of all models, arbitrary text", "symbolic execution of every model's categorical parameter checks with symbolic text + z3"),
    "C04": ("two scenarios of a model evaluated in both orders, fresh and again, coefficient tables and the caller's inputs compared", "symbolic execution of histories of two models (self-composition) + z3"),
    "C05": ("a model, its effective scenario, and a second model built from it", "symbolic execution of construct, read back, feed back (self-composition) + z3"),
    "C06": ("a model with and without symbolic values of every key it does not document", "symbolic execution of two runs that differ in undocumented keys (non-interference) + z3"),
    "C07": ("accessors of every ground-motion model and of a user-defined subclass with symbolic responses", "symbolic execution of the accessors against a pinned table and reference values + z3"),
    "C08": ("interpolation of every ground-motion model and of a user-defined subclass with symbolic responses and a symbolic period", "symbolic execution of the interpolation, one path per segment, against the log-linear reference + z3"),
    "C33": ("the standard deviation of every model that publishes parts, its parts where exposed", "symbolic execution of the real deviations against the quadrature of the published parts + z3"),
    "C31": ("the medians of the distance-decaying models", "symbolic execution, symbolic derivative of every output by distance per path, z3 decides its sign; one-sided limits where a path changes"),
    "C32": ("the durations of five duration models at 18 energy levels and the -1/0/+1 deviations", "symbolic execution of the durations + z3 on the order of every pair"),
    "C34": ("every closed-form model evaluated on both sides of an infinitesimal step of magnitude or velocity", "symbolic execution of two runs an infinitesimal apart, limit per combination of crossed branch conditions, z3 decides the jump"),
}
for _p, (_w, _t) in EXTRA.items():
    CHECKS[_p] = ("python3-vt checks/gmm.py %s" % _p, _t, FRAME % _w)
NA = {"C09": "Domain obligations of every logarithm, root and quotient over the full documented boxes were prototyped: the solver left the models with nonlinear site terms (NGA-West2, subduction, BA19, AS16, AS96 rock) undecided within its budget, so nothing is claimed.",
      "C36": "HKR14: the Gaussian-process data file is a Git LFS pointer in this checkout, so the class cannot even be imported with data; there is nothing to execute or encode."}


def main():
    props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl") if l.strip()]
    na = dict(NA)
    for p in props:
        if p not in CHECKS and p not in na:
            na[p] = "check not built yet"
    m = dict(version=1, setup_cmd="python3-vt -c \"import z3, sys; sys.path.insert(0, '.'); import engine.check\"",
             checks=[dict(property=p, quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c, technique=t, level="model_checking", level_note=n) for p, (c, t, n) in sorted(CHECKS.items())],
             not_applicable=[dict(property=p, reason=r) for p, r in sorted(na.items())])
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
