"""Conformance of ground-motion models to their reference equations (C10 ... C21)."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import calculus
from engine import check as K
from engine import sym as S
from engine import ops as O
from checks import models, correl, framework, generic, accessors, derived, ordered


def job(ctx, case):
    {None: K.conform, "slopes": calculus.slopes, "jumps": calculus.jumps}[case["job"]](ctx, case)
    if case.get("known"):
        same = [v for v in ctx.R.violations if v["label"] == case["label"] and case["known"]["same"](v)]
        ctx.R.violations = [v for v in ctx.R.violations if not any(v is w for w in same)]
        ctx.R.known += [dict(id=case["known"]["id"]) for _ in same]


def main(prop):
    t0 = time.time()
    cases = []
    for spec in models.SPECS:
        if spec["prop"] == prop:
            cases += models.cases_of(spec, K.TIER)
    R = K.run_jobs(cases, job)
    specs = [s for s in models.SPECS if s["prop"] == prop]
    K.finish(prop, R, t0, "model_checking",
             bounds=dict(boxes={s["name"]: s["num"] for s in specs}, discrete={s["name"]: models.discrete_note(s, K.TIER) for s in specs},
                         tolerance=specs[0].get("tol", 1e-6), periods="all tabulated"),
             assumptions=models.ASSUME + [a for s in specs for a in s.get("notes", [])],
             technique_note="the model class is executed symbolically from source on every feasible path; per path z3 decides that no input in the box "
                            "makes any output differ from the reference equations by more than the tolerance")


if __name__ == "__main__":
    main(sys.argv[1])
