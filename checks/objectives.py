"""C34: the objective functions (specs/objectives.qnt)."""
import random

import dynamics
import lib

number, numbers = dynamics.number, dynamics.numbers
# functions of plain arithmetic, and the mixtures, take variables as well
ON_VARIABLES = ("banana", "rosenbrock", "camelback", "goldstein_price", "gmm1", "gmm2", "gmm3", "mixture")
LIKELIHOODS = ("banana", "gmm1", "gmm2", "gmm3", "mixture")


def run():
    check = lib.Check("C34", "model_checking", [
        "the specification computes with 24 decimal digits; compared at 1e-9 (variables of type float32: 1e-4)",
        "the points are a sample of each function's customary domain, its optima and their vicinity included"])
    traces = lib.quint("objectives.qnt", main="objectives", n_traces=lib.pick(1200, 12000), max_steps=1, seed=lib.SEED,
                       invariant="inv", timeout=850)
    rng = random.Random(lib.SEED)
    cases = []
    for states in traces:
        q = states[0]["case"]
        mixture = q["f"].startswith("gmm") or q["f"] == "mixture"
        forms = ["list", "tuple", "array"] + (["bare"] if mixture else []) + \
            (["variables"] * 3 if q["f"] in ON_VARIABLES else [])
        cases.append(dict(f=q["f"], x=numbers(q["x"]), form=rng.choice(forms), dtype=rng.choice(["float64", "float32"]),
                          mu=numbers(q["mix"]["mu"]), var=numbers(q["mix"]["variance"]), weights=numbers(q["mix"]["weights"]),
                          negative=q["f"] in LIKELIHOODS and rng.random() < 0.4, by_position=rng.random() < 0.7))
    parts = [dict(id=i, cases=cases[i::4]) for i in range(4)]
    results = [None] * len(cases)
    for i, record in enumerate(lib.run_scenarios("drv_objectives", parts, jobs=4, timeout=800)):
        results[i::4] = record["results"]
    for case, states, got in zip(cases, traces, results):
        want = number(states[0]["case"]["value"]) * (-1 if case["negative"] else 1)
        rtol = 1e-4 if case["form"] == "variables" and case["dtype"] == "float32" else 1e-9
        ok = "error" not in got and got["named"] and len(got["value"]) == (2 if case["f"] == "sinc" else 1) and all(
            abs(float(v) - want) <= rtol * (1. + abs(want)) for v in got["value"])
        if not ok:
            what = "{}({})".format(case["f"], case["form"] + (" of " + case["dtype"] if case["form"] == "variables" else ""))
            check.violation(what, dict(case=case, recorded=got, expected=want), what)
    check.count(traces_validated_against_impl=len(cases))
    check.set(samples=cases[:2], functions={f: sum(c["f"] == f for c in cases) for f in sorted({c["f"] for c in cases})})
    return check.finish()
