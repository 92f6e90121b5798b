"""C37: samplers validate their configuration at construction (specs/Construction*.tla)."""
import random

import lib

FAULTS = ("any-source", "any-burn-in", "any-seed", "functions-only", "resets", "default-session", "draws")
ASSUME = ["one representative per kind of argument value; requests with up to two unusual arguments",
          "values are compared exactly, costs at relative 1e-9 (float32: 1e-4)"]
COMMON = ["cost", "source", "seed", "session", "dtype", "schedule"]
OWN = dict(SGHMC=["burnIn"], SGLD=["burnIn"], SVGD=["alpha", "fudge"], REL=["mass", "speed"])
USUAL = dict(cost="function", source="object", seed="seven", session="default", dtype="float64", schedule="object",
             burnIn="five", alpha="half", fudge="half", mass="unit", speed="unit")


def run():
    check = lib.Check("C37", "model_checking", ASSUME)
    r = lib.design_check("ConstructionMC")
    check.count(states=r.distinct, transitions=r.generated)
    if lib.THOROUGH:
        for fault in FAULTS:
            r = lib.tlc("ConstructionMC", constants=dict(Fault='"%s"' % fault), expect_ok=False)
            if not r.violated:
                raise lib.Machinery("the contract accepts the broken constructors " + fault)
            check.count(rejected_broken_designs=1)
    rng = random.Random(lib.SEED)
    printed, r = lib.enumerate_scenarios("ConstructionMC", "ConstructionGen.cfg")
    # everything with one unusual argument, a sample of the others
    pairs = [p for p in printed if p["unusual"] > 1]
    chosen = [p for p in printed if p["unusual"] <= 1]
    if not lib.THOROUGH:
        pairs, chosen = rng.sample(pairs, 500), [p for p in chosen if p["before"] != "initialised" or rng.random() < 0.3]
    chosen += pairs
    rng.shuffle(chosen)
    for i, p in enumerate(chosen):
        p.update(id=i, rng=rng.randrange(2 ** 31), arguments=COMMON + OWN[p["kind"]], usual=USUAL)
    traces = lib.run_scenarios("drv_construction", chosen, jobs=lib.pick(7, 8), timeout=800)
    rejects, r = lib.validate("ConstructionTrace", traces)
    check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                states=r.distinct, transitions=r.generated)
    check.set(samples=traces[:2])
    check.rejects(rejects, traces, ("C37.", "ANY."))
    return check.finish()
