"""C11: injected noise (specs/Freshness*.tla)."""
import random

import lib
import moments


def run():
    check = lib.Check("C11", "model_checking", [
        "on a flat cost the noise can be computed from the displacement by the update rule of C06-C08",
        "statistical clauses use Hoeffding bounds with error probability 1e-10 each"])
    r = lib.design_check("FreshnessMC", constants=dict(MaxSteps=lib.pick(4, 8)))
    check.count(states=r.distinct, transitions=r.generated)
    for fault in ("same-stream", "broadcast", "frozen"):
        r = lib.tlc("FreshnessMC", constants=dict(Fault='"%s"' % fault), expect_ok=False)
        if not r.violated:
            raise lib.Machinery("the specification accepts the broken design " + fault)
        check.count(rejected_broken_designs=1)
    rng = random.Random(lib.SEED)
    scenarios = []
    for i in range(lib.pick(27, 81)):
        scenarios.append(dict(
            id=i, kind=("SGHMC", "SGLD", "REL")[i % 3], layout=(i // 3) % 9, steps=lib.pick(250, 1500),
            seeds=[[1, 2], [None, None], [7, None]][rng.randrange(3)] if i >= 6 else [[0, 1], [None, None]][i // 3],
            constants=dict(eps=rng.choice([0.3, 0.5, 0.8]), scale=rng.choice([1., 4.]), mdecay=rng.choice([0.05, 0.4, 0.9]),
                           A=rng.choice([1., 2.5]), mass=rng.choice([1., 2.]), c=60., D=rng.choice([1., 2.]),
                           B=rng.choice([0., 0.5]))))
        k = scenarios[-1]["constants"]
        k["mdecay"] = max(k["mdecay"], 0.6 * k["eps"] ** 2 / k["scale"] + 0.01)
    traces = lib.run_scenarios("drv_noise", scenarios, jobs=lib.pick(6, 8), timeout=800)
    rejects, r = lib.validate("FreshnessTrace", traces, heap="4g")
    for s, t in zip(scenarios, traces):
        t["cfg"] = s
    check.count(traces_validated_against_impl=len(traces),
                draws=sum(len(t["draws"]) * len(t["draws"][0]) for t in traces))
    check.set(samples=scenarios[:2])
    # scale and independence more sharply: many elements on flat targets
    moments.compare(check, lib.pick(15, 120), lib.pick(8, 30), 40000, "flat")
    for t in traces:
        t["draws"] = t["draws"][:3]
    check.rejects(rejects, traces, None, lambda c, t, e: "{} {}".format(c, t["cfg"]["kind"]))
    return check.finish()
