"""C16: resolution of sampler requests (specs/Factory*.tla)."""
import random

import lib

STRANGERS = ("name-string", "value-string", "none", "zero", "true", "other-enum", "class", "lower-case", "object")
METHODS = ("SGHMC", "SGLD", "RelativisticSGHMC", "SVGD")


def run():
    check = lib.Check("C16", "model_checking", [
        "the arguments of a construction are read off the first initialiser called on a sampler",
        "every argument is given as one ordinary and, for some, one falsy value"])
    printed, r = lib.enumerate_scenarios("FactoryMC", "FactoryMC.cfg", timeout=800,
                                         constants=dict(MaxFalsy=lib.pick(1, 2), MaxStrange=lib.pick(1, 2)))
    check.count(states=r.distinct, transitions=r.generated, requests_in_specification=len(printed))
    rng = random.Random(lib.SEED)
    want = lib.pick(12000, 120000)
    if len(printed) > want:
        # all requests that give few or nearly all arguments, a sample of the others, half of them to be accepted
        printed.sort(key=lambda p: (min(len(p["given"]), 12 - len(p["given"])), rng.random()))
        first, rest = printed[:want // 4], printed[want // 4:]
        valid, invalid = [p for p in rest if p["valid"]], [p for p in rest if not p["valid"]]
        printed = first + rng.sample(valid, min(len(valid), want // 2)) + rng.sample(invalid, min(len(invalid), want // 4))
    for method in METHODS:
        # whether a request is complete and fitting is left to the specification; those that are refused show nothing
        fitting = [p for p in printed if p["method"] == method and p["valid"] and
                   (method != "RelativisticSGHMC" or "seed" in p["given"])]  # its momentum is drawn at random otherwise
        for p in rng.sample(fitting, min(len(fitting), lib.pick(20, 200))):
            p["full"] = True
    scenarios = [dict(p, what="request") for p in printed]
    scenarios += [dict(what="member", method=m) for m in METHODS + STRANGERS]
    scenarios += [dict(what="request", method=m, given={"params": "given", "cost_fun": "given"}) for m in STRANGERS]
    for i, s in enumerate(scenarios):
        s["id"] = i
        s["none"] = i % 2 == 1  # None is a value that Python regards as false
        s.pop("valid", None)
    traces = lib.run_scenarios("drv_factory", scenarios, jobs=lib.pick(6, 8), timeout=800)
    rejects, r = lib.validate("FactoryTrace", traces, heap="6g", timeout=800)
    check.count(traces_validated_against_impl=len(traces), compared_with_direct_construction=sum(t.get("same") == "yes" for t in traces))
    check.set(samples=traces[:3])
    check.rejects(rejects, traces, None, lambda c, t, e: "{} {}".format(c, t["method"]))
    return check.finish()
