"""C01, C02, C03, C04, C15: the step protocol (specs/SamplerProtocol*.tla)."""
import random

import lib

FAULTS = ("cost-after-update", "drops-feed", "stale-batch", "boundary", "adapts-forever", "never-adapts",
          "counts-failures", "no-update", "two-stepsizes", "stale-sample", "reuses-buffer", "shares-state", "grows",
          "merges-feed")


def design(check):
    """ The idealised sampler satisfies the contract for all callers up to the bound. """
    r = lib.design_check("SamplerProtocolMC", constants=dict(MaxOps=lib.pick(4, 6)))
    check.count(states=r.distinct, transitions=r.generated)
    if lib.THOROUGH:
        for fault in FAULTS:
            r = lib.tlc("SamplerProtocolMC", constants=dict(MaxOps=5, Fault='"%s"' % fault), expect_ok=False)
            if not r.violated:
                raise lib.Machinery("the contract accepts the broken sampler " + fault)
            check.count(rejected_broken_designs=1)


def scenarios(check, num, depth, select=None):
    """ Caller histories from the specification, spread evenly over the sampler kinds. """
    rng = random.Random(lib.SEED)
    printed, r = lib.generate("SamplerProtocolMC", "SamplerProtocolGen.cfg", num=num * 6, depth=depth + 2,
                              constants=dict(MaxOps=depth))
    if select:
        printed = [p for p in printed if select(p)]
    chosen, per_kind = [], {}
    for p in printed:
        kind = p["cfg"]["kind"]
        if per_kind.get(kind, 0) < max(1, num // 4):
            per_kind[kind] = per_kind.get(kind, 0) + 1
            chosen.append(p)
    for i, p in enumerate(chosen):
        p["id"] = i
        p["layout"] = i // 4
        p["rng"] = rng.randrange(2 ** 31)
        p["optional"] = (i // 4) % 3 == 0
        p["curvature"] = [0.1, 0.0][(i // 4) % 2] if p["cfg"]["kind"] != "SVGD" else 0.3
    return chosen


def long_lives(check, num, depth, burn):
    """ Long caller histories with long burn-in phases. """
    rng = random.Random(lib.SEED + 1)
    printed = []
    for longest in (burn, 2):
        printed += lib.generate("SamplerProtocolMC", "SamplerProtocolGen.cfg", num=num * 6, depth=depth + 2,
                                constants=dict(MaxOps=depth, MaxBurnIn=longest, MaxFailures=6))[0]
    chosen = []
    for kind in ("SGHMC", "SGLD", "REL", "SVGD"):
        # with a minibatch source, so that there is something to adapt to for as long as the burn-in lasts
        of_kind = [p for p in printed if p["cfg"]["kind"] == kind and (p["cfg"]["batches"] or kind in ("REL", "SVGD"))]
        # the longest burn-in and others
        of_kind.sort(key=lambda p: -p["cfg"]["burnIn"])
        chosen += (of_kind[:1] + of_kind[len(of_kind) // 2:])[:max(1, num // 4)]
    for p in chosen:
        p.update(layout=rng.randrange(40), rng=rng.randrange(2 ** 31), optional=rng.random() < 0.3,
                 curvature=0.3 if p["cfg"]["kind"] == "SVGD" else 0.1)
    for kind in ("SGHMC", "SGLD", "REL"):
        # as many parameters as there are in any layout
        [p for p in chosen if p["cfg"]["kind"] == kind][-1]["layout"] = 7
    return chosen


def key(clause, trace, event):
    if trace.get("alias"):
        return "{} {} cost=parameter".format(clause, trace["cfg"]["kind"])
    return "{} {} burnIn={}".format(clause, trace["cfg"]["kind"], trace["cfg"]["burnIn"])


def aliases(chosen):
    """ Some of the histories once more, for a cost function that returns its (scalar) parameter itself. """
    again = []
    for kind in ("SGHMC", "SGLD", "REL"):
        for p in [p for p in chosen if p["cfg"]["kind"] == kind and not p["cfg"]["batches"]][:4]:
            again.append(dict(p, alias=True, layout=0, id=len(chosen) + len(again), ops=[
                dict(op, feed=0) if "feed" in op else op for op in p["ops"] if op.get("fail", "none") == "none"]))
    return again


def replay(check, chosen, prefixes):
    traces = lib.run_scenarios("drv_protocol", chosen, jobs=lib.pick(4, 8), timeout=lib.pick(500, 800))
    rejects, r = lib.validate("SamplerProtocolTrace", traces)
    check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                states=r.distinct, transitions=r.generated)
    if traces and "samples" not in check.coverage:
        check.set(samples=[dict(cfg=traces[0]["cfg"], events=traces[0]["events"][:3])])
    check.rejects(rejects, traces, prefixes, key)
    return traces


ASSUME = ["values are compared up to rounding (relative 1e-9 for costs, 1e-12 for parameters)",
          "caller histories are drawn from the specification's behaviours with VERIF_SEED; not every history is replayed"]


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        design(check)
        chosen = scenarios(check, lib.pick(64, 1200), lib.pick(9, 12))
        chosen += long_lives(check, lib.pick(8, 24), lib.pick(400, 1000), lib.pick(270, 700))
        if prop == "C02":
            chosen += aliases(chosen)
        for i, p in enumerate(chosen):
            p["id"] = i
        replay(check, chosen, (prop + ".", "ANY."))
        return check.finish()
    return check_fun


def stepsizes():
    import dynamics
    check = lib.Check("C04", "model_checking", ASSUME + dynamics.ASSUME)
    design(check)
    chosen = scenarios(check, lib.pick(32, 800), lib.pick(9, 12))
    replay(check, chosen, ("C04.", "ANY."))
    dynamics.stepsizes(check)
    dynamics.constant_schedules(check)
    return check.finish()


def feeds():
    import dynamics
    check = lib.Check("C15", "model_checking", ASSUME + dynamics.ASSUME)
    design(check)
    chosen = scenarios(check, lib.pick(40, 1000), lib.pick(9, 12))
    replay(check, chosen, ("C15.", "ANY."))
    dynamics.feeds(check)
    return check.finish()


def results(prop):
    """ C35, C36: results handed out belong to the caller, running leaves the graph as it was built. """
    def check_fun():
        import chains
        import ensemble
        check = lib.Check(prop, "model_checking", ASSUME + ensemble.ASSUME)
        design(check)
        ensemble.design(check)
        chosen = scenarios(check, lib.pick(64, 1200), lib.pick(9, 12))
        chosen += long_lives(check, lib.pick(4, 24), lib.pick(150, 1000), lib.pick(90, 700))
        for i, p in enumerate(chosen):
            p["id"] = i
        replay(check, chosen, (prop + ".", "ANY."))
        ensemble.replay(check, ensemble.scenarios(random.Random(lib.SEED), check), (prop + ".", "ANY."))
        if prop == "C36":
            chains.replay(check, lib.pick(40, 600), (prop + ".", "ANY."), ("extract",))
        return check.finish()
    return check_fun
