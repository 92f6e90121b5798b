"""C10, C13, C14: samplers next to each other (specs/Coexist*.tla)."""
import json
import random

import lib

FAULTS = ("shared-stream", "ignores-seed", "reinitialises", "initialises-all", "shared-state")
ASSUME = ["values are compared at relative 1e-9",
          "interleavings are drawn from the specification's behaviours with VERIF_SEED",
          "samplers without a seed run with scripted noise; the graph-level random seed is left alone"]


def design(check):
    r = lib.design_check("CoexistMC", constants=dict(MaxOps=lib.pick(5, 7)))
    check.count(states=r.distinct, transitions=r.generated)
    if lib.THOROUGH:
        for fault in FAULTS:
            r = lib.tlc("CoexistMC", constants=dict(MaxOps=6, Fault='"%s"' % fault), expect_ok=False)
            if not r.violated:
                raise lib.Machinery("the contract accepts the broken design " + fault)
            check.count(rejected_broken_designs=1)


def alone(scenario):
    """ The projections of an interleaving to its slots. """
    for k, cfg in enumerate(scenario["cfg"]):
        ops = [dict(op, slot=1) for op in scenario["ops"] if op.get("slot") == k + 1]
        if any(op["op"] == "step" for op in ops):
            yield dict(cfg=[cfg], ops=ops)


def same_tail(scenarios):
    return json.dumps(scenarios, sort_keys=True)


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        design(check)
        rng = random.Random(lib.SEED)
        want = lib.pick(14, 200)
        printed, r = lib.generate("CoexistMC", "CoexistGen.cfg", num=want * 12, depth=lib.pick(24, 36),
                                  constants=dict(MaxOps=lib.pick(22, 34), NSlots=3))
        # interleavings in which all slots get somewhere come first
        printed.sort(key=lambda p: -min(sum(1 for o in p["ops"] if o["op"] == "step" and o["slot"] == k)
                                        for k in (1, 2, 3)))
        many = printed[:want]
        # identical twins: all slots with the same configuration
        for i, p in enumerate(many):
            if i % 4 == 3:
                p["cfg"][1] = dict(p["cfg"][0])
                p["cfg"][2] = dict(p["cfg"][0], seed=p["cfg"][0]["seed"] % 4 + 1) if p["cfg"][0]["seed"] else dict(p["cfg"][0])
        single = {}
        for p in many:
            for a in alone(p):
                single.setdefault(same_tail(a), a)
        # every kind with every seed
        for kind in ("SGHMC", "SGLD", "REL", "SVGD"):
            for seed in (1, 2, 3, 4):
                a = dict(cfg=[dict(kind=kind, seed=seed, problem=1, graph=1)],
                         ops=[dict(op=o, slot=1) for o in ("build", "ready", "step", "step", "step")])
                single.setdefault(same_tail(a), a)
        # every state the targets can be in when a sampler is constructed
        if prop == "C14":
            printed, r = lib.enumerate_scenarios("CoexistMC", "CoexistConstructions.cfg",
                                                 constants=dict(MaxOps=lib.pick(4, 5)))
            check.count(states=r.distinct, transitions=r.generated, constructions=len(printed))
            for p in printed:
                single.setdefault(same_tail(p), p)
        singles = [dict(a) for a in single.values()]
        again = [json.loads(json.dumps(a)) for a in singles]
        for a in again:
            # the second time with unrelated uses of random generators in between
            for j in range(len(a["ops"]), -1, -1):
                if rng.random() < 0.4:
                    a["ops"].insert(j, dict(op="unrelated", what=rng.choice(
                        ["numpy", "reseed", "python", "tf-op", "tf-run", "other-graph", "cost"])))
        scenarios = singles + again + many
        for i, s in enumerate(scenarios):
            s["id"], s["rng"] = i, rng.randrange(10 ** 6)
        traces = lib.run_scenarios("drv_coexist", scenarios, jobs=lib.pick(6, 8), timeout=800)
        names = lib.Names()
        initial = {}
        for trace in traces:
            for key, groups in trace["initial"].items():
                initial[key] = [names(g) for g in groups]
        for trace in traces:
            # the contract's `problem` is a number: kinds with other targets get problems of their own
            for cfg in trace["cfg"]:
                key = "{} {}".format(cfg["kind"], cfg["problem"])
                cfg["problem"] = sorted(initial).index(key) + 1
            for e in trace["events"]:
                e["obs"]["t"] = [[names(g) for g in groups] for groups in e["obs"]["t"]]
                e["obs"]["out"] = names(e["obs"].get("out"))
            trace["initial"] = [initial[k] for k in sorted(initial)]
        rejects, r = lib.validate("CoexistTrace", traces, heap="6g", timeout=800)
        check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                    states=r.distinct, transitions=r.generated)
        check.set(samples=[dict(cfg=traces[-1]["cfg"], ops=[e["op"] for e in traces[-1]["events"]])])
        check.rejects(rejects, traces, (prop + ".", "ANY."), lambda c, t, e: "{} {}".format(
            c, t["cfg"][t["events"][e - 1]["op"].get("slot", 1) - 1]["kind"]))
        if prop == "C14":
            import dynamics
            dynamics.assignments(check)
        return check.finish()
    return check_fun
