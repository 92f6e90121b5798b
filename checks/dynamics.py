"""C06-C09 and the dynamics side of C04, C12, C14, C15: Quint behaviours replayed into real samplers."""
import math
import random

import lib

S = 10 ** 24


def number(x):
    """ Fixed-point integers of the specification as doubles. """
    try:
        return x / S
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def numbers(value):
    if isinstance(value, list):
        return [numbers(v) for v in value]
    return number(value)


def action(state):
    a = state["act"]
    return dict(tag=a["tag"], eps=number(a["eps"]), z=numbers(a["z"]), w=numbers(a["w"]), b=number(a["b"]),
                x=number(a["x"]), dest=numbers(a["dest"]))


def langevin_scenarios(main, n, steps, seed, max_steps=None):
    traces = lib.quint("langevin.qnt", main=main, n_traces=n, max_steps=steps, seed=seed, invariant="inv")
    rng = random.Random(seed)
    scenarios = []
    for i, states in enumerate(traces):
        first, cfg = states[0], dict(states[0]["cfg"])
        for name in ("a", "k", "mdecay", "scale", "A", "D", "B", "mass", "c"):
            cfg[name] = number(cfg[name])
        cfg["kinetic"] = numbers(cfg["kinetic"])
        expected = [dict(theta=numbers(s["theta"]), cost=number(s["cost"]), tag=s["act"]["tag"])
                    for s in states[1:]]
        float32 = rng.random() < 0.12 and cfg["loud"] <= 1
        actions = [action(s) for s in states[1:]]
        if float32:
            actions, expected = actions[:5], expected[:5]
        scenarios.append(dict(
            id=i, what="langevin", cfg=cfg, theta=numbers(first["theta"]), mom=numbers(first["mom"]),
            layout=cfg["layout"], actions=actions, expected=expected, float32=float32,
            terse=rng.random() < 0.5, explicit_session=rng.random() < 0.8,
            seed=rng.choice([None, 1, 17])))
    return scenarios


def svgd_scenarios(n, steps, seed, permute=True, main="swarm"):
    traces = lib.quint("svgd.qnt", main=main, n_traces=n, max_steps=steps, seed=seed, invariant="inv")
    rng = random.Random(seed)
    scenarios = []
    for states in traces:
        first, cfg = states[0], dict(states[0]["cfg"])
        for name in ("a", "alpha", "fudge"):
            cfg[name] = number(cfg[name])
        cfg["kind"] = "SVGD"
        orders = [list(range(cfg["n"]))]
        if permute:
            # permuting the particles only permutes the results
            orders.append(rng.sample(orders[0], cfg["n"]))
        for order in orders:
            def p(vectors):
                return [vectors[i] for i in order] if vectors else vectors
            actions = []
            for s in states[1:]:
                a = s["act"]
                actions.append(dict(tag=a["tag"], eps=number(a["eps"]), w=numbers(a["w"]), b=number(a["b"]),
                                    x=number(a["x"]), dest=p(numbers(a["dest"]))))
            expected = [dict(theta=p(numbers(s["theta"])), cost=p(numbers(s["cost"])), tag=s["act"]["tag"])
                        for s in states[1:]]
            scenarios.append(dict(
                id="svgd{}".format(len(scenarios)), what="svgd", cfg=cfg, dims=[cfg["d"]], order=order,
                theta=p(numbers(first["theta"])), actions=actions, expected=expected, float32=False,
                terse=rng.random() < 0.5, seed=rng.choice([None, 4])))
    return scenarios


def close(a, b, rtol, unit=1.):
    if isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rtol, unit) for x, y in zip(a, b))
    return math.isfinite(a) and abs(a - b) <= rtol * (unit + abs(b))


def peak(values):
    if isinstance(values, list):
        return max([peak(v) for v in values] or [0.])
    return abs(values)


def deviations(scenario, record):
    """ Deviations of the recorded run from the specified behaviour, in order: (index, what, detail). """
    rtol = 3e-4 if scenario["float32"] else 2e-10
    found = [(0, p["what"], p) for p in record["problems"] if p["what"].startswith("error")]
    if found:
        return found
    steps = iter(enumerate(record["steps"]))
    shape_problems = {}
    for p in record["problems"]:
        shape_problems.setdefault(p["step"], p["what"])
    # rounding errors are relative to the largest numbers on the way
    unit, cost_unit = 1., 1.
    steep = scenario["cfg"].get("loud", 1) > 1
    for i, e in enumerate(scenario["expected"]):
        if steep:
            unit = max(unit, peak(e["theta"]))
            cost_unit = max(cost_unit, peak(e["cost"]), unit * max(unit, peak(scenario["actions"][i]["w"])))
        if e["tag"] != "step":
            continue
        k, r = next(steps)
        detail = dict(step=k, expected=e, recorded=r)
        if k in shape_problems:
            found.append((i, shape_problems[k], detail))
        if not close(r["sample"], e["theta"], rtol, unit):
            found.append((i, "sample", detail))
        elif not close(r["theta"], e["theta"], rtol, unit):
            found.append((i, "parameters", detail))
        if not close(flat(r["cost"]), flat(e["cost"]), rtol, cost_unit):
            found.append((i, "cost", detail))
        if found:
            break
    return found


def flat(x):
    return x if isinstance(x, list) else [x]


def public(scenario):
    return {k: v for k, v in scenario.items() if k != "expected"}


def replay(check, scenarios, want=None, shapes=True, jobs=None):
    """ Replay and report deviations; `want(scenario, index, what)` selects those of this property. """
    records = lib.run_scenarios("drv_dynamics", scenarios, jobs=jobs or lib.pick(4, 8), timeout=lib.pick(600, 850))
    bad = set()
    for s, r in zip(scenarios, records):
        for index, what, detail in deviations(s, r):
            bad.add(s["id"])
            if want is None or want(s, index, what):
                check.violation(what, dict(scenario=public(s), layout=r["layout"], **detail),
                                "{} {}".format(s["cfg"].get("kind", "SVGD"), what))
                break
    check.count(traces_validated_against_impl=len(scenarios),
                transitions=sum(len(s["expected"]) for s in scenarios))
    if "samples" not in check.coverage and scenarios:
        check.set(samples=[dict(cfg=s["cfg"], actions=s["actions"][:2]) for s in scenarios[:2]])
    return records, bad


def first(scenario, trigger):
    """ Index of the first action that fulfils `trigger`. """
    return next((i for i, a in enumerate(scenario["actions"]) if trigger(a)), 10 ** 9)


def compare_variants(check, scenarios, variants, expected_from=None):
    """ Replay variants (lists of scenarios that must behave like their base); a variant that deviates
        from the specification earlier than its base does violates the property. """
    everything, groups = [], []
    for base, others in zip(scenarios, variants):
        group = [base] + others
        for s in group:
            s["id"] = len(everything)
            everything.append(s)
        groups.append(group)
    records = lib.run_scenarios("drv_dynamics", everything, jobs=lib.pick(4, 8), timeout=lib.pick(600, 850))
    for group in groups:
        base = deviations(group[0], records[group[0]["id"]])
        limit = base[0][0] if base else 10 ** 9
        for s in group[1:]:
            for index, what, detail in deviations(s, records[s["id"]]):
                if index < limit:
                    check.violation(what, dict(scenario=public(s), layout=records[s["id"]]["layout"], **detail),
                                    "{} {}".format(s["cfg"]["kind"], what))
                    break
    check.count(traces_validated_against_impl=len(everything),
                transitions=sum(len(s["expected"]) for s in everything))
    check.set(samples=[dict(cfg=s["cfg"], actions=s["actions"][:2]) for s in everything[:2]])
    return records


def shaped(prop):
    """ C12: the same behaviour with the elements grouped and shaped differently. """
    check = lib.Check(prop, "model_checking", ASSUME)
    scenarios = langevin_scenarios("all3", lib.pick(30, 250), 8, lib.SEED)
    rng = random.Random(lib.SEED)
    variants = []
    for s in scenarios:
        s["layout"], s["float32"] = 0, s["float32"]
        others = rng.sample(range(1, N_LAYOUTS), lib.pick(3, 6))
        variants.append([dict(s, layout=i) for i in others])
    # many elements, in one parameter and in many
    for s in langevin_scenarios("wideAll3", lib.pick(8, 60), 6, lib.SEED):
        s["layout"] = 1
        scenarios.append(s)
        variants.append([dict(s, layout=i) for i in [0] + rng.sample(range(2, WIDE_LAYOUTS), lib.pick(2, 5))])
    compare_variants(check, scenarios, variants)
    return check.finish()


N_LAYOUTS, WIDE_LAYOUTS = 14, 11


def stepsizes(check):
    """ C04: from the first varying stepsize on, and for any initial value of the schedule. """
    scenarios = langevin_scenarios("all3", lib.pick(30, 500), 10, lib.SEED)
    scenarios += svgd_scenarios(lib.pick(12, 150), 8, lib.SEED, permute=False)
    variants = []
    for s in scenarios:
        s["initial_stepsize"] = 0.25
        # an action that uses the canonical stepsize only is the base
        start = first(s, lambda a: a["tag"] == "step" and a["eps"] != 0.25)
        plain = dict(s, actions=s["actions"][:start], expected=s["expected"][:start])
        variants.append([dict(s), dict(s, initial_stepsize=0.5)])
        s.update(plain)
    compare_variants(check, scenarios, variants)


def triggered(check, scenarios, trigger):
    """ Deviations count from the first action on that fulfils `trigger`. """
    starts = {s["id"]: first(s, trigger) for s in scenarios}
    replay(check, scenarios, want=lambda s, index, what: what.startswith("error") or index >= starts[s["id"]])


def number_all(scenarios):
    for i, s in enumerate(scenarios):
        s["id"] = i
    return scenarios


def feeds(check):
    """ C15: every step with and after a feed of the caller. """
    scenarios = number_all(langevin_scenarios("all3", lib.pick(30, 500), 12, lib.SEED + 1)
                           + svgd_scenarios(lib.pick(10, 150), 8, lib.SEED + 1, permute=False))
    triggered(check, scenarios, lambda a: a["tag"] == "step" and a["x"] != 0)


def assignments(check):
    """ C14: every step after somebody assigned the parameters. """
    scenarios = number_all(langevin_scenarios("all3", lib.pick(30, 500), 12, lib.SEED + 2)
                           + svgd_scenarios(lib.pick(10, 150), 8, lib.SEED + 2, permute=False))
    triggered(check, scenarios, lambda a: a["tag"] == "assign")


ASSUME = ["the specification computes with 24 decimal digits; real results are compared at relative 2e-10 (float32: 3e-4)",
          "noise is scripted by feeding the graph's RandomStandardNormal operations"]


def assorted(kind, count):
    """ Behaviours of the usual size, some with many elements, and some long ones. """
    return number_all(langevin_scenarios("only" + kind, lib.pick(count, count * 15), 14, lib.SEED)
                      + langevin_scenarios("wide" + kind, lib.pick(8, 100), 8, lib.SEED)
                      + langevin_scenarios("long" + kind, lib.pick(8, 60), lib.pick(110, 400), lib.SEED))


def simple(prop, kind, count):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        scenarios = assorted(kind, count)
        replay(check, scenarios)
        return check.finish()
    return check_fun


def momentum_distribution(check, scenarios, records):
    """ What the sampler asks the external rejection sampler for. """
    for s, r in zip(scenarios, records):
        if s["cfg"]["kind"] != "REL" or not r["steps"]:
            continue
        expected = [k - s["cfg"]["kinetic"][0] for k in s["cfg"]["kinetic"]]
        if sum(call["n"] for call in r["momenta"]) != len(s["theta"]):
            check.violation("number of initial momenta", dict(scenario=public(s), calls=r["momenta"]), "REL momenta")
        for call in r["momenta"]:
            got = call["logpdf"]
            if got is None or not close([-(g - got[0]) for g in got], expected, 1e-9):
                check.violation("density of initial momenta",
                                dict(scenario=public(s), call=call, kinetic_energy=expected), "REL momentum density")
            if call["domain"] != ["-inf", "inf"]:
                check.violation("domain of initial momenta", dict(scenario=public(s), call=call), "REL momentum domain")


def relativistic():
    check = lib.Check("C08", "model_checking", ASSUME + [
        "the external package arspy draws from the density it is given (checked by distribution for two parameter sets)"])
    scenarios = assorted("REL", 48)
    records, _ = replay(check, scenarios)
    momentum_distribution(check, scenarios, records)
    # the momenta a sampler really starts with follow the specified distribution
    cdfs = lib.quint("relmomentum.qnt", n_traces=lib.pick(3, 8), max_steps=1, seed=lib.SEED)
    jobs, n = [], lib.pick(300, 1000)
    for i, states in enumerate(cdfs):
        s = states[0]
        jobs.append(dict(id=i, what="momenta", n=n, sizes=[n // 2, n - n // 2], mass=number(s["mass"]), c=number(s["c"]),
                         seed=[None, 3, 11, 5][i % 4], cdf=numbers(s["cdf"]), at=numbers(s["at"])))
    results = lib.run_scenarios("drv_dynamics", jobs, jobs=4)
    for job, r in zip(jobs, results):
        if r.get("problems"):
            check.violation("initial momenta", dict(scenario=job, problems=r["problems"]), "REL momenta")
            continue
        # Dvoretzky-Kiefer-Wolfowitz bound with error probability 1e-9
        bound = math.sqrt(math.log(2 / 1e-9) / (2 * n))
        for at, expected in zip(job["at"], job["cdf"]):
            got = sum(1 for p in r["momenta"] if p <= at) / n
            if abs(got - expected) > bound:
                check.violation("distribution of initial momenta",
                                dict(scenario={k: v for k, v in job.items() if k != "what"}, at=at, expected=expected,
                                     fraction=got, bound=bound), "REL momentum distribution")
                break
    check.count(momentum_samples=n * len(jobs))
    return check.finish()


def svgd():
    check = lib.Check("C09", "model_checking", ASSUME[:1] + [
        "particles are pairwise distinct (with coinciding particles the bandwidth may be zero)"])
    scenarios = number_all(svgd_scenarios(lib.pick(32, 450), 10, lib.SEED)
                           + svgd_scenarios(lib.pick(4, 40), lib.pick(3, 6), lib.SEED, main="bigswarm")
                           + svgd_scenarios(lib.pick(4, 40), lib.pick(60, 150), lib.SEED, main="longswarm"))
    replay(check, scenarios)
    return check.finish()


sghmc = simple("C06", "SGHMC", 56)
sgld = simple("C07", "SGLD", 56)


def constant_schedules(check):
    histories, r = lib.enumerate_scenarios("Schedules", "Schedules.cfg", constants=dict(MaxOps=lib.pick(3, 4)))
    check.count(states=r.distinct, transitions=r.generated)
    result, = lib.run_scenarios("drv_pure", [dict(id=0, what="schedule", histories=histories)])
    if "error" in result:
        check.violation("constant schedule fails", result)
        return
    for h, r in zip(histories, result["results"]):
        if r["out"] != [e["out"] for e in h["hist"]] or r["initial"] != h["init"]:
            check.violation("constant schedule", dict(scenario=h, recorded=r), "constant schedule")
    check.count(traces_validated_against_impl=len(histories))
