"""C22, C24 and the numeric side of C21: experiments of specs/bnn.qnt with real Bayesian neural networks."""
import math
import random

import dynamics
import lib

ASSUME = ["the specification computes with 24 decimal digits; chains are compared at relative 1e-7, objectives at 1e-8",
          "noise and minibatches are scripted; the network is a custom one with five weights, because the default network "
          "needs tensorflow.contrib"]
number, numbers = dynamics.number, dynamics.numbers


def move(m, v):
    return m["times"] * v + m["by"]


def scenarios(count, seed):
    """ (scenario, what the specification expects) """
    traces = lib.quint("bnn.qnt", main="bnn", n_traces=count, max_steps=16, seed=seed, invariant="inv")
    rng = random.Random(seed)
    result = []
    for states in traces:
        cfg = dict(states[0]["cfg"])
        move_x, move_y, data = cfg.pop("moveX"), cfg.pop("moveY"), cfg.pop("data")
        moves = [{k: number(v) for k, v in m.items()} for m in move_x]
        move_y = {k: number(v) for k, v in move_y.items()}
        x, y, tests = numbers(data["x"]), numbers(data["y"]), numbers(cfg.pop("tests"))
        # trained before with other data, which leaves no trace
        cfg["warm"] = (0, 0, 0, 1, 3)[len(result) % 5]
        cfg.update(mdecay=number(cfg["mdecay"]), A=number(cfg["A"]))
        steps = [s for s in states[1:] if s["act"]["tag"] == "step"]
        last = states[-1]
        if last["act"]["tag"] != "predict":
            raise lib.Machinery("an experiment without predictions")
        actions = [dict(eps=number(s["act"]["eps"]), z=numbers(s["act"]["z"]), rows=s["act"]["rows"]) for s in steps]
        scenario = dict(
            id=len(result), what="numeric", cfg=cfg, theta=numbers(states[0]["theta"]), actions=actions,
            base=dict(x=x, y=y, tests=tests),
            moved=dict(x=[[move(m, v) for m, v in zip(moves, row)] for row in x], y=[move(move_y, v) for v in y],
                       tests=[[move(m, v) for m, v in zip(moves, row)] for row in tests]),
            seed=rng.choice([None, 1, 17]), moveY=move_y)
        expected = dict(
            states=[scenario["theta"]] + [numbers(s["theta"]) for s in steps], costs=[number(s["cost"]) for s in steps],
            ensemble=numbers(last["ensemble"]), report=[number(last["report"][k]) for k in ("nll", "mse")],
            x=numbers(last["seen"]["x"]), y=numbers(last["seen"]["y"]))
        for key, name in (("base", "pred"), ("moved", "movedPred")):
            p = {k: numbers(v) for k, v in last[name].items()}
            expected[key] = dict(first=[p["mean"], p["variance"]], nets=[p["nets"], p["noise"]])
        result.append((scenario, expected))
    return result


def close(a, b, rtol):
    """ Numbers or nested lists of numbers; `b` is the expected one. """
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(close(x, y, rtol) for x, y in zip(a, b))
    return not isinstance(a, list) and math.isfinite(a) and abs(a - b) <= rtol * (1. + abs(b))


def same(a, b, tolerance):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y, tolerance) for x, y in zip(a, b))
    return not isinstance(a, list) and math.isfinite(a) and abs(a - b) <= tolerance


def spread(lists):
    """ Magnitude of nested lists, for tolerances of what is computed from them. """
    if isinstance(lists, list):
        return max([spread(v) for v in lists] or [0.])
    return abs(lists) if abs(lists) < HUGE else 0.


# beyond that the specification's exponentials are rough
HUGE = 1e100


def near(a, b, unit, rtol=1e-6):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(near(x, y, unit, rtol) for x, y in zip(a, b))
    if not isinstance(a, list) and abs(b) > HUGE:
        return a * math.copysign(1., b) > HUGE / 1e20
    return not isinstance(a, list) and math.isfinite(a) and abs(a - b) <= rtol * (unit + abs(b))


def replay(check, what, count=None):
    chosen = scenarios(count or lib.pick(60, 600), lib.SEED)
    records = lib.run_scenarios("drv_bnn", [s for s, _ in chosen], jobs=lib.pick(6, 8), timeout=800)
    for (scenario, expected), record in zip(chosen, records):
        what(check, scenario, expected, record)
    check.count(traces_validated_against_impl=len(chosen), transitions=sum(len(s["actions"]) for s, _ in chosen))
    check.set(samples=[dict(cfg=s["cfg"], base=s["base"], actions=s["actions"][:2]) for s, _ in chosen[:2]])


def failed(check, scenario, record):
    for key in ("base", "moved"):
        if "error" in record[key]:
            check.violation("experiment fails", dict(scenario=scenario, failure=record[key]), "experiment fails")
            return True
    return False


def objective(check, scenario, expected, record):
    """ C24 """
    if failed(check, scenario, record):
        return
    r = record["base"]
    for i, cost in enumerate(expected["costs"]):
        # costs and states are those of the specification up to the first deviation
        if i < len(r["costs"]) and not close(r["costs"][i], cost, 1e-8):
            check.violation("objective", dict(scenario=scenario, step=i, expected=cost, recorded=r["costs"][i]), "objective")
            return
        if i + 1 < len(r["states"]) and not close(r["states"][i + 1], expected["states"][i + 1], 1e-7):
            check.violation("gradient or its scale", dict(
                scenario=scenario, step=i, expected=expected["states"][i + 1], recorded=r["states"][i + 1]), "step")
            return
    if len(r["states"]) == len(expected["states"]):
        if not close(r["report"][0], expected["report"][0], 1e-6):
            check.violation("objective on all data", dict(scenario=scenario, expected=expected["report"],
                                                          recorded=r["report"]), "objective on all data")
        if not close(r["report"][1], expected["report"][1], 1e-6):
            check.violation("mean squared error", dict(scenario=scenario, expected=expected["report"],
                                                       recorded=r["report"]), "mean squared error")


def equivariance(check, scenario, expected, record):
    """ C22 """
    if failed(check, scenario, record):
        return
    if not (record["base"]["kept"] and record["moved"]["kept"]):
        check.violation("the caller's data is changed", dict(scenario=scenario), "data kept")
        return
    far = max(1., spread(scenario["base"]["x"]), spread(scenario["base"]["y"]))
    for key in ("base", "moved"):
        r = record[key]
        moved = 100 if key == "moved" else 1
        for column in ("x", "y"):
            if not close(r[column], expected[column], 1e-12 * far * moved):
                check.violation("data seen in training", dict(
                    scenario=scenario, which=key, column=column, expected=expected[column], recorded=r[column]), "data " + column)
                return
    # the same ensemble in other units
    base, moved = record["base"], record["moved"]
    if not close(moved["ensemble"], base["ensemble"], 1e-6):
        check.violation("ensemble of moved data", dict(scenario=scenario, expected=base["ensemble"],
                                                       recorded=moved["ensemble"]), "moved ensemble")
        return
    m = scenario["moveY"]
    for key in ("first", "nets", "again"):
        mean, variance = base[key]
        want = [deep(lambda v: m["times"] * v + m["by"], mean), deep(lambda v: m["times"] ** 2 * v, variance)]
        for part, unit in ((0, m["times"] * spread(mean) + abs(m["by"])),
                           (1, m["times"] ** 2 * (spread(variance) + 1e-6 * spread(mean) ** 2))):
            if not near(moved[key][part], want[part], unit):
                check.violation("predictions for moved data", dict(
                    scenario=scenario, key=key, expected=want, recorded=moved[key]), "moved predictions")
                return
    compare_predictions(check, scenario, expected, record)


def deep(f, v):
    return [deep(f, x) for x in v] if isinstance(v, list) else f(v)


def compare_predictions(check, scenario, expected, record):
    """ Predictions of the specified ensembles, in either units. """
    for key in ("base", "moved"):
        r, e = record[key], expected[key]
        if not close(r["ensemble"], expected["ensemble"], 1e-7):
            continue
        for which in ("first", "nets", "again"):
            want = e["nets" if which == "nets" else "first"]
            unit = (max(1., spread(want[0])), max(1e-6, spread(want[1]), 1e-7 * spread(e["nets"][0])))
            for part in (0, 1):
                if not near(r[which][part], want[part], unit[part]):
                    check.violation("predictions", dict(scenario=scenario, data=key, which=which, expected=want,
                                                        recorded=r[which]), "predictions")
                    return


def predictions(check, scenario, expected, record):
    """ C21 """
    if not failed(check, scenario, record):
        compare_predictions(check, scenario, expected, record)


def shaped(rng, n):
    """ Random shapes with n elements altogether. """
    shapes = []
    while n:
        k = rng.randint(1, n)
        options = [(k,), (1, k), (k, 1)] + ([()] if k == 1 else []) + ([(2, k // 2)] if k % 2 == 0 else [])
        shapes.append(list(rng.choice(options)))
        n -= k
    return shapes


def prior_values(check):
    traces = lib.quint("priors.qnt", main="arguments", n_traces=lib.pick(150, 1500), max_steps=1, seed=lib.SEED,
                       invariant="inv")
    rng = random.Random(lib.SEED)
    cases, expected = [], []
    for states in traces:
        q = states[0]["case"]
        case = dict(rows=numbers(q["rows"]), weights=numbers(q["weights"]), shapes=shaped(rng, len(q["weights"])),
                    wdecay=number(q["wdecay"]), mean=number(q["mean"]), variance=number(q["variance"]), terse=False,
                    dtype="float32" if rng.random() < 0.15 else "float64")
        cases.append(case)
        expected.append([number(q["logVarValue"]), number(q["weightValue"])])
    jobs = [dict(id=i, what="priors", cases=cases[i::4]) for i in range(4)]
    for i, record in enumerate(lib.run_scenarios("drv_bnn", jobs, jobs=4)):
        for case, want, got in zip(cases[i::4], expected[i::4], record["results"]):
            rtol = 1e-4 if case["dtype"] == "float32" else 1e-9
            for name, k in (("log variance prior", 0), ("weight prior", 1)):
                if isinstance(got, str) or not close(got[k], want[k], rtol):
                    check.violation(name, dict(case=case, expected=want, recorded=got), name)
                    break
    check.count(prior_cases=len(cases))


def normalisation_helpers(check):
    traces = lib.quint("normalisation.qnt", main="columns", n_traces=lib.pick(400, 4000), max_steps=1, seed=lib.SEED,
                       invariant="inv")
    rng = random.Random(lib.SEED)
    cases = [states[0]["case"] for states in traces]
    by_size = {}
    for case in cases:
        by_size.setdefault((len(case["data"]), len(case["other"])), []).append(case)
    groups, members = [], []
    for size in sorted(by_size):
        rest = by_size[size]
        while rest:
            k = rng.randint(1, 3)
            part, rest = rest[:k], rest[k:]
            vector = len(part) == 1 and rng.random() < 0.6
            def of(key):
                return numbers(part[0][key]) if vector else [numbers(c[key]) for c in part]
            groups.append(dict(vector=vector, data=of("data"), other=of("other")))
            members.append(part)
    record, = lib.run_scenarios("drv_bnn", [dict(id=0, what="columns", groups=groups)])
    for group, part, result in zip(groups, members, record["results"]):
        if "error" in result or not result["kept"]:
            check.violation("normalisation fails or changes its arguments", dict(group=group, recorded=result), "normalisation")
            continue
        for i, case in enumerate(part):
            data = numbers(case["data"])
            for key in ("own", "given", "ownRange", "givenRange"):
                e = case[key]
                want = [numbers(e["values"]), number(e["first"]), number(e["second"]), numbers(e["back"])]
                got = result[key] if group["vector"] else [part[i] for part in result[key]]
                # rounding errors are relative to the magnitude of the data and of the statistics
                size = max(spread(data), spread(numbers(case["other"])) if key.startswith("given") else 0., 1e-300)
                width = number(e["second"]) - (number(e["first"]) if key.endswith("Range") else 0.)
                far = 1e-13 * max(1., size / width) * max(1., spread(want[0]))
                units = (1., size, max(width, size), size)
                if not all(same(g, w, 1e-12 * unit if k else far)
                           for k, (g, w, unit) in enumerate(zip(got, want, units))):
                    check.violation("normalisation " + key, dict(group=group, column=i, expected=want, recorded=got),
                                    "normalisation " + key)
                    break
    check.count(normalisation_cases=len(cases))


def c22():
    check = lib.Check("C22", "model_checking", ASSUME)
    replay(check, equivariance)
    normalisation_helpers(check)
    return check.finish()


def c24():
    check = lib.Check("C24", "model_checking", ASSUME)
    replay(check, objective)
    prior_values(check)
    return check.finish()
