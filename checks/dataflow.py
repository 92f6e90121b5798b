"""C05: a step's result does not depend on the executor's scheduling (specs/Dataflow.tla)."""
import json
import random

import lib

COSTS = ("quadratic", "coupled", "products", "direct")


def cases(n):
    rng = random.Random(lib.SEED)
    result = []
    for i in range(n):
        kind = ("SGHMC", "SGLD", "REL", "SVGD")[i % 4]
        burn = rng.choice([1, 2, 4]) if kind in ("SGHMC", "SGLD") else 1
        # alternately in burn-in and after it
        steps = [burn - 1, burn, burn + 2, 0][(i // 4) % 4]
        result.append(dict(id=i, kind=kind, layout=rng.randrange(6) if i >= 8 else 3 + i // 4, cost=COSTS[(i // 4) % 4],
                           burnIn=burn, steps=steps, rng=rng.randrange(2 ** 31), seed=rng.choice([None, 5])))
    return result


def run():
    check = lib.Check("C05", "model_checking", [
        "the executor may run operations in any order that data and control edges permit, one at a time",
        "operations are atomic (TensorFlow's element-wise kernels are not interrupted by assignments on one thread)",
        "grappler rewrites preserve the order of accesses to reference variables"])
    scenarios = cases(lib.pick(24, 96))
    extracted = lib.run_scenarios("drv_dataflow", scenarios, dict(what="extract"), jobs=lib.pick(4, 8))
    problems, owner = [], {}
    for s, e in zip(scenarios, extracted):
        if "error" in e:
            check.violation("a step fails", dict(scenario=s, error=e), "error")
            continue
        for p in e["problems"]:
            p["id"] = len(problems)
            owner[p["id"]] = (s, e)
            problems.append(p)
    if not problems:
        if check.violations:
            return check.finish()
        raise lib.Machinery("no variable accesses extracted")
    path = lib.temp("problems.json")
    with open(path, "w") as f:
        json.dump([dict(id=p["id"], nodes=p["nodes"]) for p in problems], f)
    r = lib.tlc("Dataflow", "Dataflow.cfg", env=dict(PROBLEMS=path), workers=4, heap="4g", timeout=800)
    check.count(states=r.distinct, transitions=r.generated, variables_explored=len(problems),
                operations=sum(e.get("ops", 0) for e in extracted))
    races, seen = {}, set()
    for printed in r.printed:
        key = (printed["problem"], printed["late"], printed["early"])
        if key not in seen:
            seen.add(key)
            races.setdefault(owner[printed["problem"]][0]["id"], []).append(key)
    # schedules of whole steps, for replay in the real executor
    full = [dict(id=e["id"], nodes=e["schedule"]["nodes"]) for e in extracted if "schedule" in e]
    with open(path, "w") as f:
        json.dump(full, f)
    depth = max(len(f["nodes"]) for f in full) + 3
    per_case = lib.pick(3, 8)
    printed, r = lib.generate("Dataflow", "DataflowGen.cfg", num=len(full) * per_case * 3, depth=depth, timeout=800,
                              env=dict(PROBLEMS=path))
    orders = {}
    for item in printed:
        orders.setdefault(item["problem"], []).append(item["order"])
    jobs, meaning = [], []
    for s, e in zip(scenarios, extracted):
        if "error" in e:
            continue
        names = e["schedule"]["names"]
        groups, labels = [], []
        groups.append([[]] + [[names[n - 1] for n in order] for order in orders.get(s["id"], [])[:per_case]])
        labels.append(None)
        for problem, late, early in races.get(s["id"], [])[:40]:
            p = problems[problem]
            pair = [p["names"][late - 1], p["names"][early - 1]]
            groups.append([pair, pair[::-1]])
            labels.append(dict(variable=p["variable"], reader=pair[0], writer=pair[1]))
        jobs.append(dict(s, orders=groups))
        meaning.append(labels)
    results = lib.run_scenarios("drv_dataflow", jobs, dict(what="replay"), jobs=lib.pick(4, 8), timeout=800)
    replayed = benign = 0
    for s, labels, result in zip(jobs, meaning, results):
        scenario = {k: v for k, v in s.items() if k != "orders"}
        if "error" in result:
            raise lib.Machinery("replay of a schedule failed: {}".format(result))
        for label, group, orders_ in zip(labels, result["groups"], s["orders"]):
            replayed += group["n"]
            if group["differences"]:
                check.violation("the result of a step depends on the schedule" if label is None
                                else "race on {variable} between {reader} and {writer}".format(**label),
                                dict(scenario=scenario, race=label, differences=group["differences"],
                                     orders=orders_ if label else "see scenario"),
                                "{} {}".format(s["kind"], "race" if label else "schedule"))
            elif label is not None:
                benign += 1
    check.count(traces_validated_against_impl=replayed, benign_races=benign,
                races=sum(len(v) for v in races.values()))
    check.set(samples=[dict(variable=problems[0]["variable"], accessors=problems[0]["names"],
                            order=problems[0]["nodes"])])
    return check.finish()
