"""C38: the default network (specs/defaultnet.qnt)."""
import random

import dynamics
import lib

number, numbers = dynamics.number, dynamics.numbers
KERNELS, BIASES = (0, 2, 4, 6), (1, 3, 5, 7)


def scenarios(count, steps, seed):
    rng = random.Random(seed)
    for k, states in enumerate(lib.quint("defaultnet.qnt", main="defaultnet", n_traces=count, max_steps=steps, seed=seed,
                                         invariant="inv", timeout=850)):
        replayed = [dict(layers=[dict(p, size=number(p["size"])) for p in s["layers"]], logVar=number(s["logVar"]),
                         x=numbers(s["x"])) for s in states]
        inside = k % 3 == 2
        yield dict(id=k, dims=states[0]["dims"], steps=replayed, inside=inside, float32=k % 4 == 1 and not inside,
                   assign=rng.random() < 0.5, terse=rng.random() < 0.5, seed=rng.choice([0, 1, 17, 12345]),
                   rng=rng.randrange(2 ** 31)), states


def deviations(scenario, states, record):
    for problem in record["problems"]:
        yield "error" if problem.startswith("error") else "output", problem
    if record["problems"]:
        return
    if sorted(map(tuple, record["shapes"])) != sorted(map(tuple, states[0]["shapes"])) and \
            sorted(s for s in map(tuple, record["shapes"]) if len(s) != 2 or s != (1, 1)) != \
            sorted(tuple(s) for s in states[0]["shapes"][:-1]):
        yield "variables", dict(recorded=record["shapes"], expected=states[0]["shapes"])
    rtol = 1e-4 if scenario["float32"] else 1e-9
    if scenario["inside"]:
        if record["networks"] != 2 or not record["finite"] or not all(record["moved"]):
            yield "training", {k: record[k] for k in ("networks", "finite", "moved")}
    else:
        start = record["start"]
        for i in BIASES:
            if not start[i]["zero"]:
                yield "initial bias", dict(layer=i // 2)
        if abs(start[8]["value"] - number(states[0]["logVar"])) > rtol * 10:
            yield "initial log variance", start[8]
        for i in KERNELS:
            # variance one over the number of inputs
            if not 0.3 < start[i]["spread"] < 3. or start[i]["distinct"] < 40:
                yield "initial kernel", dict(layer=i // 2, **start[i])
        if not all(record["seeds"]["again"]) or any(record["seeds"]["other"]):
            yield "seeds", record["seeds"]
        if record["types"] != ["float32" if scenario["float32"] else "float64"]:
            yield "types", record["types"]
    for k, (seen, state) in enumerate(zip(record["steps"], states)):
        mean, log_var = numbers(state["mean"]), number(state["logVar"])
        for rows in seen:
            for i, row in rows:
                if i is not None and not dynamics.close(row[0], mean[i], rtol):
                    yield "mean", dict(step=k, point=i, recorded=row, expected=mean[i])
                    return
                if not dynamics.close(row[1], log_var, rtol):
                    yield "log variance", dict(step=k, point=i, recorded=row, expected=log_var)
                    return


def run():
    check = lib.Check("C38", "model_checking", [
        "the specification computes with 24 decimal digits; compared at relative 1e-9 (float32: 1e-4)",
        "tensorflow.contrib is missing here: its initialiser is a stand-in with the documented distribution",
        "the 5000 weights follow patterns drawn by the specification"])
    chosen = list(scenarios(lib.pick(24, 240), lib.pick(6, 10), lib.SEED))
    records = lib.run_scenarios("drv_defaultnet", [s for s, _ in chosen], jobs=lib.pick(4, 8), timeout=800)
    for (scenario, states), record in zip(chosen, records):
        for what, detail in deviations(scenario, states, record):
            check.violation(what, dict(scenario=scenario, detail=detail), what)
            break
    check.count(traces_validated_against_impl=len(chosen), transitions=sum(len(s["steps"]) for s, _ in chosen))
    check.set(samples=[dict(s, steps=s["steps"][:2]) for s, _ in chosen[:2]])
    return check.finish()
