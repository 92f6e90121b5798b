"""C39: the law of chains (specs/moments.qnt)."""
import math
import random

import dynamics
import lib

number = dynamics.number
SIGMAS = 6.5
QUANTILES = (-2, -1, -0.5, 0, 0.5, 1, 2)
ASSUME = ["elements of a chain are compared with the specified law at 6.5 standard errors (error probability 1e-10 each)",
          "relativistic chains at a speed of light of 300, where the dynamics are linear up to 1%"]


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.))


def scenarios(count, steps, elements, seed, main="quadratic"):
    rng = random.Random(seed)
    for k, states in enumerate(lib.quint("moments.qnt", main=main, n_traces=count, max_steps=steps, seed=seed, invariant="inv")):
        cfg = {name: v if name in ("kind", "burnIn") else number(v) for name, v in states[0]["cfg"].items()}
        laws = [dict(mean=number(s["law"]["mt"]), var=number(s["law"]["vt"]), lag=number(s["lag"]), eps=number(s["eps"]))
                for s in states]
        for law in laws:
            law["sd"] = math.sqrt(max(law["var"], 0.))
        yield dict(id=k, cfg=cfg, start=laws[0]["mean"], states=laws[1:], elements=elements, group=k % 4, light=300.,
                   float32=rng.random() < 0.2 and min(law["sd"] for law in laws[1:]) > 1e-2, seed=rng.choice([None, 0, 1, 17, 2 ** 20])), laws[0]


def deviations(scenario, first, record):
    if "error" in record:
        yield "error", record["error"]
        return
    n, before = scenario["elements"], first
    slack = 0.01 if scenario["cfg"]["kind"] == "REL" else 1e-3 if scenario["float32"] else 1e-6
    far = 0.
    for k, (law, row) in enumerate(zip(scenario["states"], record["rows"])):
        sd, var = law["sd"], law["var"]
        far = max(far, abs(law["mean"] - first["mean"]), abs(law["mean"]) if scenario["float32"] else 0.)

        def off(what, recorded, expected, tolerance):
            if not abs(recorded - expected) <= tolerance + 1e-12 * (1. + var):
                return what, dict(step=k, recorded=recorded, expected=expected, tolerance=tolerance)
        found = [off("mean", row["mean"], law["mean"], SIGMAS * sd / math.sqrt(n) + slack * far),
                 off("variance", row["var"], var, var * (SIGMAS * math.sqrt(2. / n) + slack)),
                 off("covariance of successive states", row["lag"], law["lag"],
                     (SIGMAS / math.sqrt(n) + slack) * math.sqrt(var * before["var"] + law["lag"] ** 2))]
        found += [off("covariance of elements", v, 0., SIGMAS * var / math.sqrt(n - 2)) for v in row["near"]]
        found.append(off("covariance of elements", row["halves"], 0., SIGMAS * var / math.sqrt(n // 2)))
        if slack * far < 0.01 * sd:
            found += [off("distribution", v, phi(q), SIGMAS * math.sqrt(phi(q) * phi(-q) / n) + 0.5 * (slack + slack * far / sd))
                      for q, v in zip(QUANTILES, row["below"])]
        before = law
        for f in found:
            if f:
                yield f
                return


def compare(check, count, steps, elements, main="quadratic"):
    chosen = list(scenarios(count, steps, elements, lib.SEED, main))
    records = lib.run_scenarios("drv_moments", [s for s, _ in chosen], jobs=lib.pick(4, 8), timeout=800)
    for (scenario, first), record in zip(chosen, records):
        for what, detail in deviations(scenario, first, record):
            check.violation(what, dict(scenario=dict(scenario, states=scenario["states"][:3]), detail=detail),
                            "{} {}".format(scenario["cfg"]["kind"], what))
            break
    check.count(traces_validated_against_impl=len(chosen), transitions=sum(len(s["states"]) for s, _ in chosen))
    check.set(chains=[dict(s, states=s["states"][:2]) for s, _ in chosen[:2]])


def run():
    check = lib.Check("C39", "model_checking", ASSUME)
    compare(check, lib.pick(60, 400), lib.pick(14, 40), lib.pick(40000, 60000))
    return check.finish()
