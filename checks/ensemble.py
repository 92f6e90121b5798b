"""C20, C21, C23, C25: the life of a Bayesian neural network (specs/Ensemble*.tla)."""
import json
import random

import lib
import network

FAULTS = ("runs-on", "live", "reversed", "keeps-old", "early", "predicts-untrained", "assigns-variables", "aliased",
          "swallows", "trained-too-early", "reuses-buffer", "shares", "grows", "grows-in-training")
ASSUME = ["weights are compared at relative 1e-9, predictions at 1e-7 (float32: 1e-4)",
          "networks are small custom ones, because the default network needs tensorflow.contrib",
          "configurations and lives are drawn from the specification's with VERIF_SEED; the graph-level random seed is left alone"]


def design(check):
    r = lib.design_check("EnsembleMC", "EnsembleSchedules.cfg", constants=dict(MaxIters=lib.pick(7, 10)))
    check.count(states=r.distinct, transitions=r.generated, schedules=r.distinct)
    r = lib.design_check("EnsembleMC", constants=dict(MaxOps=lib.pick(3, 4)))
    check.count(states=r.distinct, transitions=r.generated)
    if lib.THOROUGH:
        for fault in FAULTS:
            r = lib.tlc("EnsembleMC", constants=dict(Fault='"%s"' % fault), expect_ok=False)
            if not r.violated:
                raise lib.Machinery("the contract accepts the broken design " + fault)
            check.count(rejected_broken_designs=1)


def variant(rng, **given):
    v = dict(method=rng.choice(["SGHMC", "SGLD"]), net=rng.choice(["affine", "single", "tanh", "vectors"]),
             dtype="float32" if rng.random() < 0.2 else "float64", shuffled=rng.random() < 0.3,
             batch=rng.choice([3, 5, 12, 20]), n=rng.choice([9, 12]), stepsize=rng.choice([0.01, 0.05]),
             normalizeInput=rng.random() < 0.7, normalizeOutput=rng.random() < 0.7)
    v.update(given)
    return v


def op(name, **kwargs):
    return dict(kwargs, op=name)


def lives(rng, count):
    """ Lives of the specification, as different from each other as possible; half of them train again. """
    printed, _ = lib.generate("EnsembleMC", "EnsembleGen.cfg", num=count * 12, depth=14)
    by_prefix, asks = {}, {}
    for p in printed:
        trains = [i for i, o in enumerate(p["ops"]) if o["op"] == "train"]
        useful = sum(o["op"].startswith("predict") and any(t < i for t in trains) for i, o in enumerate(p["ops"]))
        fails = [i for i, o in enumerate(p["ops"]) if o["op"] == "train-fails"]
        if any(o["op"] in ("predict", "predict-individual") for o in p["ops"][:min(trains, default=99)][min(fails, default=99):]):
            asks.setdefault(p["ops"][fails[0]]["at"], []).append(p)
        if trains:
            again = len(trains) > 1
            key = json.dumps([p["cfg"], p["ops"][:6] if again else p["ops"][:-1]], sort_keys=True)
            by_prefix.setdefault((again, key), []).append((useful, p))
    result = []
    for again in (True, False):
        # one life for every prefix; those that predict often first
        best = sorted((max(group, key=lambda e: e[0]) for (kind, _), group in sorted(by_prefix.items()) if kind == again),
                      key=lambda e: -e[0])
        best = [p for _, p in best[:count]]
        result += rng.sample(best, min(count // 2, len(best)))
    # lives that ask for predictions after the first training failed
    for at, group in sorted(asks.items()):
        result += rng.sample(group, min(len(group), count // 13))
    rng.shuffle(result)
    return result


def schedules(rng, count):
    printed, _ = lib.enumerate_scenarios("EnsembleMC", "EnsembleSchedulesGen.cfg",
                                         constants=dict(MaxIters=lib.pick(7, 9)))
    return rng.sample(printed, min(count, len(printed)))


def collects(c):
    return any(i > c["burnIn"] and i % c["interval"] == 0 for i in range(c["iters"]))


def scenarios(rng, check):
    result = []

    def add(cfg, ops, v, seed, steps=1):
        result.append(dict(id=len(result), what="life", cfg=cfg, ops=ops, variant=v, seed=seed, steps=steps,
                           rng=rng.randrange(10 ** 6)))
    for i, p in enumerate(lives(rng, lib.pick(26, 300))):
        v = variant(rng, net=["affine", "single", "tanh", "vectors"][i % 4])
        first, second = rng.sample(["1", "2", "35", "0", "100000", "4294967295"], 2)
        if i % 5 == 4:
            first = second = "none"
        # neighbours run in different processes
        for seed in (first, first, second):
            add(p["cfg"], p["ops"], v, seed, p["steps"])
    # refusals do not depend on the settings
    for x in (False, True):
        for y in (False, True):
            add(dict(iters=6, burnIn=2, interval=1, nets=2),
                [op("predict", test="q"), op("predict-individual", test="p"), op("predict-shape", shape="one"),
                 op("train", data="a")] + [op("predict-shape", shape=s) for s in ("one", "three", "zero")],
                variant(rng, normalizeInput=x, normalizeOutput=y), "1")
    for cfg in schedules(rng, lib.pick(70, 900)):
        ops = [op("train", data="a")]
        if collects(cfg):
            ops += [op("predict-individual", test="q"), op("step"), op("predict", test="q")]
        add(cfg, ops, variant(rng, n=9), rng.choice(["none", "1"]))
    # long burn-ins, long intervals, large ensembles
    for burn_in, interval, more, nets in ((513, 1, 30, 3), (545, 9, 30, 3), (0, 25, 60, 3), (3, 1, 160, 130), (1030, 5, 1, 3)):
        if burn_in < 600 or lib.THOROUGH:
            add(dict(iters=burn_in + more + 3, burnIn=burn_in, interval=interval, nets=nets),
                [op("train", data="b"), op("predict", test="q")] if burn_in < 1030 else [op("train", data="b")],
                variant(rng), "1")
    return result


def constructions(rng, check, first_id):
    printed, r = lib.enumerate_scenarios("EnsembleMC", "EnsembleConstructions.cfg")
    check.count(states=r.distinct, transitions=r.generated)
    return [dict(id=first_id + i, what="construct", request=p) for i, p in enumerate(printed)]


def tokens(traces):
    names = {}
    for t in traces:
        if t["what"] != "life":
            continue
        single = t["variant"]["dtype"] == "float32"
        weights = names.setdefault(("weights", single), lib.Names())
        outputs = names.setdefault(("outputs", single), lib.Names(*((1e-4, 1e-1) if single else (1e-7, 1e-3))))
        for e in t["events"]:
            o = e["obs"]
            for key in ("states", "ensemble"):
                if key in o:
                    o[key] = [weights(s) for s in o[key]]
            o["vars"] = weights(o["vars"])
            for key in ("out", "apart"):
                if key in o:
                    o[key] = outputs(o[key])
            if e.get("error") is None:
                e.pop("error", None)
        t["variant"] = json.dumps(t["variant"], sort_keys=True)


def replay(check, chosen, prefixes):
    for i, s in enumerate(chosen):
        s["id"] = i
    traces = lib.run_scenarios("drv_bnn", chosen, jobs=lib.pick(7, 8), timeout=800)
    tokens(traces)
    rejects, r = lib.validate("EnsembleTrace", traces, heap="6g", timeout=800)
    check.count(traces_validated_against_impl=len(traces),
                trace_events=sum(len(t.get("events", [1])) for t in traces), states=r.distinct, transitions=r.generated)
    check.set(samples=[t for t in traces if t["what"] == "life"][:1])
    check.rejects(rejects, traces, prefixes)


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        design(check)
        rng = random.Random(lib.SEED)
        chosen = []
        if prop == "C25":
            chosen = constructions(rng, check, 0)
            chosen = [c for c in chosen if lib.THOROUGH or rng.random() < 0.5]
        for s in scenarios(rng, check):
            chosen.append(dict(s, id=len(chosen)))
        replay(check, chosen, (prop + ".", "ANY."))
        if prop == "C21":
            network.replay(check, network.predictions, lib.pick(40, 400))
        return check.finish()
    return check_fun
