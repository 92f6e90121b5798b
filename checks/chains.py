"""C29, C30, C31: traces and the extraction of chains (specs/Chains*.tla)."""
import random

import lib

FAULTS = ("chain-ids", "columns", "late", "accepts", "thin-first", "wraps", "projects", "one-graph", "resets", "grows")
ASSUME = ["pymc3 is not installed: MultiTrace and the diagnostics are stand-ins that record what they are given",
          "recorded values are recognised by comparing them bit by bit with every state the sampler went through",
          "the histories replayed are a sample of the specification's, drawn with VERIF_SEED"]
SHAPES = ([], [], [1], [2], [3], [2, 2], [1, 3])
# every check replays histories that contain what it is about
ABOUT = {"C29": ("values", "index", "point", "slice", "make", "length"), "C30": ("extract", "step"), "C31": ("multi",)}


def sampler(rng, params):
    kind = rng.choice(["SGHMC", "SGHMC", "SGLD", "SGLD", "REL", "SVGD"] if len(params) > 1 else ["SGHMC", "SGLD", "REL"])
    shapes = [rng.choice(SHAPES) for _ in params]
    if kind == "SVGD":
        shapes = [[rng.choice([2, 3])]] * len(params)
    return dict(kind=kind, shapes=shapes, params=params, seed=rng.randrange(1, 1000),
                dtype=rng.choice(["float64", "float64", "float32"]),
                burn_in=rng.choice([0, 1, 3, 3000]) if kind in ("SGHMC", "SGLD") else None)


def replay(check, want, prefixes, about):
    rng = random.Random(lib.SEED)
    printed, _ = lib.generate("ChainsMC", "ChainsGen.cfg", num=want * 3, depth=100)
    printed.sort(key=lambda p: -sum(o["op"] in about for o in p["ops"]))
    scenarios = printed[:want]
    for i, s in enumerate(scenarios):
        s.update(id=i, sampler=sampler(rng, s["params"]), shapes=[rng.choice(SHAPES) for _ in range(3)],
                 positional=rng.random() < 0.5)
        for op in s["ops"]:
            if op["op"] == "make":
                op["scalar"] = rng.choice(["float", "float64", "float32"])
    traces = lib.run_scenarios("drv_chains", scenarios, jobs=lib.pick(6, 8), timeout=800)
    rejects, r = lib.validate("ChainsTrace", traces)
    check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                states=r.distinct, transitions=r.generated)
    check.set(samples=traces[:1])
    check.rejects(rejects, traces, prefixes)


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        r = lib.design_check("ChainsMC", constants=dict(MaxOps=lib.pick(3, 4)))
        check.count(states=r.distinct, transitions=r.generated)
        if lib.THOROUGH:
            for fault in FAULTS:
                r = lib.tlc("ChainsMC", constants=dict(MaxOps=3 if fault == "grows" else 2, Fault='"%s"' % fault), expect_ok=False)
                if not r.violated:
                    raise lib.Machinery("the contract accepts the broken design " + fault)
                check.count(rejected_broken_designs=1)
        replay(check, lib.pick(100, 1200), (prop + ".", "ANY."), ABOUT[prop])
        return check.finish()
    return check_fun
