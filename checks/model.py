"""C32: the data of models (specs/Model*.tla)."""
import random

import lib

FAULTS = ("prepends", "replaces", "accepts", "counts", "stores-refused", "maximum", "last")
ASSUME = ["models are minimal subclasses of BaseModel (BayesianNeuralNetwork is none)",
          "rows are recognised exactly; labels tie often, and any best point will do as the incumbent",
          "the histories replayed are a sample of the specification's, drawn with VERIF_SEED"]


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        r = lib.design_check("ModelMC", constants=dict(MaxOps=lib.pick(3, 4)))
        check.count(states=r.distinct, transitions=r.generated)
        if lib.THOROUGH:
            for fault in FAULTS:
                r = lib.tlc("ModelMC", constants=dict(MaxOps=3, Fault='"%s"' % fault), expect_ok=False)
                if not r.violated:
                    raise lib.Machinery("the contract accepts the broken design " + fault)
                check.count(rejected_broken_designs=1)
        rng = random.Random(lib.SEED)
        scenarios, _ = lib.generate("ModelMC", "ModelGen.cfg", num=lib.pick(120, 1500), depth=150)
        for i, s in enumerate(scenarios):
            s.update(id=i, kind=rng.choice(["references", "copies"]), positional=rng.random() < 0.6,
                     labels=rng.choice(["plain", "halves", "halves", "close", "steep", "huge"]))
            # the types of the arrays handed over, where they can hold the numbers
            types = rng.choice([["float64"], ["float32"], ["float32", "float64"], ["int64", "float64"],
                                ["int32", "float32", "float64"]])
            s["dtypes"] = [rng.choice(types) for _ in s["ops"]]
        traces = lib.run_scenarios("drv_model", scenarios, jobs=lib.pick(6, 8), timeout=800)
        rejects, r = lib.validate("ModelTrace", traces)
        check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                    states=r.distinct, transitions=r.generated)
        check.set(samples=traces[:1])
        check.rejects(rejects, traces, (prop + ".", "ANY."))
        return check.finish()
    return check_fun
