"""C26, C33: variables, vectorised copies and initialisation (specs/Variables*.tla)."""
import random

import lib

FAULTS = ("aliased", "initial-value", "drops-copies", "sorted", "flat", "accepts")
ASSUME = ["element k of content c has the value 1000 c + k, so that contents are recognised exactly",
          "the histories replayed are a sample of the specification's, drawn with VERIF_SEED"]


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", ASSUME)
        r = lib.design_check("VariablesMC", constants=dict(MaxOps=lib.pick(6, 8)))
        check.count(states=r.distinct, transitions=r.generated)
        if lib.THOROUGH:
            for fault in FAULTS:
                r = lib.tlc("VariablesMC", constants=dict(MaxOps=5, Fault='"%s"' % fault), expect_ok=False)
                if not r.violated:
                    raise lib.Machinery("the contract accepts the broken design " + fault)
                check.count(rejected_broken_designs=1)
        rng = random.Random(lib.SEED)
        want = lib.pick(110, 1500)
        printed, _ = lib.generate("VariablesMC", "VariablesGen.cfg", num=want * lib.pick(14, 6), depth=20)
        printed.sort(key=lambda p: (-len({o["op"] for o in p["ops"]} & {"restore", "vectorize", "query"}), -len({(o["op"], o.get("of")) for o in p["ops"]})))
        # every shape the specification knows is used about equally often
        by_shape = {}
        for p in printed:
            by_shape.setdefault(tuple(p["shape"]), []).append(p)
        scenarios = []
        while len(scenarios) < want and any(by_shape.values()):
            for shape in sorted(by_shape):
                if by_shape[shape] and len(scenarios) < want:
                    scenarios.append(by_shape[shape].pop(0))
        crowds, _ = lib.generate("VariablesMC", "VariablesCrowd.cfg", num=lib.pick(8, 60), depth=60)
        scenarios += crowds
        for i, s in enumerate(scenarios):
            s.update(id=i, dtype=rng.choice(["float64", "float64", "float32", "int32", "int64"]))
        traces = lib.run_scenarios("drv_variables", scenarios, jobs=lib.pick(6, 8), timeout=800)
        rejects, r = lib.validate("VariablesTrace", traces)
        check.count(traces_validated_against_impl=len(traces), trace_events=sum(len(t["events"]) for t in traces),
                    states=r.distinct, transitions=r.generated, shapes=len(by_shape))
        check.set(samples=traces[:1])
        check.rejects(rejects, traces, (prop + ".", "ANY."))
        return check.finish()
    return check_fun
