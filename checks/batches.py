"""C17, C18, C19: minibatch streams (specs/Batches*.tla)."""
import random

import lib

FAULTS = ("shared-generator", "global-generator", "beyond-the-end", "shuffles-points-only", "in-place")


def scenarios(check):
    rng = random.Random(lib.SEED)
    printed, r = lib.generate("BatchesMC", "BatchesGen.cfg", num=lib.pick(40, 400), depth=lib.pick(36, 64),
                              constants=dict(MaxOps=lib.pick(30, 55)))
    out = []
    for i, p in enumerate(printed[:lib.pick(40, 400)]):
        n = (2, 3, 5, 6, 9, 17, 1, 30)[i % 8]
        size = {"one": 1, "two": 2, "some": max(1, n // 2), "most": max(1, n - 1), "all": n, "more": n + 3}
        base = rng.choice([0, 1, 77])
        seeds = {"none": "none", "1": str(base), "3": str(2 ** 32 - 1 - rng.randrange(3)),
                 "2": str(base + rng.choice([1, 1000, 1024, 65536, 10 ** 5, 2 ** 20, 2 ** 31, rng.randrange(1, 2 ** 31)]))}
        cfg = [dict(b=size[c["size"]], shuffled=c["shuffled"], seed=seeds[c["seed"]]) for c in p["cfg"]]
        # twins with the same and with another seed
        if i % 2:
            cfg[1] = dict(cfg[0])
        if i % 3 == 0:
            cfg[2]["seed"] = seeds["1"]
            cfg[3] = dict(cfg[2], seed=seeds[rng.choice(["2", "2", "3"])])
        ops = list(p["ops"])
        drawn = {k: sum(o["times"] for o in ops if o["op"] == "draw" and o["stream"] == k) for k in range(1, 5)}
        # afterwards one fresh stream of each configuration on its own, long enough to see every window
        for k in range(1, 5):
            windows = n - min(cfg[k - 1]["b"], n) + 1
            cfg.append(dict(cfg[k - 1]))
            ops.append(dict(op="draw", stream=len(cfg), times=min(max(drawn[k], 40, 30 * windows if i % 3 else 0), 600)))
        out.append(dict(what="streams", cfg=cfg, ops=ops, n=n, d=(1, 2, 3)[i % 3], rng=rng.randrange(2 ** 31),
                        dtype=("float64", "float32", "float64", "int64")[i % 4],
                        layout=("plain", "fortran", "strided", "column", "plain")[i % 5]))
    for n in lib.pick((1500, 70000), (200, 1500, 5000, 70000, 200000)):
        # large datasets and large batches
        cfg = [dict(b=b, shuffled=shuffled, seed=seed) for shuffled in (False, True)
               for b, seed in ((20, "none"), (20, str(rng.randrange(2 ** 32))), (3, str(rng.randrange(2 ** 32))))]
        cfg += [dict(b=b, shuffled=shuffled, seed="9") for shuffled in (False, True) for b in (100, 150)]
        out.append(dict(what="streams", n=n, d=1, rng=rng.randrange(2 ** 31), dtype="float64", layout="plain", cfg=cfg,
                        ops=[dict(op="draw", stream=k + 1, times=450 if k < 6 else 5) for k in range(len(cfg))]))
    for shuffled in (False, True):
        # seeds that agree in their low or high digits
        base = rng.randrange(1000)
        seeds = [base] + [base + k for k in (1, 1000, 1024, 4096, 2 ** 15, 2 ** 16, 10 ** 5, 10 ** 6, 2 ** 20, 2 ** 24, 10 ** 9,
                                             2 ** 30, 2 ** 31, 100, 256, 997, 9999, 2 ** 16 - 1, 10 ** 5 - 1,
                                             10 ** 6 - 1, 1000003, 2 ** 31 - 1)]
        out.append(dict(what="streams", n=12, d=2, rng=rng.randrange(2 ** 31), dtype="float64", layout="plain",
                        cfg=[dict(b=2, shuffled=shuffled, seed=str(x)) for x in seeds],
                        ops=[dict(op="draw", stream=k + 1, times=10) for _ in range(3) for k in range(len(seeds))]))
    return out


def run(prop):
    def check_fun():
        check = lib.Check(prop, "model_checking", [
            "interleavings are drawn from the specification's behaviours with VERIF_SEED",
            "clauses on long streams have error probability below 1e-9 each on a correct tree"])
        r = lib.design_check("BatchesMC", constants=dict(MaxOps=lib.pick(5, 7)))
        check.count(states=r.distinct, transitions=r.generated)
        for fault in FAULTS if True else ():
            r = lib.tlc("BatchesMC", constants=dict(Fault='"%s"' % fault), expect_ok=False)
            if not r.violated:
                raise lib.Machinery("the contract accepts the broken design " + fault)
            check.count(rejected_broken_designs=1)
        chosen = scenarios(check)
        if prop == "C17":
            requests, r = lib.enumerate_scenarios("BatchesMC", "BatchesRequests.cfg")
            check.count(states=r.distinct, transitions=r.generated, requests=len(requests))
            chosen += [dict(what="request", request=q) for q in requests]
        for i, s in enumerate(chosen):
            s["id"] = i
        traces = lib.run_scenarios("drv_batches", chosen, jobs=lib.pick(4, 8), timeout=800)
        rejects, r = lib.validate("BatchesTrace", traces, heap="6g", timeout=800)
        check.count(traces_validated_against_impl=len(traces), states=r.distinct, transitions=r.generated,
                    batches=sum(len(t.get("events", ())) for t in traces))
        check.set(samples=[dict(cfg=traces[0]["cfg"], events=traces[0]["events"][:3])])
        check.rejects(rejects, traces, (prop + ".", "ANY."))
        return check.finish()
    return check_fun
