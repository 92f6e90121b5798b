"""C27, C28: distances, medians and guarded arithmetic (specs/helpers.qnt)."""
import math
import random
from fractions import Fraction

import dynamics
import lib

number, numbers = dynamics.number, dynamics.numbers
PLACES = 10 ** 120


def flat(v):
    return [x for row in v for x in row] if v and isinstance(v[0], list) else v


def matches(got, want, shape, rtol, dtype=None):
    if "error" in got or got["shape"] != shape or (dtype and got["dtype"] != dtype):
        return False
    return all(abs(float(g) - w) <= rtol * (1. + abs(w)) for g, w in zip(got["flat"], want))


def replay(cases, what):
    parts = [dict(id=i, what=what, cases=cases[i::4]) for i in range(4)]
    records = lib.run_scenarios("drv_helpers", parts, jobs=4, timeout=800)
    results = [None] * len(cases)
    for i, record in enumerate(records):
        results[i::4] = record["results"]
    return results


def distances():
    check = lib.Check("C27", "model_checking", ["the specification computes with 24 decimal digits; compared at 1e-12 "
                                                "(float32: 1e-5)"])
    traces = lib.quint("helpers.qnt", main="distances", n_traces=lib.pick(500, 6000), max_steps=1, seed=lib.SEED,
                       invariant="inv")
    rng = random.Random(lib.SEED)
    cases = []
    for states in traces:
        q = states[0]["case"]
        n = len(q["entries"])
        shapes = [[n], [1, n], [n, 1]] + [[k, n // k] for k in (2, 3) if n % k == 0] + ([[2, 2, n // 4]] if n % 4 == 0 else []) \
            + ([[]] if n == 1 else [])
        dtype = rng.choice(["float64", "float64", "float32"])
        cases.append(dict(
            points=numbers(q["points"]), vector=numbers(q["vector"]), entries=numbers(q["entries"]), dtype=dtype,
            kind=rng.choice(["tensor", "tensor", "variable"]), terse=rng.random() < 0.5, request=q["request"],
            entries_shape=rng.choice(shapes),
            entries_dtype=rng.choice(["int32", "int64", "float32", "float64"]) if q["whole"] else dtype))
    for case, states, got in zip(cases, traces, replay(cases, "distances")):
        q = states[0]["case"]
        n, single = len(case["points"]), case["dtype"] == "float32"
        rtol = 1e-5 if single else 1e-12
        problems = []
        if not matches(got["condensed"], numbers(q["condensed"]), [n * (n - 1) // 2], rtol, case["dtype"]):
            problems.append("pairwise distances")
        elif not matches(got["square"], flat(numbers(q["square"])), [n, n], rtol, case["dtype"]):
            problems.append("square form of distances")
        if not q["accepted"]:
            if "error" not in got["matrix"]:
                problems.append("square form of an impossible number of distances")
        else:
            m = len(q["matrix"])
            if not matches(got["matrix"], flat(numbers(q["matrix"])), [m, m], rtol, case["dtype"]):
                problems.append("square form")
        if not matches(got["median"], [number(q["median"])], [], 1e-5 if case["entries_dtype"] == "float32" else 1e-12):
            problems.append("median")
        if got["served"] != q["served"]:
            problems.append("accepts {}".format(q["request"]))
        for what in problems:
            check.violation(what, dict(case=case, recorded=got, expected={k: numbers(q[k]) for k in (
                "condensed", "square", "matrix", "median")}), what)
    check.count(traces_validated_against_impl=len(cases))
    check.set(samples=cases[:2])
    return check.finish()


def value(n):
    return Fraction(n["m"]) * Fraction(10) ** n["e"]


def guards():
    check = lib.Check("C28", "model_checking", [
        "operands lie between 1e-30 and 1e10 in magnitude (or are zero), so that no exact result leaves the range of the type",
        "compared at relative 1e-12 (float32: 1e-5)"])
    traces = lib.quint("helpers.qnt", main="guards", n_traces=lib.pick(1500, 15000), max_steps=1, seed=lib.SEED,
                       invariant="inv")
    rng = random.Random(lib.SEED)
    # cases with the same constants are computed together, element by element
    groups = {}
    for states in traces:
        q = states[0]["case"]
        key = ("terse",) if q["terse"] else (value(q["c"]), value(q["lower"]), value(q["upper"]) if q["bounded"] else None)
        groups.setdefault((key, q["single"]), []).append(q)
    cases, members = [], []
    for (key, single), group in groups.items():
        while group:
            part, group = group[:4], group[4:]
            scalar_x = len(part) == 1 or rng.random() < 0.2
            q = part[0]
            if scalar_x:
                part = part[:1]
            y_zero = [rng.choice([0.0, -0.0]) if v["y"]["m"] == 0 else float(value(v["y"])) for v in part]
            shape = {1: [[], [1], [1, 1]], 4: [[4], [2, 2], [1, 4]]}.get(len(part), [[len(part)]])
            cases.append(dict(
                x=[float(value(v["x"])) for v in part], y=y_zero, root=[float(value(v["root"])) for v in part],
                c=float(value(q["c"])), lower=float(value(q["lower"])), upper=float(value(q["upper"])),
                bounded=q["bounded"], terse=q["terse"], dtype="float32" if single else "float64", scalar_x=scalar_x,
                tensors=rng.random() < 0.3, shape=rng.choice(shape)))
            members.append(part)
    checked = 0
    for case, part, got in zip(cases, members, replay(cases, "guards")):
        rtol = Fraction(1, 10 ** 5) if case["dtype"] == "float32" else Fraction(1, 10 ** 12)
        smallest = 1e-37 if case["dtype"] == "float32" else 1e-300
        for i, q in enumerate(part):
            checked += 1
            problem = None
            if "error" in got["quotient"] or len(got["quotient"]["flat"]) != len(part):
                problem = "guarded division fails"
            else:
                r = float(got["quotient"]["flat"][i])
                least, most = [Fraction(q[k]["num"], q[k]["den"]) for k in ("least", "most")]
                if not math.isfinite(r):
                    problem = "guarded division gives {}".format(r)
                elif least > smallest and (r > 0) - (r < 0) != q["sign"]:
                    problem = "sign of the guarded division"
                elif not (least * (1 - rtol) <= abs(Fraction(r)) <= most * (1 + rtol)) and most > smallest:
                    problem = "guarded division out of bounds"
            if problem:
                check.violation(problem, dict(case=case, element=i, recorded=got["quotient"]), problem)
            problem = None
            if "error" in got["root"] or len(got["root"]["flat"]) != len(part):
                problem = "guarded root fails"
            else:
                r = float(got["root"]["flat"][i])
                want = Fraction(q["clipped"], PLACES)
                if not math.isfinite(r) or r < 0:
                    problem = "guarded root gives {}".format(r)
                elif abs(Fraction(r) ** 2 - want) > rtol * want:
                    problem = "guarded root"
            if problem:
                check.violation(problem, dict(case=case, element=i, recorded=got["root"],
                                              clipped=float(Fraction(q["clipped"], PLACES))), problem)
    check.count(traces_validated_against_impl=checked)
    check.set(samples=cases[:2])
    return check.finish()
