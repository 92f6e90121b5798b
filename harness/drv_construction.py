"""Replays requests of specs/ConstructionMC.tla: samplers are constructed from valid and invalid arguments."""
import functools

import common as c
from common import np, tf


class Session(c.Session):
    pass


def reference(values, w):
    return 0.5 * np.sum(values ** 2) + w * np.sum(values)


class Problem(object):
    def __init__(self, kind, dtype, rng):
        self.kind, self.dtype = kind, dtype
        shapes = [(2,)] * 3 if kind == "SVGD" else [(2,), ()]
        self.initial = [np.asarray(rng.uniform(-1, 1, s), dtype.as_numpy_dtype) for s in shapes]
        self.assigned = [np.asarray(rng.uniform(-1, 1, s), dtype.as_numpy_dtype) for s in shapes]
        self.params = [tf.Variable(v, name="target{}".format(i)) for i, v in enumerate(self.initial)]
        self.default_w = np.asarray(rng.uniform(1, 2), dtype.as_numpy_dtype)
        self.w = tf.placeholder_with_default(self.default_w, ())
        self.data = rng.uniform(-2, -1, 5)
        self.source = c.Batches([{self.w: w} for w in self.data])
        self.assign = [tf.assign(p, v) for p, v in zip(self.params, self.assigned)]
        self.there = [tf.is_variable_initialized(p) for p in self.params]

    def values(self, session):
        if not all(session.run(self.there)):
            return None
        return session.run(self.params)

    def cost(self, params):
        parts = params if isinstance(params, (list, tuple)) else [params]
        flat = tf.concat([tf.reshape(p, (-1,)) for p in parts], axis=0)
        return 0.5 * tf.reduce_sum(flat ** 2) + self.w * tf.reduce_sum(flat)

    def expected(self, values, w):
        if self.kind == "SVGD":
            return np.array([reference(v, w) for v in values])
        return reference(c.join(values), w)


class CallableObject(object):
    def __init__(self, fun):
        self.fun = fun

    def __call__(self, params):
        return self.fun(params)


def forwarded(fun, params):
    return fun(params)


def constant_schedule(counter):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule

    class Counted(ConstantStepsizeSchedule):
        def __next__(self):
            counter.events.append("draw")
            counter.drawn += 1
            return super().__next__()
    return Counted(0.05)


def without(name):
    class Part(object):
        initial_value = 0.1

        def __iter__(self):
            return self

        def __next__(self):
            return 0.1

        def update(self, *args, **kwargs):
            pass
    delattr(Part, name)
    return Part()


OMITTED = object()
NAMES = dict(cost="cost_fun", source="batch_generator", seed="seed", session="session", dtype="dtype",
             schedule="stepsize_schedule", burnIn="burn_in_steps", alpha="alpha", fudge="fudge_factor", mass="mass",
             speed="speed_of_light")
SIMPLE = dict(half=0.5, one=1, unit=1.0, string="7", nothing=None, number=3, zero=0, five=5, seven=7, fraction=1.5, whole=5.0,
              large=2 ** 31 - 1, none=None)


def argument(name, value, problem, sessions, schedule, graph, omit):
    """ The value of an argument that a request asks for. """
    if name == "cost":
        return {"function": problem.cost, "object": CallableObject(problem.cost),
                "partial": functools.partial(forwarded, problem.cost)}.get(value, SIMPLE.get(value))
    if name == "source":
        if value == "none":
            return OMITTED if omit else None
        feeds = [{problem.w: w} for w in problem.data]
        return {"object": problem.source, "generator": (feed for feed in problem.source), "list": feeds,
                "function": lambda: feeds[0]}.get(value, SIMPLE.get(value))
    if name == "session":
        if value in ("default", "absent"):
            return OMITTED if omit else None
        return {"given": sessions["given"], "interactive": sessions.get("interactive"), "graph": graph,
                "string": "session"}[value]
    if name == "dtype":
        return {"float64": tf.float64, "float32": tf.float32, "string": "float64", "nothing": None}[value]
    if name == "schedule":
        if value == "constant":
            return constant_schedule(schedule)
        if value == "object":
            return schedule
        if value in SIMPLE:
            return SIMPLE[value]
        return without({"no-next": "__next__", "no-update": "update", "no-initial": "initial_value"}[value])
    if name == "seed" and value == "none" and omit:
        return OMITTED
    return SIMPLE[value]


def run(scenario):
    kind, request, rng = scenario["kind"], scenario["request"], np.random.RandomState(scenario["rng"])
    dtype = tf.float32 if request["dtype"] == "float32" else tf.float64
    trace = dict(id=scenario["id"], kind=kind, request=request, events=[])
    tokens, costs = c.Tokens(1e-12), c.Tokens(1e-4 if dtype is tf.float32 else 1e-9)

    def named(values):
        return "" if values is None else "v{}".format(tokens(list(values)))

    graph = tf.Graph()
    with graph.as_default():
        problem = Problem(kind, dtype, rng)
        schedule = c.Schedule([0.05, 0.07, 0.06])
        sessions = {}
        if request["session"] == "interactive":
            # it becomes the default session as well, until others do
            sessions["interactive"] = tf.InteractiveSession(graph=graph, config=c.session_config())
        sessions["default"], sessions["given"] = Session(graph=graph), Session(graph=graph)
        try:
            for session in sessions.values():
                if scenario["before"] != "nothing":
                    session.run([p.initializer for p in problem.params])
                if scenario["before"] == "assigned":
                    session.run(problem.assign)
            trace["initial"] = named(problem.initial)
            trace["values"] = named(problem.values(sessions["default"]))

            def build(asked):
                mine = [a for a in asked if scenario["arguments"].count(a)]
                kwargs = {NAMES[a]: argument(a, asked[a], problem, sessions, schedule, graph, rng.rand() < 0.5) for a in mine}
                kwargs = {k: v for k, v in kwargs.items() if v is not OMITTED}
                kwargs["particles" if kind == "SVGD" else "params"] = problem.params
                if asked["session"] == "absent":
                    return c.sampler_class(kind)(**kwargs)
                with sessions["default"].as_default():
                    return c.sampler_class(kind)(**kwargs)

            sampler, asked = None, request

            def perform(op):
                nonlocal sampler, asked
                obs = dict(ok=True)
                if op == "retry":
                    asked = dict(scenario["usual"], dtype=request["dtype"] if request["dtype"] in ("float32", "float64") else "float64")
                mine = sessions.get(asked["session"], sessions["default"])
                others = [s for s in sessions.values() if s is not mine]
                drawn, steps = problem.source.drawn, schedule.drawn
                obs["elsewhereBefore"] = [named(problem.values(s)) for s in others]
                before = problem.values(mine)
                if op == "step":
                    batch = problem.default_w if asked["source"] == "none" else problem.data[drawn % 5]
                    obs["expCost"] = costs(problem.expected(before, batch))
                event = dict(op=op, obs=obs)
                try:
                    if op == "step":
                        sample, cost = next(sampler)
                        obs["sample"], obs["cost"] = named(sample), costs(cost)
                    else:
                        known = set(tf.global_variables())
                        sampler = build(asked)
                        # whatever the sampler leaves uninitialised is left to its user
                        for v in tf.global_variables():
                            if v not in known and not mine.run(tf.is_variable_initialized(v)):
                                mine.run(v.initializer)
                except Exception as error:
                    obs["ok"] = False
                    event["error"] = c.describe_error(error)
                obs["values"] = named(problem.values(mine))
                obs["elsewhere"] = [named(problem.values(s)) for s in others]
                obs["drawB"], obs["drawE"] = problem.source.drawn - drawn, schedule.drawn - steps
                trace["events"].append(event)
                return obs["ok"]

            if perform("construct") or perform("retry"):
                for _ in range(2):
                    perform("step")
        finally:
            for session in reversed(list(sessions.values())):
                session.close()
    return trace


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
