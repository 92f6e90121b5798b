"""Replays interleavings of specs/CoexistMC.tla: several samplers next to each other."""
import random

import common as c
from common import np, tf

# two groups of target parameters per problem; group 1 is the first parameter, group 2 all others
PROBLEMS = {1: [(2,), ()], 2: [(), (1, 2), (2,)]}
PARTICLES = {1: 3, 2: 4}
SEEDS = {0: None, 1: 13, 2: 26, 3: 0, 4: 2 ** 31 - 2}


class Slot(object):
    def __init__(self, index, cfg, graph, session):
        self.cfg, self.graph, self.session = cfg, graph, session
        kind, problem = cfg["kind"], cfg["problem"]
        rng = np.random.RandomState(100 + problem)
        shapes = [(2,)] * PARTICLES[problem] if kind == "SVGD" else PROBLEMS[problem]
        with graph.as_default():
            self.initial = [rng.uniform(-1, 1, s) for s in shapes]
            self.params = [tf.Variable(v, name="slot{}_target{}".format(index, i)) for i, v in enumerate(self.initial)]
            self.assigned = {k: [rng.uniform(-1, 1, s) for s in shapes] for k in (1, 2)}
            self.w = tf.placeholder(tf.float64, (), name="slot{}_w".format(index))
            self.source = c.Batches([{self.w: v} for v in rng.uniform(-1, 1, 5)])
            self.assign_ops = {k: [tf.assign(p, v) for p, v in zip(self.params, values)]
                               for k, values in self.assigned.items()}
        self.schedule = c.Schedule(rng.uniform(0.05, 0.2, 4).tolist())
        self.sampler, self.own = None, []

    def cost(self, params):
        parts = params if isinstance(params, list) else [params]
        flat = tf.concat([tf.reshape(p, (-1,)) for p in parts], axis=0)
        return tf.reduce_sum(flat ** 2) / 2. + self.w * tf.reduce_sum(tf.sin(flat))

    def build(self):
        with self.graph.as_default():
            before = set(tf.global_variables())
            extra = {}
            if self.cfg["kind"] in ("SGHMC", "SGLD"):
                extra["burn_in_steps"] = 1 + self.cfg["problem"]
            self.sampler = c.build(
                self.cfg["kind"], self.params, self.cost, batch_generator=self.source,
                stepsize_schedule=self.schedule, session=self.session,
                seed=SEEDS[self.cfg["seed"]], **extra)
            self.own = [v for v in tf.global_variables() if v not in before]

    def ready(self):
        with self.graph.as_default():
            missing = initialised(self.session, self.own)
            self.session.run([v.initializer for v, there in zip(self.own, missing) if not there])

    def groups(self):
        """ Values of the two groups of parameters, None where a value is missing. """
        result = []
        for members in (self.params[:1], self.params[1:]):
            if all(initialised(self.session, members)):
                result.append([float(x) for v in self.session.run(members) for x in np.ravel(v)])
            else:
                result.append(None)
        return result

    def state(self):
        return values_of(self.session, self.own)


def initialised(session, variables):
    if not variables:
        return []
    with session.graph.as_default():
        ops = [probe(v) for v in variables]
    return [bool(x) for x in session.run(ops)]


_probes = {}


def probe(variable):
    if variable not in _probes:
        with variable.graph.as_default():
            _probes[variable] = tf.is_variable_initialized(variable)
    return _probes[variable]


def values_of(session, variables):
    there = initialised(session, variables)
    present = [v for v, ok in zip(variables, there) if ok]
    values = iter(session.run(present) if present else [])
    return [np.array(next(values), dtype=float) if ok else None for ok in there]


class Local(object):
    """ Tokens for states that only need comparing within one trace. """

    def __init__(self):
        self.known = []

    def __call__(self, values):
        if not values:
            return ""
        for i, other in enumerate(self.known):
            if len(other) == len(values) and all(
                    (a is None) == (b is None) and (a is None or np.array_equal(a, b, equal_nan=True))
                    for a, b in zip(other, values)):
                return "s{}".format(i)
        self.known.append(values)
        return "s{}".format(len(self.known) - 1)


def run(scenario):
    _probes.clear()
    cfg = scenario["cfg"]
    trace = dict(id=scenario["id"], cfg=cfg, events=[])
    local = Local()
    graphs, sessions, bystanders = {}, {}, []
    scripting = [False]

    def noise(tensors, ops):
        if scripting[0]:
            return {op.outputs[0]: np.zeros(op.outputs[0].shape.as_list()) for op in ops}
        return None

    for g in sorted({k["graph"] for k in cfg}):
        graphs[g] = tf.Graph()
        with graphs[g].as_default():
            sessions[g] = c.Session(graph=graphs[g])
            sessions[g].noise = noise
            with_value = tf.Variable(4.25, name="bystander")
            sessions[g].run(with_value.initializer)
            sessions[g].run(tf.assign(with_value, -1.5))
            bystanders.append((sessions[g], [with_value, tf.Variable([1., 2.], name="unset_bystander")]))
    slots = [Slot(i, k, graphs[k["graph"]], sessions[k["graph"]]) for i, k in enumerate(cfg)]
    trace["initial"] = {}
    for slot in slots:
        flat = [[float(x) for v in part for x in np.ravel(v)] for part in (slot.initial[:1], slot.initial[1:])]
        trace["initial"].setdefault("{} {}".format(slot.cfg["kind"], slot.cfg["problem"]), flat)

    def observe():
        return dict(ok=True, t=[slot.groups() for slot in slots], own=[local(slot.state()) for slot in slots],
                    by=local([v for session, variables in bystanders for v in values_of(session, variables)]))

    trace["by"] = observe()["by"]
    for op in scenario["ops"]:
        slot = slots[op["slot"] - 1] if "slot" in op else None
        obs, error = dict(ok=True), None
        try:
            if op["op"] == "init":
                members = slot.params[:1] if op["group"] == 1 else slot.params[1:]
                slot.session.run([v.initializer for v in members])
            elif op["op"] == "assign":
                slot.session.run(slot.assign_ops[op["to"]])
            elif op["op"] == "build":
                slot.build()
            elif op["op"] == "ready":
                slot.ready()
            elif op["op"] == "step":
                scripting[0] = not slot.cfg["seed"]
                sample, cost = next(slot.sampler)
                scripting[0] = False
                obs["out"] = [float(x) for v in list(sample) + [cost] for x in np.ravel(v)]
            else:
                unrelated(op["what"], graphs, sessions, slots, scenario["rng"] + len(trace["events"]))
        except Exception as e:
            scripting[0] = False
            obs["ok"], error = False, c.describe_error(e)
        obs_after = observe()
        obs_after.update(obs)
        event = dict(op=op, obs=obs_after)
        if error:
            event["error"] = error
        trace["events"].append(event)
        if error:
            break
    for session in sessions.values():
        session.close()
    return trace


def unrelated(what, graphs, sessions, slots, rng):
    first = sorted(graphs)[0]
    graph, session = graphs[first], sessions[first]
    if what == "numpy":
        np.random.uniform(size=3)
    elif what == "reseed":
        np.random.seed(rng % 1000)
        random.seed(rng)
    elif what == "python":
        random.random()
    elif what == "tf-op":
        with graph.as_default():
            tf.random_normal((2,))
            tf.random_normal((2,), seed=13)
    elif what == "tf-run":
        with graph.as_default():
            session.run(tf.random_uniform((2,), seed=13))
    elif what == "other-graph":
        with tf.Graph().as_default(), tf.Session() as other:
            v = tf.Variable(tf.random_normal((2,), seed=13))
            other.run(v.initializer)
    elif what == "cost":
        for slot in slots:
            if slot.sampler is not None and all(g is not None for g in slot.groups()):
                slot.session.run(slot.sampler.cost, {slot.w: 0.3})


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
