"""Replays caller histories (SamplerProtocol) into real samplers and records what happens."""
import common as c
from common import np, tf

LAYOUTS = [
    [()],
    [(), ()],
    [(2,), ()],
    [(2, 1), (1, 3)],
    [(3,)],
    [(1,), (2, 2), ()],
    [(1, 2, 1)],
    [(), (2,), (1, 2), (3,), (), (1,)],
]
SVGD_LAYOUTS = [[(2,)] * 2, [(2,)] * 3, [(1,)] * 3, [(3,)] * 4, [(2,)] * 7]


# the order of the parameters is neither that of their names nor that of their shapes
NAMES = ["target", "b_target", "a_target", "c", "Variable_10", "Variable_2", "A"]


class Problem(object):
    """ A quadratic target whose coefficients come from minibatches and feeds. """

    def __init__(self, kind, layout, batches, rng, curvature, alias=False, optional=False, dtype=tf.float64):
        self.kind, self.rng, self.alias = kind, rng, alias
        shapes = (SVGD_LAYOUTS if kind == "SVGD" else LAYOUTS)
        self.shapes = shapes[layout % len(shapes)]
        self.np_dtype = dtype.as_numpy_dtype
        self.params = [
            tf.Variable(np.asarray(rng.uniform(-1, 1, shape), dtype=self.np_dtype), dtype=dtype,
                        name=NAMES[i])
            for i, shape in enumerate(self.shapes)]
        # number of elements one evaluation of the cost sees
        self.size = (int(np.prod(self.shapes[0])) if kind == "SVGD"
                     else int(sum(np.prod(s, dtype=int) for s in self.shapes)))
        self.a = curvature
        # one cost, in whichever form
        self.cost_shape = () if alias else [(), (1,), (1, 1)][rng.randint(3)]
        self.const_w, self.const_b = self.coefficients(), rng.uniform(-3, 3)
        if batches:
            if optional:
                # a cost that can be evaluated without any minibatch
                self.w = tf.placeholder_with_default(self.const_w, self.const_w.shape, name="batch_w")
                self.b = tf.placeholder_with_default(np.asarray(self.const_b, self.np_dtype), (), name="batch_b")
            else:
                self.w = tf.placeholder(dtype, name="batch_w")
                self.b = tf.placeholder(dtype, name="batch_b")
            # costs that are no (finite) numbers are costs as well; the gradients do not depend on the offset
            self.data = [(self.coefficients(), {3: float("nan"), 5: float("inf")}.get(i, rng.uniform(-3, 3)))
                         for i in rng.permutation(12)]
            feeds = [{self.w: w, self.b: b} for w, b in self.data]
            if optional:
                # some minibatches leave everything at its default
                for i in (1, 4, 7):
                    self.data[i] = self.const_w, self.const_b
                    feeds[i] = {}
            self.source = c.Batches(feeds)
        else:
            self.w, self.b = tf.constant(self.const_w, dtype), tf.constant(self.const_b, dtype)
            self.source = None
        self.bomb = tf.placeholder_with_default(np.int32(0), (), name="bomb")
        self.extra = tf.placeholder_with_default(np.asarray(0., self.np_dtype), (), name="extra")

    def coefficients(self):
        return (self.rng.choice([-1., 1.], self.size) * self.rng.uniform(1., 3., self.size)).astype(self.np_dtype)

    def cost(self, params):
        if self.alias:
            # the cost is the (only, scalar) parameter itself
            return params[0]
        if self.kind == "SVGD":
            theta = params
        else:
            theta = tf.concat([tf.reshape(p, (-1,)) for p in params], axis=0)
        cost = (0.5 * self.a * tf.reduce_sum(theta * theta) + tf.reduce_sum(self.w * theta)
                + self.b + tf.gather(tf.constant([0.], theta.dtype), self.bomb)
                + self.extra * (1. + tf.reduce_sum(theta)))
        return tf.reshape(cost, self.cost_shape) if self.cost_shape else cost

    def current(self, batch):
        return (self.const_w, self.const_b) if self.source is None else self.data[batch % len(self.data)]

    def reference_cost(self, values, batch, extra, fed_b=None):
        """ The cost function's definition, evaluated outside of the graph. """
        if self.alias:
            return np.array(values[0])
        w, b = self.current(batch)
        if fed_b is not None and w is self.const_w and self.source is not None:
            # the caller's value counts where the minibatch has none
            b = fed_b

        def one(theta):
            cost = 0.5 * self.a * np.sum(theta * theta) + np.sum(w * theta) + b + extra * (1. + np.sum(theta))
            return np.reshape(cost, self.cost_shape)
        if self.kind == "SVGD":
            return np.array([one(v) for v in values])
        return np.array(one(np.concatenate([np.reshape(v, (-1,)) for v in values])))

    def gradient(self, values, batch, extra):
        if self.alias:
            return np.ones(1)
        w, _ = self.current(batch)
        theta = np.concatenate([np.reshape(v, (-1,)) for v in values])
        return self.a * theta + w + extra


def flat(values):
    return np.concatenate([np.reshape(v, (-1,)) for v in values])


def burning(sampler):
    if not hasattr(sampler, "is_burning_in"):
        return "na"
    return "yes" if sampler.is_burning_in else "no"


def well_formed(sample, problem):
    if len(problem.params) == 1:
        parts = [sample]
    elif isinstance(sample, (list, tuple)) and len(sample) == len(problem.params):
        parts = sample
    else:
        return False
    return all(isinstance(x, (np.ndarray, np.generic)) and np.shape(x) == tuple(s)
               and np.asarray(x).dtype == problem.np_dtype
               for x, s in zip(parts, problem.shapes))


def owned(sampler, problem, tuned):
    """ Values for what the sampler feeds on its own. """
    feed = {}
    if hasattr(sampler, "epsilon"):
        feed[sampler.epsilon] = 0.7
    if problem.source is not None:
        feed.update({problem.w: problem.const_w, problem.b: FED_B})
    if tuned and getattr(sampler, "minv", None) is not None and hasattr(sampler, "minv_t"):
        feed.update({t: np.full(t.shape.as_list(), 3.) for t in sampler.minv_t})
    return feed


FED_B = 11.
FEED_VALUES = {0: 0., 1: 0.75, 2: -1.25, 3: 0., 4: 0.5}


def same_feed(one, other):
    return list(one) == list(other) and all(one[k] is other[k] for k in one)
MDECAY = 0.1


def run(scenario):
    cfg = scenario["cfg"]
    kind = cfg["kind"]
    rng = np.random.RandomState(scenario["rng"])
    trace = dict(id=scenario["id"], cfg=cfg, vars=0, events=[], layout=scenario["layout"], alias=scenario.get("alias", False))
    value_tokens, cost_tokens, prec_tokens = c.Tokens(1e-12), c.Tokens(1e-9), c.Tokens(1e-6)
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:
        session.noise = lambda tensors, ops: {op.outputs[0]: np.zeros(op.outputs[0].shape.as_list())
                                              for op in ops}
        problem = Problem(kind, scenario["layout"], cfg["batches"], rng, scenario.get("curvature", 0.1),
                          scenario.get("alias", False), scenario.get("optional", False))
        schedule = c.Schedule(rng.uniform(0.05, 0.2, 7).tolist())
        source = problem.source
        extra_args = dict(mdecay=MDECAY) if kind == "SGHMC" else {}
        try:
            sampler = c.build(kind, problem.params, problem.cost, batch_generator=source,
                              stepsize_schedule=schedule, burn_in_steps=cfg["burnIn"], session=session,
                              seed=int(rng.randint(1, 1000)), **extra_args)
            session.run(tf.global_variables_initializer())
        except Exception as error:
            trace["events"].append(dict(op=dict(op="build"), obs=dict(ok=False, vars=0), error=c.describe_error(error)))
            return trace

        def values():
            return [np.array(v) for v in session.run(problem.params)]

        initial = value_tokens(values())
        trace["vars"] = initial
        trace["events"].append(dict(op=dict(op="build"), obs=dict(
            ok=True, n=sampler.n_iterations, burn=burning(sampler), vars=initial,
            drawB=source.drawn if source else 0, drawE=schedule.drawn)))
        last_displacement = np.zeros_like(flat(values()))
        handed, reused = c.Handed(), {problem.extra: FEED_VALUES[4]}
        for op in scenario["ops"]:
            before = values()
            obs = dict(before=value_tokens(before), nBefore=int(sampler.n_iterations))
            event = dict(op=op, obs=obs)
            if op["op"] == "assign":
                session.run([tf.assign(p, np.asarray(rng.uniform(-1, 1, s), problem.np_dtype))
                             for p, s in zip(problem.params, problem.shapes)])
            elif op["op"] == "tamper":
                handed.overwrite()
            elif op["op"] == "noise":
                session.run(tf.random_normal((3,)))
                feed = {problem.w: problem.const_w, problem.b: 0.5} if source else {}
                session.run(sampler.cost, feed)
            else:
                step(op, obs, event, sampler, problem, schedule, source, values, before,
                     value_tokens, cost_tokens, prec_tokens, kind, last_displacement,
                     handed, reused)
            obs["kept"] = handed.kept()
            obs["vars"] = value_tokens(values())
            obs["n"] = int(sampler.n_iterations)
            trace["events"].append(event)
    return trace


def step(op, obs, event, sampler, problem, schedule, source, values, before,
         value_tokens, cost_tokens, prec_tokens, kind, last_displacement, handed, reused):
    obs["burnBefore"] = burning(sampler)
    drawn_b, drawn_e = (source.drawn if source else 0), schedule.drawn
    n_updates, n_events = len(schedule.updates), len(schedule.events)
    extra = FEED_VALUES[op["feed"]]
    fail = op["fail"]
    if fail == "batch":
        source.fail_next = RuntimeError("batch source failed")
    elif fail == "batchstop":
        source.fail_next = StopIteration()
    elif fail == "sched":
        schedule.fail_next = RuntimeError("schedule failed")
    elif fail == "run":
        source.corrupt = {problem.bomb: 5}
    elif fail == "feed":
        source.corrupt = {problem.w: ["not", "numbers"]}
    feed = (owned(sampler, problem, obs["burnBefore"] == "no") if op["feed"] == 3 else reused if op["feed"] == 4
            else {problem.extra: extra})
    given = dict(feed)
    graph = problem.extra.graph
    operations = len(graph.get_operations())
    sample = cost = None
    try:
        if op["feed"]:
            sample, cost = sampler.__next__(feed)
        else:
            sample, cost = next(sampler)
        obs["ok"] = True
    except Exception as error:
        obs["ok"] = False
        event["error"] = c.describe_error(error)
    obs["grown"] = len(graph.get_operations()) - operations
    obs["feedKept"] = same_feed(feed, given)
    obs["burn"] = burning(sampler)
    obs["drawB"] = (source.drawn if source else 0) - drawn_b
    obs["drawE"] = schedule.drawn - drawn_e
    obs["order"] = schedule.events[n_events:]
    obs["upd"] = []
    n_params = len(problem.params)
    for args, kwargs in schedule.updates[n_updates:]:
        given = list(args) + list(kwargs.values())
        try:
            obs["upd"].append(dict(s=value_tokens(c.bare_list(given[0], n_params)), c=cost_tokens(given[1])))
        except Exception:
            obs["upd"].append(dict(s=-1, c=-1))
    obs["prec"] = 0
    if not obs["ok"]:
        return
    handed.add(sample, cost)
    obs["form"] = bool(well_formed(sample, problem))
    try:
        obs["sample"] = value_tokens(c.bare_list(sample, n_params))
        obs["cost"] = cost_tokens(cost)
    except Exception:
        obs["sample"] = obs["cost"] = -1
    obs["expCost"] = cost_tokens(problem.reference_cost(before, drawn_b, extra, FED_B if op["feed"] == 3 else None))
    if kind in ("SGHMC", "SGLD"):
        epsilon = schedule.values[drawn_e % len(schedule.values)]
        displacement = flat(values()) - flat(before)
        gradient = problem.gradient(before, drawn_b, extra)
        if kind == "SGLD":
            precondition = -displacement / (epsilon * gradient)
        else:
            precondition = -(displacement - (1. - MDECAY) * last_displacement) / (epsilon ** 2 * gradient)
        last_displacement[:] = displacement
        obs["prec"] = prec_tokens(precondition)


def main():
    job = c.read_job()
    c.write_result([run(s) for s in job["scenarios"]])


if __name__ == "__main__":
    main()
