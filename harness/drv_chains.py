"""Replays histories of specs/ChainsMC.tla: traces, samplers and the extraction of chains."""
import common as c
from common import np, tf
c.install_stubs()


def content(draw, v, shape):
    """ The value of variable `v` in a draw of a trace made by hand. """
    return 100. * draw + 10. * v + np.reshape(np.arange(int(np.prod(shape, dtype=int))), shape) / 8.


def given_names(op):
    return [] if op["names"] == ["(none)"] else list(op["names"]) or None


class Book(object):
    """ Everything that was recorded; names what it is shown as [draw, variable]. """

    def __init__(self):
        self.known = {}

    def add(self, draw, v, value):
        value = np.array(value, dtype=float)
        self.known[(value.shape, value.tobytes())] = [draw, v]

    def name(self, value):
        value = np.array(value, dtype=float)
        return self.known.get((value.shape, value.tobytes()), [0, 0])

    def names(self, values):
        return [self.name(v) for v in values]


class Watch(object):
    """ Keeps a record of what a sampler does, step by step. """

    def __init__(self, sampler, session, n_params):
        self.book, self.pos, self.undisturbed, self.state = Book(), 0, True, None
        watch = self
        graph = session.graph

        def variables():
            with graph.as_default():
                found = {v.name: v for v in tf.global_variables()}
            return {name: v.tobytes() for name, v in session.run(found).items()}

        class Watched(type(sampler)):
            def __next__(self):
                if watch.pos and variables() != watch.state:
                    watch.undisturbed = False
                sample, cost = super().__next__()
                watch.pos += 1
                watch.state = variables()
                for v, value in enumerate(c.bare_list(sample, n_params)):
                    watch.book.add(watch.pos, v + 1, value)
                return sample, cost

        sampler.__class__ = Watched


def make_sampler(config, session):
    dtype = getattr(tf, config["dtype"])
    rng = np.random.RandomState(config["seed"])
    params = [tf.Variable(np.reshape(rng.standard_normal(int(np.prod(shape, dtype=int))), shape).astype(dtype.as_numpy_dtype),
                          dtype=dtype, name=name.split(":")[0])
              for name, shape in zip(config["params"], config["shapes"])]

    def cost(params):
        return tf.add_n([tf.reduce_sum(tf.square(p)) for p in (params if isinstance(params, (list, tuple)) else [params])])
    kwargs = dict(session=session, dtype=dtype, seed=config["seed"])
    if config["burn_in"] is not None:
        kwargs["burn_in_steps"] = config["burn_in"]
    sampler = c.build(config["kind"], params, cost, **kwargs)
    return params, sampler


def shown(trace, book):
    names = list(trace.varnames)
    return dict(chain=trace.chain, names=names, length=len(trace), columns=[book.names(trace.get_values(n)) for n in names])


def samples_of(op, shapes):
    rows = [[content(d, v + 1, shapes[v]) for v in range(op["width"])] for d in op["draws"]]
    if op["form"] == "bare":
        return [row[0] if op["scalar"] == "float64" else getattr(np, op["scalar"])(row[0]) if op["scalar"] != "float"
                else float(row[0]) for row in rows] if op["width"] else rows
    if op["form"] == "tuples":
        return tuple(tuple(row) for row in rows)
    if op["form"] == "array":
        return np.array(rows)
    if op["form"] == "generator":
        return (row for row in rows)
    return rows


def history(scenario):
    from pysgmcmc.diagnostics.sample_chains import PYSGMCMCTrace
    config = scenario["sampler"]
    trace = dict(id=scenario["id"], params=scenario["params"], events=[])
    with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
        params, sampler = make_sampler(config, session)
        session.run(tf.global_variables_initializer())
        watch = Watch(sampler, session, len(params))
        made = Book()
        for draw in range(1, 42):
            for v in range(1, 4):
                for shape in ((),) + tuple(tuple(s) for s in scenario["shapes"]):
                    made.add(draw, v, content(draw, v, shape))
        traces = []

        def perform(op, obs):
            kind = op["op"]
            if kind == "make":
                shapes = [()] * 3 if op["form"] in ("bare", "array") else [tuple(s) for s in scenario["shapes"]]
                given = samples_of(op, shapes)
                names = given_names(op)
                t = PYSGMCMCTrace(op["chain"], given, names) if scenario["positional"] else \
                    PYSGMCMCTrace(chain_id=op["chain"], samples=given, varnames=names)
                traces.append((t, made))
                obs["trace"] = shown(t, made)
            elif kind == "step":
                for _ in range(op["n"]):
                    next(sampler)
            elif kind == "extract":
                kwargs = dict(chain_id=op["chain"], sampler=sampler, n_samples=op["n"])
                if op["k"] != 1 or scenario["positional"]:
                    kwargs["keep_every"] = op["k"]
                if op["names"]:
                    kwargs["varnames"] = given_names(op)
                t = PYSGMCMCTrace.from_sampler(**kwargs)
                traces.append((t, watch.book))
                obs["trace"] = shown(t, watch.book)
            elif kind == "multi":
                multi(op, obs, config)
            else:
                t, book = traces[op["of"] - 1]
                if kind == "length":
                    obs["length"] = len(t)
                elif kind == "values":
                    if op["burn"] == 0 and op["thin"] == 1:
                        values = t.get_values(op["name"])
                    else:
                        values = t.get_values(op["name"], burn=op["burn"], thin=op["thin"])
                    obs["values"] = book.names(values)
                    # what was handed out belongs to the caller
                    np.asarray(values)[...] = -1
                elif kind == "index":
                    obs["values"] = book.names(t[op["index"]])
                elif kind == "point":
                    obs["point"] = [[name] + book.name(value) for name, value in t.point(op["draw"] - (op["draw"] > 0)).items()]
                elif kind == "slice":
                    sliced = t._slice(slice(op["from"] or None, op["to"] or None, None if op["step"] == 1 else op["step"]))
                    obs["trace"] = shown(sliced, book)

        for op in scenario["ops"]:
            obs = dict(ok=True)
            operations = len(graph.get_operations())
            try:
                perform(op, obs)
            except Exception as error:
                obs = dict(ok=False, error=c.describe_error(error))
            if op["op"] in ("step", "extract"):
                obs["pos"] = watch.pos
                obs["grown"] = len(graph.get_operations()) - operations
            trace["events"].append(dict(op=op, obs=obs))
    return trace


def multi(op, obs, config):
    import pymc3
    import pysgmcmc.diagnostics as diagnostics
    outer, seen, calls = tf.get_default_graph(), [], []

    def get_sampler(session):
        graph = tf.get_default_graph()
        call = dict(fresh=graph is not outer and all(graph is not g for g, _, _ in seen) and not graph.get_operations(),
                    own_session=isinstance(session, tf.Session) and session.graph is graph
                    and all(session is not s for _, s, _ in seen))
        params, sampler = make_sampler(config, session)
        watch = Watch(sampler, session, len(params))
        if op["burnt"]:
            session.run(tf.global_variables_initializer())
            for _ in range(op["burnt"]):
                next(sampler)
        seen.append((graph, session, watch))
        calls.append(call)
        return sampler

    kwargs = dict(n_chains=op["chains"], samples_per_chain=op["n"])
    if op["fun"] == "multitrace":
        if op["k"]:
            kwargs["keep_every"] = op["k"]
        if op["names"]:
            kwargs["parameter_names"] = list(op["names"])
        multitrace = diagnostics.pymc3_multitrace(get_sampler, **kwargs)
        obs["asked"], obs["result_is_passed_on"] = "multitrace", isinstance(multitrace, pymc3.backends.base.MultiTrace)
    else:
        result = {"effective_n": diagnostics.effective_sample_sizes,
                  "gelman_rubin": diagnostics.gelman_rubin}[op["fun"]](get_sampler, **kwargs)
        obs["asked"], multitrace = result
        obs["result_is_passed_on"] = True
    obs["calls"] = []
    for call, (graph, session, watch) in zip(calls, seen):
        try:
            with graph.as_default():
                session.run(tf.constant(0))
            closed = False
        except RuntimeError:
            closed = True
        obs["calls"].append(dict(call, closed=closed, undisturbed=watch.undisturbed, pos=watch.pos))
    obs["traces"] = [shown(t, seen[i][2].book if i < len(seen) else Book()) for i, t in enumerate(multitrace.straces)]
    if tf.get_default_graph() is not outer:
        obs["ok"] = False


def main():
    c.write_result([history(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
