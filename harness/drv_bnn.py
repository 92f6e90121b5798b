"""Replays lives and constructions of specs/EnsembleMC.tla with real Bayesian neural networks."""
import itertools
import random

import common as c
from common import np, tf

DIMS = 2


# ---- networks: functions of the inputs with variables that are reused when training again

def variables(shapes, seed, dtype):
    with tf.variable_scope("net", reuse=tf.AUTO_REUSE):
        return [tf.get_variable("v{}".format(i), shape, dtype=dtype,
                                initializer=tf.random_normal_initializer(stddev=0.5, seed=seed, dtype=dtype))
                for i, shape in enumerate(shapes)]


SHAPES = {"affine": [(DIMS, 2), (2,)], "single": [(DIMS + 1, 2)], "tanh": [(DIMS, 3), (3,), (3, 2), ()],
          "vectors": [(DIMS,), (), (), (DIMS,)]}


def output(net, v, x, tanh):
    """ The network's output for variables `v`, for tensors as well as for arrays. """
    if net == "affine":
        return x @ v[0] + v[1]
    if net == "single":
        return x @ v[0][:DIMS] + v[0][DIMS:]
    if net == "tanh":
        return tanh(x @ v[0] + v[1]) @ v[2] + v[3]
    raise ValueError(net)


def net_function(net):
    def get_net(inputs, seed=None, dtype=tf.float64):
        v = variables(SHAPES[net], seed, dtype)
        if net == "vectors":
            mean = tf.reduce_sum(inputs * v[0], axis=1) + v[1]
            logvar = tf.reduce_sum(inputs * v[3], axis=1) + v[2]
            return tf.stack([mean, logvar], axis=1)
        return output(net, v, inputs, tf.tanh)
    return get_net


def weights():
    return sorted((v for v in tf.global_variables() if v.op.name.startswith("net/")), key=lambda v: v.op.name)


def data(which, n, rng=None):
    rng = np.random.RandomState({"a": 5, "b": 6}[which])
    x = rng.uniform(-2, 3, (n, DIMS)) * [1., 4.]
    return x, 3. + x[:, 0] - 0.5 * x[:, 1] + rng.normal(0, 0.1, n)


TESTS = {"p": np.array([[0.3, -2.], [1.7, 4.], [-5., 0.1], [60., -90.]]), "q": np.array([[-0.4, 2.5]])}
SHAPED = {"one": np.zeros(DIMS), "three": np.zeros((2, 3, DIMS)), "zero": np.float64(1.)}


class SourceFails(Exception):
    pass


class Watched(object):
    """ A batch source that looks at the network's weights before every step, and fails in a given one. """

    def __init__(self, inner, look, fails_at=None):
        self.inner, self.look, self.fails_at = inner, look, fails_at

    def __iter__(self):
        return self

    def __next__(self):
        self.look()
        if self.fails_at is not None:
            self.fails_at -= 1
            if self.fails_at < 0:
                raise SourceFails()
        return next(self.inner)


def flat(values):
    return [float(x) for v in values for x in np.ravel(v)]


def quiet_unrelated(rng):
    """ Uses of global state that no network may depend on. """
    np.random.seed(rng.randrange(10 ** 6))
    np.random.uniform(size=rng.randrange(5))
    random.seed(rng.randrange(10 ** 6))


def life(scenario):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    from pysgmcmc import data_batches
    cfg, v = scenario["cfg"], scenario["variant"]
    rng = random.Random(scenario["rng"])
    quiet_unrelated(rng)
    trace = dict(id=scenario["id"], what="life", cfg=cfg, variant=v, seed=scenario["seed"], events=[])
    dtype = getattr(tf, v["dtype"])
    generate = data_batches.generate_shuffled_batches if v["shuffled"] else data_batches.generate_batches
    states, calls, sizes = [], [], []
    handed, passed = c.Handed(), []
    trained, fails = [False], [None]
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:

        def look():
            states.append(flat(session.run(weights())))
            sizes.append(len(graph.get_operations()))

        def generator(*args, **kwargs):
            calls.append((args, kwargs))
            if fails[0] == "source":
                raise SourceFails()
            return Watched(generate(*args, **kwargs), look,
                           {"first": 0, "last": scenario.get("steps", 1) - 1}.get(fails[0]))

        bnn = BayesianNeuralNetwork(
            session=session, sampling_method=getattr(Sampler, v["method"]), get_net=net_function(v["net"]),
            batch_generator=generator, batch_size=v["batch"], n_nets=cfg["nets"], n_iters=cfg["iters"],
            burn_in_steps=cfg["burnIn"], sample_steps=cfg["interval"],
            stepsize_schedule=ConstantStepsizeSchedule(v["stepsize"]),
            normalize_input=v["normalizeInput"], normalize_output=v["normalizeOutput"],
            seed=None if scenario["seed"] == "none" else int(scenario["seed"]), dtype=dtype)

        def session_vars():
            ready = weights() if trained[0] else []
            return flat(session.run(ready)) if ready else None

        def ensemble():
            return [flat(s if isinstance(s, (list, tuple)) else [s]) for s in bnn.samples]

        def call(f, *args, **kwargs):
            try:
                return f(*args, **kwargs), None
            except Exception as error:
                return None, c.describe_error(error)

        x = y = None
        for op in scenario["ops"]:
            obs = dict(ok=True)
            event = dict(op=op, obs=obs)
            operations = len(graph.get_operations())
            if op["op"] in ("train", "train-fails"):
                x, y = data(op["data"], v["n"])
                before = (x.copy(), y.copy())
                passed += [x, y]
                del states[:], sizes[:]
                fails[0] = op.get("at")
                _, event["error"] = call(bnn.train, x, y)
                trained[0] = trained[0] or event["error"] is None
                if event["error"] is None:
                    look()
                obs["states"] = list(states)
                obs["growing"] = sum(a != b for a, b in zip(sizes, sizes[1:]))
                obs["dataKept"] = bool(np.array_equal(before[0], x) and np.array_equal(before[1], y))
            elif op["op"] in ("predict", "predict-individual"):
                points = TESTS[op["test"]]
                arguments = dict(return_individual_predictions=True) if op["op"] == "predict-individual" else {}

                def predict(rows):
                    first, second = bnn.predict(rows, **arguments)
                    handed.add(first, second)
                    passed.append(rows)
                    return np.array(first, dtype=float), np.array(second, dtype=float)
                given = points.copy()
                result, event["error"] = call(predict, given)
                obs["dataKept"] = bool(np.array_equal(given, points))
                obs["grown"] = len(graph.get_operations()) - operations
                obs["out"] = obs["apart"] = None
                if result is not None:
                    obs["out"] = flat(result)
                    obs["shape"] = [list(r.shape) for r in result]
                    try:
                        parts = [predict(points[i:i + 1].copy()) for i in range(len(points))]
                        obs["apart"] = flat([np.concatenate([p[k] for p in parts], axis=-1) for k in (0, 1)])
                    except Exception as error:
                        event["apart-error"] = c.describe_error(error)
            elif op["op"] == "predict-shape":
                _, event["error"] = call(bnn.predict, SHAPED[op["shape"]])
            elif op["op"] == "step":
                _, event["error"] = call(next, bnn.sampler)
            elif op["op"] == "scramble":
                session.run([tf.assign(w, tf.fill(w.shape, tf.constant(rng.uniform(-1, 1), w.dtype.base_dtype)))
                             for w in weights()])
            elif op["op"] == "numpy":
                quiet_unrelated(rng)
            elif op["op"] == "tamper":
                handed.overwrite()
                for array in passed:
                    array[...] = 7777.
            obs["kept"] = handed.kept()
            if event.get("error") is not None:
                obs["ok"] = False
            try:
                obs["ensemble"], obs["vars"] = ensemble(), session_vars()
            except Exception as error:
                # an ensemble that is no list of weights is none at all
                event["ensemble-error"] = c.describe_error(error)
                obs["ensemble"], obs["vars"] = [[float("nan")]], session_vars()
            trace["events"].append(event)
    return trace


# ---- experiments of specs/bnn.qnt: weights w0, w1, b (mean), v0, v1 (log variance)

LAYOUTS = [[(), (), (), (), ()], [(5,)], [(2,), (), (2,)], [(2, 1), (1,), (1, 2)], [(1, 5)]]


def five_weights(layout, values, dtype):
    """ A network of five weights that start with the given values, in variables of the given shapes. """
    def get_net(inputs, seed=None, dtype=dtype):
        with tf.variable_scope("net", reuse=tf.AUTO_REUSE):
            v = [tf.get_variable("v{}".format(i), dtype=dtype, initializer=np.asarray(part, dtype.as_numpy_dtype))
                 for i, part in enumerate(c.split(np.array(values), LAYOUTS[layout]))]
        w = tf.concat([tf.reshape(part, (-1,)) for part in v], axis=0)
        return tf.stack([inputs[:, 0] * w[0] + inputs[:, 1] * w[1] + w[2], w[3] + w[4] * inputs[:, 0]], axis=1)
    return get_net


class Observed(object):
    """ A stepsize schedule that records what it is told about every step. """

    def __init__(self, values):
        self.values, self.drawn, self.costs, self.initial_value = values, 0, [], values[0]

    def __iter__(self):
        return self

    def __next__(self):
        self.drawn += 1
        return self.values[(self.drawn - 1) % len(self.values)]

    def update(self, params, cost):
        self.costs.append(float(np.asarray(cost)))


def rows_of(value):
    return [[float(v) for v in np.ravel(row)] for row in np.asarray(value)]


def experiment(cfg, theta, actions, x, y, tests, seed):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.sampling import Sampler
    shapes = LAYOUTS[cfg["layout"]]
    record = dict(states=[])
    noise, schedule = c.NoiseScript(shapes), Observed([a["eps"] for a in actions])
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:
        session.noise = noise

        def state():
            return [float(v) for v in c.join(session.run(weights()))]

        def generator(x, x_placeholder, y, y_placeholder, batch_size=20, seed=None):
            record.update(x=rows_of(x), y=[float(v) for v in np.ravel(y)], batch=batch_size, source_seed=seed)

            class Source(object):
                drawn = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    action = actions[self.drawn % len(actions)]
                    self.drawn += 1
                    record["states"].append(state())
                    noise.values = np.array(action["z"])
                    return {x_placeholder: np.asarray(x)[action["rows"]],
                            y_placeholder: np.reshape(np.asarray(y)[action["rows"]], (-1, 1))}
            return Source()

        kwargs = dict(mdecay=cfg["mdecay"]) if cfg["method"] == "SGHMC" else dict(A=cfg["A"])
        bnn = BayesianNeuralNetwork(
            session=session, sampling_method=getattr(Sampler, cfg["method"]),
            get_net=five_weights(cfg["layout"], theta, tf.float64), batch_generator=generator, batch_size=cfg["batch"],
            stepsize_schedule=schedule, n_nets=cfg["nets"], n_iters=cfg["iters"], burn_in_steps=cfg["burnIn"],
            sample_steps=cfg["interval"], normalize_input=cfg["normX"], normalize_output=cfg["normY"], seed=seed,
            dtype=tf.float64, **kwargs)
        given = np.array(x), np.array(y)
        if cfg.get("warm"):
            # an earlier training, on data of other locations, scales and size; nothing of it may remain
            rows = list(range(len(given[0]))) + [0] * cfg["warm"]
            bnn.train(3. * given[0][rows] - 7., 40. - 0.3 * given[1][rows])
            bnn.predict(np.array(tests))
            record["states"] = []
            schedule.drawn, schedule.costs, noise.values = 0, [], None
        bnn.train(*given)
        record["kept"] = bool(np.array_equal(given[0], x) and np.array_equal(given[1], y))
        noise.values = None
        record["states"].append(state())
        record["costs"] = schedule.costs
        record["ensemble"] = [[float(v) for v in c.join(s if isinstance(s, (list, tuple)) else [s])] for s in bnn.samples]
        for key, arguments in (("first", {}), ("nets", dict(return_individual_predictions=True)), ("again", {})):
            points = np.array(tests)
            mean, variance = bnn.predict(points, **arguments)
            record["kept"] = record["kept"] and bool(np.array_equal(points, tests))
            record[key] = [np.asarray(mean, float).tolist(), np.asarray(variance, float).tolist()]
        # what the objective reports for all data at the last weights
        if cfg.get("report", True):
            inputs, labels = tf.placeholder(tf.float64, (None, 2)), tf.placeholder(tf.float64, (None, 1))
            report = bnn.negative_log_likelihood(X=inputs, Y=labels)
            record["report"] = [float(v) for v in session.run(
                report, {inputs: np.array(record["x"]), labels: np.reshape(record["y"], (-1, 1))})]
    return record


def numeric(scenario):
    record = dict(id=scenario["id"])
    for key in ("base", "moved"):
        d = scenario[key]
        try:
            record[key] = experiment(scenario["cfg"], scenario["theta"], scenario["actions"], d["x"], d["y"], d["tests"],
                                     scenario["seed"])
        except Exception as error:
            import traceback
            record[key] = dict(error=c.describe_error(error), traceback=traceback.format_exc()[-1500:])
    return record


def priors(scenario):
    from pysgmcmc.models.bayesian_neural_network import log_variance_prior_log_like, weight_prior_log_like
    record = dict(id=scenario["id"], results=[])
    for case in scenario["cases"]:
        dtype = getattr(tf, case["dtype"])
        graph = tf.Graph()
        with graph.as_default(), tf.Session(graph=graph, config=c.session_config()) as session:
            try:
                parameters = [tf.Variable(np.asarray(part, dtype.as_numpy_dtype))
                              for part in c.split(np.array(case["weights"]), [tuple(s) for s in case["shapes"]])]
                kwargs = {} if case["terse"] else dict(wdecay=case["wdecay"])
                weight = weight_prior_log_like(parameters, dtype=dtype, **kwargs)
                kwargs = {} if case["terse"] else dict(mean=case["mean"], var=case["variance"])
                log_var = log_variance_prior_log_like(
                    tf.constant(np.array(case["rows"]), dtype=dtype), dtype=dtype, **kwargs)
                session.run(tf.global_variables_initializer())
                record["results"].append([float(v) for v in session.run([log_var, weight])])
            except Exception as error:
                record["results"].append(c.describe_error(error))
    return record


def columns(scenario):
    """ The normalisation helpers on matrices (or single vectors). """
    from pysgmcmc.models import base_model as m
    record = dict(id=scenario["id"], results=[])
    for group in scenario["groups"]:
        data, other = [np.array(group[k]) if group["vector"] else np.transpose(group[k]) for k in ("data", "other")]
        result = {}

        def both(own, given, normalise, undo):
            values, first, second = normalise(data)
            result[own] = [values, first, second, undo(values, first, second)]
            # the statistics of the data, in the documented order and by name
            more, again, still = normalise(other, first, second)
            result[given] = [more, again, still, undo(more, first, second)]
        try:
            before = data.copy(), other.copy()
            both("own", "given", m.zero_mean_unit_var_normalization, m.zero_mean_unit_var_unnormalization)
            both("ownRange", "givenRange", m.zero_one_normalization, m.zero_one_unnormalization)
            result = {k: [np.transpose(np.asarray(v, float)).tolist() for v in parts] for k, parts in result.items()}
            result["kept"] = bool(np.array_equal(before[0], data) and np.array_equal(before[1], other))
        except Exception as error:
            result = dict(error=c.describe_error(error))
        record["results"].append(result)
    return record


class Object(object):
    """ A callable that is no function. """

    def __init__(self, function):
        self.function = function

    def __call__(self, *args, **kwargs):
        return self.function(*args, **kwargs)


NUMBERS = {"zero": 0, "negative": -3, "float": 2.5, "string": "7", "none": None}


def construct(scenario):
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.data_batches import generate_batches
    import enum
    r = scenario["request"]
    other = enum.Enum("Other", ["SGHMC", "SGLD"])
    callables = {"none": None, "string": "net", "number": 3}
    net = dict(callables, function=net_function("affine"), object=Object(net_function("affine")))
    source = dict(callables, function=generate_batches, object=Object(generate_batches))
    methods = {"SGHMC": Sampler.SGHMC, "SGLD": Sampler.SGLD, "name": "SGHMC", "none": None, "number": 0,
               "other-enum": other.SGHMC, "lower-case": "sgld"}

    def number(name):
        return NUMBERS[name] if name in NUMBERS else int(name)
    graph = tf.Graph()
    error = None
    with graph.as_default(), c.Session(graph=graph) as session:
        try:
            BayesianNeuralNetwork(
                session=session, sampling_method=methods[r["method"]], get_net=net[r["net"]],
                batch_generator=source[r["source"]], batch_size=number(r["batch"]), n_nets=number(r["nets"]),
                n_iters=number(r["iters"]), burn_in_steps=number(r["burnIn"]), sample_steps=number(r["interval"]))
        except Exception as e:
            error = c.describe_error(e)
    return dict(id=scenario["id"], what="construct", request=r, accepted=error is None, error=error or "")


def main():
    job = c.read_job()
    c.write_result([dict(life=life, construct=construct, numeric=numeric,
                             priors=priors, columns=columns)[s["what"]](s) for s in job["scenarios"]])


if __name__ == "__main__":
    main()
