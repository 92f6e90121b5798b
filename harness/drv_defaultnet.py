"""Replays behaviours of specs/defaultnet.qnt with the default network, alone and inside a Bayesian neural network."""
import common as c
from common import np, tf

UNITS = 50


def role_order(shapes, count):
    """ Indices of kernel and bias of layers 1 to 4 and of the log variance; layers are told apart by shape, then by creation. """
    left = list(range(len(shapes)))

    def take(matches):
        i = next(i for i in left if matches(tuple(shapes[i])))
        left.remove(i)
        return i

    kernels = [take(lambda s, k=k: s == k) for k in ((count, UNITS), (UNITS, UNITS), (UNITS, UNITS), (UNITS, 1))]
    biases = [take(lambda s, k=k: s == k) for k in ((UNITS,),) * 3 + ((1,),)]
    rest = take(lambda s: int(np.prod(s)) == 1)
    return [i for pair in zip(kernels, biases) for i in pair] + [rest]


def values(step, shapes):
    """ Values for kernels, biases and log variance: the patterns of the specification. """
    result = []
    for layer, p in enumerate(step["layers"]):
        i, j = np.meshgrid(np.arange(shapes[2 * layer][0]), np.arange(shapes[2 * layer][1]), indexing="ij")
        result.append(((p["a"] * i + p["b"] * j + p["c"] * i * j + p["e"]) % 41 - 20) * p["size"])
        result.append(((p["p"] * np.arange(shapes[2 * layer + 1][0]) + p["q"]) % 21 - 10) / 10.)
    result.append(np.full(shapes[8], step["logVar"]))
    return result


def listed(a):
    return [[float(v) for v in row] for row in np.asarray(a)]


def build(scenario, dtype, seed):
    """ The network in the current graph: its input, its output and its variables. """
    from pysgmcmc.models.bayesian_neural_network import get_default_net
    before = set(tf.trainable_variables())
    inputs = tf.placeholder(dtype, (None, scenario["dims"]))
    kwargs = dict(dtype=dtype)
    if seed is not None:
        kwargs["seed"] = seed
    if dtype is tf.float64 and scenario["terse"]:
        del kwargs["dtype"]
    output = get_default_net(inputs, **kwargs)
    return inputs, output, [v for v in tf.trainable_variables() if v not in before]


def initial(scenario, dtype, seed):
    """ Initial values, in the order of their roles, of a network in a graph of its own. """
    with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
        # other operations move the counters that unseeded operations take their seeds from
        for _ in range(3):
            tf.random_normal((2,))
        _, _, variables = build(scenario, dtype, seed)
        session.run(tf.global_variables_initializer())
        return session.run(variables)


def batches(step, rng):
    """ The points alone, together, and among others. """
    x = np.asarray(step["x"])
    others = rng.uniform(-3, 3, (rng.randint(1, 6), x.shape[1]))
    yield x, list(range(len(x)))
    i = rng.randint(len(x))
    yield x[i:i + 1], [i]
    yield np.concatenate([others, x[::-1]]), [None] * len(others) + list(range(len(x)))[::-1]


def replay(scenario, record, order, shapes, outputs, rng):
    for step in scenario["steps"]:
        weights = [None] * len(order)
        for i, v in zip(order, values(step, [shapes[i] for i in order])):
            weights[i] = v
        seen = []
        for batch, which in batches(step, rng):
            out = np.asarray(outputs(weights, batch))
            if out.shape != (len(batch), 2):
                record["problems"].append("output of shape {} for {} points".format(out.shape, len(batch)))
                return
            seen.append([[i, row] for i, row in zip(which, listed(out)) if i is not None])
            # whatever the points are, the log variance is the same
            seen[-1].extend([None, row] for i, row in zip(which, listed(out)) if i is None)
        record["steps"].append(seen)


def alone(scenario, record, dtype, rng):
    with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
        inputs, output, variables = build(scenario, dtype, scenario["seed"])
        shapes = [tuple(v.shape.as_list()) for v in variables]
        record["shapes"] = [list(s) for s in shapes]
        order = role_order(shapes, scenario["dims"])
        session.run(tf.global_variables_initializer())
        start = session.run(variables)
        record["start"] = [dict(zero=not np.any(start[i]), value=float(np.ravel(start[i])[0]),
                                spread=float(np.mean(np.square(start[i]))) * start[i].shape[0],
                                distinct=int(len(np.unique(start[i])))) for i in order]
        record["types"] = sorted({v.dtype.base_dtype.name for v in variables} | {output.dtype.base_dtype.name})
        # seeds decide the initial kernels
        kernels = [order[0], order[2], order[4], order[6]]
        others = dict(again=scenario["seed"], other=(scenario["seed"] or 0) + 3)
        record["seeds"] = dict()
        for name, seed in others.items():
            found = initial(scenario, dtype, seed)
            record["seeds"][name] = [bool(np.array_equal(start[i], found[i])) for i in kernels]

        def outputs(weights, batch):
            if scenario["assign"]:
                for v, w in zip(variables, weights):
                    v.load(np.asarray(w, dtype.as_numpy_dtype), session)
                return session.run(output, feed_dict={inputs: batch})
            feed = dict(zip(variables, weights))
            feed[inputs] = batch
            return session.run(output, feed_dict=feed)
        replay(scenario, record, order, shapes, outputs, rng)


def inside(scenario, record, dtype, rng):
    """ As the network that a Bayesian neural network uses unless it is told otherwise. """
    from pysgmcmc.models.bayesian_neural_network import BayesianNeuralNetwork
    with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
        bnn = BayesianNeuralNetwork(session=session, batch_size=4, n_nets=2, n_iters=12, burn_in_steps=3, sample_steps=3,
                                    normalize_input=False, normalize_output=False, dtype=dtype, seed=scenario["seed"])
        x = rng.uniform(-1, 1, (9, scenario["dims"]))
        bnn.train(x, np.sin(x[:, 0]))
        shapes = [np.shape(w) for w in bnn.samples[0]]
        record["shapes"] = [list(s) for s in shapes]
        record["networks"] = len(bnn.samples)
        order = role_order(shapes, scenario["dims"])
        record["moved"] = [bool(np.any(a != b)) for a, b in zip(*list(bnn.samples)[:2])]
        mean, variance = bnn.predict(x)
        record["finite"] = bool(np.all(np.isfinite(mean)) and np.all(variance > 0.))
        replay(scenario, record, order, shapes,
               lambda weights, batch: bnn.compute_network_output(params=weights, input_data=batch), rng)


def run(scenario):
    record = dict(id=scenario["id"], problems=[], steps=[])
    rng = np.random.RandomState(scenario["rng"])
    dtype = tf.float32 if scenario["float32"] else tf.float64
    try:
        (inside if scenario["inside"] else alone)(scenario, record, dtype, rng)
    except StopIteration:
        record["problems"].append("variables of other shapes")
    except Exception as error:
        record["problems"].append("error: " + c.describe_error(error))
    return record


def main():
    c.install_stubs()
    c.install_contrib()
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
