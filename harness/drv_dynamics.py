"""Replays behaviours of specs/langevin.qnt and specs/svgd.qnt into real samplers.

A scenario lists the constants, the initial state and the actions of one behaviour as
numbers; the driver performs the actions and records parameters and costs.  The noise
of a step is scripted by feeding the noise operations of the graph.
"""
import arspy.ars


class Momenta(object):
    """ Stand-in for the external sampler of initial momenta: plays a script. """

    def __init__(self):
        self.script, self.calls = None, []
        self.real = arspy.ars.adaptive_rejection_sampling

    def __call__(self, *args, **kwargs):
        names = ("logpdf", "a", "b", "domain", "n_samples", "seed")
        given = dict(zip(names, args))
        given.update(kwargs)
        n = int(given["n_samples"])
        call = dict(n=n, domain=[repr(float(x)) for x in given["domain"]],
                    seed=given.get("seed"), logpdf=None)
        try:
            call["logpdf"] = [float(given["logpdf"](p)) for p in PROBES]
        except Exception as error:
            call["error"] = repr(error)
        self.calls.append(call)
        if self.script is None:
            return self.real(*args, **kwargs)
        values, self.script = self.script[:n], self.script[n:]
        return values


PROBES = [0., 0.5, -1.2, 3., -9.5]
momenta = Momenta()
arspy.ars.adaptive_rejection_sampling = momenta

import common as c  # noqa: E402
from common import NoiseScript, join, np, split, tf  # noqa: E402
import pysgmcmc.samplers.relativistic_sghmc as relativistic  # noqa: E402
relativistic.adaptive_rejection_sampling = momenta

LAYOUTS = [
    [(), (), (), ()],
    [(4,)],
    [(2, 2)],
    [(4, 1)],
    [(1, 4)],
    [(3,), ()],
    [(1, 3), (1, 1)],
    [(2, 1), (1, 2)],
    [(), (3, 1)],
    [(1, 1), (2,), ()],
    [(2,), (2,)],
    [(1, 2, 2)],
    [(2, 1, 2)],
    [(1, 1, 1), (1, 3, 1)],
]

# the same for other numbers of elements
SIZES = {
    4: LAYOUTS,
    2: [[(), ()], [(2,)], [(1, 2)], [(2, 1)], [(1,), ()], [(1, 1), (1,)]],
    24: [[()] * 24, [(24,)], [(2,)] * 12, [(4, 6)], [(2, 3, 4)], [(2, 1, 3, 2, 2)], [(1,)] * 24, [(2,)] * 11 + [(), (1, 1)],
         [(2, 3), (3, 2), (6,), (6, 1)], [(1, 12), (12, 1)], [(), (2, 2), ()] + [(1, 2)] * 9],
}

# the order of the parameters is not that of their names
NAMES = ["w", "v", "z", "b", "a", "c", "A"] + ["Variable_{}".format(7 * i % 23) for i in range(1, 20)]

DEFAULTS = {"SGHMC": dict(mdecay=0.05, scale_grad=1.0), "SGLD": dict(A=1.0, scale_grad=1.0),
            "REL": dict(mass=1.0, speed_of_light=1.0, D=1.0, Bhat=0.0), "SVGD": dict(alpha=0.9, fudge_factor=1e-6)}


def langevin(scenario):
    cfg, kind = scenario["cfg"], scenario["cfg"]["kind"]
    dtype = tf.float32 if scenario.get("float32") else tf.float64
    np_dtype = dtype.as_numpy_dtype
    size = len(scenario["theta"])
    shapes = SIZES[size][scenario["layout"] % len(SIZES[size])]
    record = dict(id=scenario["id"], layout=[list(s) for s in shapes], steps=[], problems=[])
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:
        params = [tf.Variable(np.asarray(part, dtype=np_dtype), dtype=dtype, name=name)
                  for name, part in zip(NAMES, split(np.array(scenario["theta"]), shapes))]
        w, b = tf.placeholder(dtype, (size,)), tf.placeholder(dtype, ())
        x = tf.placeholder_with_default(np.asarray(0., np_dtype), ())

        def cost(params):
            theta = tf.concat([tf.reshape(p, (-1,)) for p in params], axis=0)
            total = tf.reduce_sum(theta)
            return (0.5 * cfg["a"] * tf.reduce_sum(theta * theta) + 0.5 * cfg["k"] * total * total
                    + tf.reduce_sum(w * theta) + b + x * (1. + total))

        steps = [a for a in scenario["actions"] if a["tag"] == "step"]
        source = c.Batches([{w: a["w"], b: a["b"]} for a in steps])
        schedule = c.Schedule([a["eps"] for a in steps], scenario.get("initial_stepsize"))
        kwargs = {"SGHMC": dict(mdecay=cfg["mdecay"], scale_grad=cfg["scale"]),
                  "SGLD": dict(A=cfg["A"], scale_grad=cfg["scale"]),
                  "REL": dict(mass=cfg["mass"], speed_of_light=cfg["c"], D=cfg["D"], Bhat=cfg["B"])}[kind]
        if scenario.get("terse"):
            kwargs = {k: v for k, v in kwargs.items() if v != DEFAULTS[kind][k]}
        if scenario.get("explicit_session", True):
            kwargs["session"] = session
        seed = scenario.get("seed")
        noise = NoiseScript(shapes)
        momenta.script, momenta.calls = list(scenario["mom"]), []
        sampler = c.build(kind, params, cost, batch_generator=source, stepsize_schedule=schedule,
                          burn_in_steps=cfg["burnIn"], dtype=dtype, seed=seed, **kwargs)
        record["momenta"] = momenta.calls
        momenta.script = None
        session.run(tf.global_variables_initializer())
        holders = [tf.placeholder(dtype, s) for s in shapes]
        assigns = [tf.assign(p, h) for p, h in zip(params, holders)]
        session.noise = noise
        for action in scenario["actions"]:
            if action["tag"] == "assign":
                session.run(assigns, dict(zip(holders, split(np.array(action["dest"]), shapes))))
                continue
            noise.values = np.array(action["z"])
            if action["x"] != 0:
                sample, value = sampler.__next__({x: action["x"]})
            else:
                sample, value = next(sampler)
            noise.values = None
            sample = c.bare_list(sample, len(shapes))
            if [np.shape(s) for s in sample] != [tuple(s) for s in shapes]:
                record["problems"].append(dict(step=len(record["steps"]), what="sample shapes {}".format(
                    [np.shape(s) for s in sample])))
            if noise.problem:
                record["problems"].append(dict(step=len(record["steps"]), what=noise.problem))
                noise.problem = None
            record["steps"].append(dict(
                sample=[float(v) for v in join(sample)],
                theta=[float(v) for v in join(session.run(params))], cost=float(np.asarray(value))))
    return record


def svgd(scenario):
    """ `dims` is the shape of a particle; costs are a/2 |t|^2 + quartic*t_0^4/4 + w.t + b + x*(1+sum t). """
    cfg = scenario["cfg"]
    dtype = tf.float32 if scenario.get("float32") else tf.float64
    np_dtype = dtype.as_numpy_dtype
    dims = tuple(scenario["dims"])
    record = dict(id=scenario["id"], layout=list(dims), steps=[], problems=[])
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:
        particles = [tf.Variable(np.reshape(np.asarray(t, np_dtype), dims), dtype=dtype, name="particle{}".format(12 - i))
                     for i, t in enumerate(scenario["theta"])]
        w, b = tf.placeholder(dtype, dims), tf.placeholder(dtype, ())
        x = tf.placeholder_with_default(np.asarray(0., np_dtype), ())

        def cost(t):
            return (0.5 * cfg["a"] * tf.reduce_sum(t * t) + tf.reduce_sum(w * t) + b
                    + x * (1. + tf.reduce_sum(t)))

        steps = [a for a in scenario["actions"] if a["tag"] == "step"]
        source = c.Batches([{w: np.reshape(a["w"], dims), b: a["b"]} for a in steps])
        schedule = c.Schedule([a["eps"] for a in steps], scenario.get("initial_stepsize"))
        kwargs = dict(alpha=cfg["alpha"], fudge_factor=cfg["fudge"])
        if scenario.get("terse"):
            kwargs = {k: v for k, v in kwargs.items() if v != DEFAULTS["SVGD"][k]}
        sampler = c.build("SVGD", particles, cost, batch_generator=source, stepsize_schedule=schedule, dtype=dtype,
                          session=session, seed=scenario.get("seed"), **kwargs)
        session.run(tf.global_variables_initializer())
        holders = [tf.placeholder(dtype, dims) for _ in particles]
        assigns = [tf.assign(p, h) for p, h in zip(particles, holders)]
        for action in scenario["actions"]:
            if action["tag"] == "assign":
                session.run(assigns, {h: np.reshape(t, dims) for h, t in zip(holders, action["dest"])})
                continue
            if action["x"] != 0:
                sample, value = sampler.__next__({x: action["x"]})
            else:
                sample, value = next(sampler)
            sample = c.bare_list(sample, len(particles))
            if [np.shape(s) for s in sample] != [dims] * len(particles):
                record["problems"].append(dict(step=len(record["steps"]), what="sample shapes"))
            record["steps"].append(dict(
                sample=[[float(v) for v in np.reshape(s, (-1,))] for s in sample],
                theta=[[float(v) for v in np.reshape(s, (-1,))] for s in session.run(particles)],
                cost=[float(v) for v in np.reshape(value, (-1,))]))
    return record


def initial_momenta(scenario):
    """ The momenta a sampler really starts with, measured through one noise-free step. """
    graph = tf.Graph()
    n = scenario["n"]
    momenta.script, momenta.calls = None, []
    with graph.as_default(), c.Session(graph=graph) as session:
        params = [tf.Variable(np.zeros(k)) for k in scenario["sizes"]]
        sampler = c.build("REL", params, lambda ps: tf.add_n([tf.reduce_sum(0. * p) for p in ps]),
                          stepsize_schedule=c.Schedule([1.0]), mass=scenario["mass"], speed_of_light=scenario["c"],
                          D=0.0, Bhat=0.0, session=session, seed=scenario.get("seed"))
        session.run(tf.global_variables_initializer())
        next(sampler)
        u = join(session.run(params))
    m, light = scenario["mass"], scenario["c"]
    # u = p / (m sqrt(p^2/(m^2 c^2) + 1)), solved for p
    p = m * u / np.sqrt(np.maximum(1. - (u / light) ** 2, 1e-300))
    assert len(p) == n
    return dict(id=scenario["id"], momenta=[float(v) for v in p])


def run(scenario):
    try:
        return dict(langevin=langevin, svgd=svgd, momenta=initial_momenta)[scenario["what"]](scenario)
    except Exception as error:
        import traceback
        return dict(id=scenario["id"], layout=None, steps=[], problems=[dict(
            step=0, what="error " + c.describe_error(error), traceback=traceback.format_exc()[-1500:])], momenta=[])


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
