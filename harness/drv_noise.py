"""Runs samplers on a flat cost and reports the noise they injected, in units of its prescribed scale."""
import common as c
from common import np, tf

SHAPES = [[()], [(3,)], [(), ()], [(2,), (2,)], [(2, 2), (2, 2), ()], [(1,), (1, 1), (3,)],
          [()] * 7, [(1,), (2,), (), (1, 2), (3,), ()], [(2, 3), (3,), (3, 2), (2,)]]


def noise_of(kind, displacement, p):
    """ Standard normal draws per step from the displacements of all elements (one row per step). """
    e, n = p["eps"], p["scale"]
    if kind == "SGLD":
        return displacement / np.sqrt(2. * e * p["A"] / n)
    if kind == "SGHMC":
        d = p["mdecay"]
        s = np.sqrt(max(2. * (e * e / n) * d - (e * e / n) ** 2, 1e-16))
        before = np.vstack([np.zeros_like(displacement[:1]), displacement[:-1]])
        return (displacement - (1. - d) * before) / s
    m, light, D, B = p["mass"], p["c"], p["D"], p["B"]
    momentum = m * (displacement / e) / np.sqrt(1. - (displacement / (e * light)) ** 2)
    # the first momentum is unknown
    return (momentum[1:] - momentum[:-1] + D * displacement[:-1]) / np.sqrt(e * (2. * D - e * B))


def chain(s):
    kind, p = s["kind"], s["constants"]
    shapes = SHAPES[s["layout"]]
    graph = tf.Graph()
    with graph.as_default(), c.Session(graph=graph) as session:
        params = [tf.Variable(np.zeros(shape)) for shape in shapes]
        kwargs = {"SGHMC": dict(mdecay=p["mdecay"], scale_grad=p["scale"], burn_in_steps=1),
                  "SGLD": dict(A=p["A"], scale_grad=p["scale"], burn_in_steps=1),
                  "REL": dict(mass=p["mass"], speed_of_light=p["c"], D=p["D"], Bhat=p["B"])}[kind]
        sampler = c.build(kind, params, lambda ps: 0. * tf.add_n([tf.reduce_sum(q) for q in ps]) + 1.,
                          stepsize_schedule=c.Schedule([p["eps"]]), session=session, seed=s["seed"], **kwargs)
        session.run(tf.global_variables_initializer())
        rows = []
        before = np.zeros(sum(int(np.prod(q, dtype=int)) for q in shapes))
        for _ in range(s["steps"]):
            next(sampler)
            now = np.concatenate([np.ravel(v) for v in session.run(params)])
            rows.append(now - before)
            before = now
    return noise_of(kind, np.array(rows), p)


def run(s):
    try:
        # the chains of a scenario have different seeds or none: they may not share noise either
        z = np.hstack([chain(dict(s, seed=seed)) for seed in s["seeds"]])
        bad = not np.all(np.isfinite(z))
    except Exception as error:
        return dict(id=s["id"], ok=False, error=c.describe_error(error), draws=[[0]], below=[], agree=[])
    if bad:
        return dict(id=s["id"], ok=False, error="noise is not finite", draws=[[0]], below=[], agree=[])
    values = np.abs(z).ravel()
    order = np.argsort(values)
    tokens = np.zeros(len(values), dtype=int)
    token = 0
    for a, b in zip(order[:-1], order[1:]):
        token += values[b] - values[a] > 1e-11 * max(1., values[b])
        tokens[b] = token
    tokens = tokens.reshape(z.shape)

    def bound(n):
        return int(np.ceil(1000. * np.sqrt(np.log(2. / 1e-10) / (2. * n))))

    below = [dict(count=int((z < x).sum()), n=int(z.size), permille=q, bound=bound(z.size) + 1)
             for x, q in ((-1.2815516, 100), (-0.6744898, 250), (0., 500), (0.6744898, 750), (1.2815516, 900))]
    # every column on its own, too
    for column in z.T:
        below.append(dict(count=int((column < 0).sum()), n=len(column), permille=500, bound=bound(len(column)) + 1))
    agree = []
    for i in range(z.shape[1]):
        for j in range(i):
            agree.append(dict(count=int((np.sign(z[:, i]) == np.sign(z[:, j])).sum()), n=len(z), bound=bound(len(z)) + 1))
        agree.append(dict(count=int((np.sign(z[1:, i]) == np.sign(z[:-1, i])).sum()), n=len(z) - 1,
                          bound=bound(len(z) - 1) + 1))
    return dict(id=s["id"], ok=True, draws=tokens.tolist(), below=below, agree=agree)


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
