"""Runs samplers with their own noise on quadratic targets with many elements and summarises every state."""
import common as c
from common import np, tf

# the elements as parameters of different shapes
GROUPS = [lambda n: [(n,)], lambda n: [(n // 2,), (n // 4, 2)], lambda n: [(n // 4, 2, 2)], lambda n: [(n // 2, 1), (1, n // 2)]]


def summary(now, before, law, sd):
    mean, centred = now.mean(), now - now.mean()
    return dict(mean=float(mean), var=float(np.mean(centred ** 2)), lag=float(np.mean(centred * (before - before.mean()))),
                near=[float(np.mean(centred[k:] * centred[:-k])) for k in (1, 2)],
                halves=float(np.mean(centred[:len(now) // 2] * centred[len(now) // 2:])),
                below=[float(np.mean(now < law + k * sd)) for k in (-2, -1, -0.5, 0, 0.5, 1, 2)])


def run(s):
    cfg, dtype = s["cfg"], tf.float32 if s["float32"] else tf.float64
    try:
        with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
            params = [tf.Variable(np.full(shape, s["start"]), dtype=dtype) for shape in GROUPS[s["group"]](s["elements"])]
            kwargs = {"SGHMC": dict(mdecay=cfg["mdecay"], scale_grad=cfg["scale"], burn_in_steps=cfg["burnIn"]),
                      "SGLD": dict(A=cfg["A"], scale_grad=cfg["scale"], burn_in_steps=cfg["burnIn"]),
                      "REL": dict(mass=cfg["mass"], speed_of_light=s["light"], D=cfg["D"], Bhat=cfg["B"])}[cfg["kind"]]

            def cost(ps):
                ps = ps if isinstance(ps, (list, tuple)) else [ps]
                return tf.add_n([0.5 * cfg["a"] * tf.reduce_sum(p ** 2) + cfg["w"] * tf.reduce_sum(p) for p in ps])
            sampler = c.build(cfg["kind"], params, cost, stepsize_schedule=c.Schedule([e["eps"] for e in s["states"]] + [0.1]),
                              session=session, dtype=dtype, seed=s["seed"], **kwargs)
            session.run(tf.global_variables_initializer())
            before, rows = np.full(s["elements"], s["start"]), []
            for state in s["states"]:
                sample, _ = next(sampler)
                now = np.concatenate([np.ravel(v) for v in (sample if len(params) > 1 else [sample])]).astype(float)
                rows.append(summary(now, before, state["mean"], state["sd"]))
                before = now
            return dict(id=s["id"], rows=rows)
    except Exception as error:
        return dict(id=s["id"], error=c.describe_error(error))


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
