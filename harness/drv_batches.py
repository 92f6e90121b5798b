"""Draws from minibatch streams in prescribed orders (specs/Batches*.tla)."""
import hashlib
import random

import common as c
from common import np, tf


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        h.update(repr((a.shape, a.dtype.str)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def global_state():
    state = np.random.get_state()
    return hashlib.sha1(repr((state[0], state[1].tobytes(), state[2:])).encode()).hexdigest()[:12] + \
        hashlib.sha1(repr(random.getstate()).encode()).hexdigest()[:4]


def dataset(s):
    rng = np.random.RandomState(s["rng"] % 2 ** 31)
    n, d = s["n"], s["d"]
    x = rng.permutation(n * d * 3)[:n * d].reshape(n, d).astype(s["dtype"])
    y = (rng.permutation(n * 3)[:n] + 0.5 * (s["dtype"] != "int64")).astype(s["dtype"])
    if s["layout"] == "fortran":
        x = np.asfortranarray(x)
    elif s["layout"] == "strided":
        wide = np.zeros((2 * n, 2 * d), dtype=x.dtype)
        wide[::2, ::2] = x
        x = wide[::2, ::2]
        wide = np.zeros(2 * n, dtype=y.dtype)
        wide[::2] = y
        y = wide[::2]
    elif s["layout"] == "column":
        y = y[:, None]
    return x, y


def positions(rows, known):
    return [known.get(np.asarray(r).tobytes(), -1) for r in rows]


def streams(s):
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    x, y = dataset(s)
    before = digest(x, y)
    points = {np.asarray(r).tobytes(): i for i, r in enumerate(x)}
    labels = {np.asarray(r).tobytes(): i for i, r in enumerate(y.reshape(-1, 1))}
    events, cfg, running = [], [], {}
    with tf.Graph().as_default():
        x_placeholder = tf.placeholder(dtype=tf.float64)
        y_placeholder = tf.placeholder(dtype=tf.float64)
        for k in s["cfg"]:
            cfg.append(dict(n=s["n"], b=k["b"], shuffled=k["shuffled"], seed=k["seed"]))
        np.random.seed(s["rng"] % 1000)
        random.seed(s["rng"])
        kept = []
        for op in s["ops"]:
            if op["op"] == "global":
                if op["what"] == "draw":
                    np.random.rand(3)
                elif op["what"] == "seed":
                    np.random.seed(5)
                else:
                    random.random()
                events.append(op)
                continue
            k = op["stream"]
            for _ in range(op["times"]):
                start = global_state()
                obs = dict(ok=True, rows=[], labels=[], column=True, keys=True, data=True, old=True)
                try:
                    if k not in running:
                        make = generate_shuffled_batches if cfg[k - 1]["shuffled"] else generate_batches
                        seed = cfg[k - 1]["seed"]
                        running[k] = make(x=x, y=y, x_placeholder=x_placeholder, y_placeholder=y_placeholder,
                                          batch_size=cfg[k - 1]["b"], seed=None if seed == "none" else int(seed))
                    batch = next(running[k])
                    obs["keys"] = len(batch) == 2 and x_placeholder in batch and y_placeholder in batch
                    if obs["keys"]:
                        bx, by = batch[x_placeholder], batch[y_placeholder]
                        obs["column"] = bool(by.ndim == 2 and by.shape[1] == 1 and bx.ndim == 2 and bx.shape[1] == s["d"])
                        # exact comparison, and in the dataset's own type
                        obs["rows"] = positions(bx, points) if bx.dtype == x.dtype else [-1] * len(bx)
                        obs["labels"] = positions(by.reshape(-1, 1), labels) if by.dtype == y.dtype else [-2] * len(by)
                        obs["old"] = all(digest(*arrays) == d for arrays, d in kept)
                        kept.append(((bx, by), digest(bx, by)))
                        kept = kept[-60:]
                except Exception as error:
                    obs.update(ok=False, error=c.describe_error(error))
                obs["data"] = digest(x, y) == before
                events.append(dict(op="draw", stream=k, obs=obs, before=start, after=global_state()))
                if not obs["ok"]:
                    return dict(id=s["id"], what="streams", cfg=cfg, events=events)
    return dict(id=s["id"], what="streams", cfg=cfg, events=events)


def request(s):
    from pysgmcmc.data_batches import generate_batches, generate_shuffled_batches
    r = s["request"]
    x = np.arange(24.).reshape(12, 2)
    y = {"one per point": np.arange(12.), "column": np.arange(12.)[:, None], "one less": np.arange(11.),
         "one more": np.arange(13.), "empty": np.zeros(0)}[r["labels"]]
    size = {"1": 1, "7": 7, "1000000": 10 ** 6, "zero": 0, "negative": -3, "float": 5.0, "string": "5", "none": None}[r["size"]]
    seed = {"none": None, "0": 0, "1": 1, "largest": 2 ** 32 - 1, "negative": -1, "too-large": 2 ** 32, "float": 1.5,
            "string": "x"}[r["seed"]]
    with tf.Graph().as_default():
        a, b = tf.placeholder(dtype=tf.float64), tf.placeholder(dtype=tf.float64)
        make = generate_shuffled_batches if r["shuffled"] else generate_batches
        try:
            stream = make(x, y, a, b, size, seed)
            next(stream)
            accepted = True
        except StopIteration:
            accepted = True  # it did not refuse, it just gave nothing
        except Exception:
            accepted = False
    return dict(id=s["id"], what="request", request=r, accepted=accepted)


def main():
    job = c.read_job()
    c.write_result([(streams if s["what"] == "streams" else request)(s) for s in job["scenarios"]])


if __name__ == "__main__":
    main()
