"""Replays histories of specs/ModelMC.tla with subclasses of BaseModel."""
import json

import common as c
from common import np

COLUMNS = 2


def inputs(points, dtype, columns=COLUMNS):
    return np.array([[p, 1. - p * p / 4., -p, 1.][:columns] for p in points], dtype=dtype).reshape((len(points), columns))


# strictly increasing functions from values to labels
LABELS = {"plain": lambda v: -1. + 0.75 * v, "halves": lambda v: -2. + 0.5 * v, "close": lambda v: 3. + v * 2. ** -40,
          "steep": lambda v: -10. ** (12 - 3 * v), "huge": lambda v: 1e15 + 2 * v}


def labels(values, dtype, kind):
    return np.array([LABELS[kind](v) for v in values], dtype=dtype)


def rows_of(x, y, kind):
    """ The rows of data, as the specification names them; [0, 0] for unknown ones. """
    if x is None or y is None:
        return []
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.ndim != 2 or y.shape != x.shape[:1]:
        return [[0, 0]]
    rows = []
    for point, value in zip(x, y):
        p = int(point[0]) if len(point) else 0
        v = [w for w in range(1, 5) if value == LABELS[kind](w)]
        known = 1 <= p <= 9 and np.array_equal(point, inputs([p], float)[0]) and v
        rows.append([p, v[0]] if known else [0, 0])
    return rows


def recorder(copies, kind):
    from pysgmcmc.models.base_model import BaseModel

    class Recorder(BaseModel):
        def __init__(self):
            super().__init__()
            self.log = []

        @BaseModel._check_shapes_train
        def train(self, X, y, *args, **kwargs):
            self.X, self.y = (np.array(X), np.array(y)) if copies else (X, y)
            self.log.append(rows_of(X, y, kind))
    return Recorder()


def shape_check(op):
    from pysgmcmc.models.base_model import BaseModel
    seen = []

    class Model(BaseModel):
        @BaseModel._check_shapes_train
        def train(self, X, y, *args, **kwargs):
            seen.append((self, X, y, args, kwargs))
            return "result"

        @BaseModel._check_shapes_predict
        def predict(self, X, *args, **kwargs):
            seen.append((self, X, None, args, kwargs))
            return "result"
    model, x = Model(), np.zeros(op["x"])
    y = np.ones(op["y"]) if op["op"] == "check-train" else None
    result = model.train(x, y, 3, more="x") if y is not None else model.predict(x, 3, more="x")
    return result == "result" and len(seen) == 1 and seen[0][0] is model and seen[0][1] is x and seen[0][2] is y \
        and seen[0][3:] == ((3,), {"more": "x"})


def arguments(op, dtype, kind):
    points, values = [r[0] for r in op["rows"]], [r[1] for r in op["rows"]]
    x, y = inputs(points, float, 3 if op["shape"] == "wider" else COLUMNS), labels(values, float, kind)

    def exact(a):
        """ In the wanted type, if that can represent all numbers. """
        return a.astype(dtype) if np.array_equal(a.astype(dtype), a) else a
    x, y = exact(x), exact(y)
    if op["shape"] == "flat-points":
        x = x[:, 0]
    if op["shape"] == "unequal":
        y = y[:-1]
    return x, y


def history(scenario):
    trace = dict(id=scenario["id"], kind=scenario["kind"], events=[])
    labels_kind = scenario["labels"]
    model = recorder(scenario["kind"] == "copies", labels_kind)
    for op, dtype in zip(scenario["ops"], scenario["dtypes"]):
        obs = dict(ok=True, kept=True)
        try:
            if op["op"] in ("train", "update"):
                x, y = arguments(op, dtype, labels_kind)
                before = x.copy(), y.copy()
                del model.log[:]
                call = model.train if op["op"] == "train" else model.update
                call(x, y) if scenario["positional"] else call(X=x, y=y)
                obs.update(trainings=len(model.log), trained_on=(model.log or [[[0, 0]]])[0])
            elif op["op"] == "incumbent":
                point, value = model.get_incumbent()
                obs["best"] = rows_of([point], [value], labels_kind)[0] if np.ndim(point) == 1 and np.ndim(value) == 0 else [0, 0]
            elif op["op"] == "export":
                exported = json.loads(json.dumps(model.get_json_data()))
                obs["empty"] = exported["X"] is None and exported["y"] is None
                obs["exported"] = rows_of(exported["X"], exported["y"], labels_kind)
            else:
                obs["passed_on"] = bool(shape_check(op))
        except Exception as error:
            obs.update(ok=False, error=c.describe_error(error))
        if op["op"] in ("train", "update"):
            obs["kept"] = bool(np.array_equal(before[0], x) and np.array_equal(before[1], y))
        obs["stored"] = rows_of(getattr(model, "X", None), getattr(model, "y", None), labels_kind)
        trace["events"].append(dict(op=op, obs=obs))
    return trace


def main():
    c.write_result([history(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
