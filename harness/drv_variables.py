"""Replays histories of specs/VariablesMC.tla with real variables."""
import common as c
from common import np, tf

JUNK = {"list": [1.0], "array": np.ones((2, 2)), "number": 3.0, "string": "v", "none": None}


def content(token, shape, dtype):
    n = int(np.prod(shape, dtype=int))
    return np.reshape(1000 * token + np.arange(n), shape).astype(dtype.as_numpy_dtype)


def token(values):
    """ The content an array holds (0: none). """
    flat = np.ravel(values)
    if flat.size == 0:
        return 0
    which = int(flat[0]) // 1000
    return which if np.array_equal(flat, 1000 * which + np.arange(flat.size)) else 0


def history(scenario):
    from pysgmcmc.tensor_utils import uninitialized_params, unvectorize, vectorize
    shape, dtype = tuple(scenario["shape"]), getattr(tf, scenario["dtype"])
    trace = dict(id=scenario["id"], shape=list(shape), dtype=scenario["dtype"], events=[])
    with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
        variables = []

        def missing(asked):
            found = uninitialized_params([variables[i] for i in asked], session)
            return [next((i + 1 for i, v in enumerate(variables) if v is f), 0) for f in found]

        def ready(v):
            return bool(session.run(tf.is_variable_initialized(v)))

        for op in scenario["ops"]:
            obs = dict(ok=True, content=0, shape=[], missing=[], variable=True)
            v = variables[op["of"] - 1] if "of" in op else None
            try:
                if op["op"] == "create":
                    variables.append(tf.Variable(content(op["content"], shape, dtype), dtype=dtype))
                elif op["op"] == "populate":
                    variables.extend(tf.Variable(content(op["content"], shape, dtype), dtype=dtype) for _ in range(op["n"]))
                elif op["op"] == "settle":
                    for v in variables[op["first"] - 1::op["every"]]:
                        if not ready(v):
                            session.run(v.initializer)
                elif op["op"] == "vectorize":
                    copy = vectorize(v)
                    obs["variable"] = isinstance(copy, tf.Variable) and copy is not v
                    obs["shape"] = copy.shape.as_list()
                    variables.append(copy)
                elif op["op"] == "initialize":
                    session.run(v.initializer)
                elif op["op"] == "assign":
                    session.run(tf.assign(v, content(op["content"], v.shape.as_list(), dtype)))
                elif op["op"] == "query":
                    obs["missing"] = missing([i - 1 for i in op["asked"]])
                elif op["op"] == "reject":
                    vectorize(JUNK[op["what"]])
                else:
                    result = v
                    if op["op"] == "column":
                        result = vectorize(tf.identity(v))
                    elif op["op"] == "restore":
                        # columns are unvectorised, other variables vectorised first
                        result = unvectorize(v if v.shape.as_list() == [v.shape.num_elements(), 1] and v is not variables[0]
                                             else vectorize(v.value()), original_shape=variables[0].shape)
                    value = session.run(result)
                    obs.update(content=token(value), shape=list(np.shape(value)))
            except Exception as error:
                obs.update(ok=False, error=c.describe_error(error))
                if op["op"] == "vectorize":
                    # the history goes on with some variable
                    variables.append(tf.Variable(np.zeros((1, 1))))
            obs["contents"] = [token(session.run(v)) if ready(v) else 0 for v in variables]
            try:
                obs["all"] = missing(range(len(variables)))
            except Exception as error:
                obs["all"] = [-1]
            trace["events"].append(dict(op=op, obs=obs))
    return trace


def main():
    c.write_result([history(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
