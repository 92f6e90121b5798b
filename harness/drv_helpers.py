"""Calls the tensor helpers with the arguments of specs/helpers.qnt and records what they give."""
import common as c
from common import np, tf

BATCH = 25


def made(values, shape, dtype, kind):
    array = np.reshape(np.array(values, dtype=dtype.as_numpy_dtype), shape)
    if kind == "variable":
        return tf.Variable(array)
    if kind == "list":
        return array.tolist()
    if kind == "array":
        return array
    return tf.constant(array)


def outcomes(session, tensors):
    """ Values, shapes and dtypes of tensors (or the descriptions of errors). """
    session.run(tf.global_variables_initializer())
    values = session.run({k: t for k, t in tensors.items() if not isinstance(t, str)})
    result = {}
    for k, t in tensors.items():
        if isinstance(t, str):
            result[k] = dict(error=t)
        else:
            v = np.asarray(values[k])
            result[k] = dict(shape=list(v.shape), flat=[repr(float(x)) for x in np.ravel(v)], dtype=str(v.dtype))
    return result


def attempt(f, *args, **kwargs):
    try:
        return f(*args, **kwargs)
    except Exception as error:
        return "error " + c.describe_error(error)


def distances(case):
    from pysgmcmc.tensor_utils import median, pdist, squareform
    dtype = getattr(tf, case["dtype"])
    points = made(case["points"], np.shape(case["points"]), dtype, case["kind"])
    condensed = attempt(pdist, points) if case["terse"] else attempt(pdist, points, metric="euclidean")
    tensors = dict(condensed=condensed)
    if not isinstance(condensed, str):
        tensors["square"] = attempt(squareform, condensed)
    tensors["matrix"] = attempt(squareform, made(case["vector"], (len(case["vector"]),), dtype, "tensor"))
    entries_dtype = getattr(tf, case["entries_dtype"])
    tensors["median"] = attempt(median, made(case["entries"], case["entries_shape"], entries_dtype, "tensor"))
    return tensors


def request(case):
    from pysgmcmc.tensor_utils import pdist, squareform
    r = case["request"]
    n = 3
    argument = made(np.arange(n ** r["rank"]), (n,) * r["rank"], tf.float64, r["kind"])
    return attempt(pdist, argument, metric=r["metric"]) if r["fun"] == "pdist" else attempt(squareform, argument)


def guards(case):
    from pysgmcmc.tensor_utils import safe_divide, safe_sqrt
    dtype = getattr(tf, case["dtype"])
    arrays = {k: np.array(case[k], dtype=dtype.as_numpy_dtype) for k in ("x", "y", "root")}
    x, y, root = [tf.constant(np.reshape(arrays[k], case["shape"])) for k in ("x", "y", "root")]
    if case["scalar_x"]:
        # numerators are broadcast
        x = tf.constant(arrays["x"].ravel()[0])
    if case["terse"]:
        return dict(quotient=attempt(safe_divide, x, y), root=attempt(safe_sqrt, root))
    constant = tf.constant(case["c"], dtype) if case["tensors"] else case["c"]
    limits = dict(clip_value_min=case["lower"])
    if case["bounded"]:
        limits["clip_value_max"] = case["upper"]
    if case["tensors"]:
        limits = {k: tf.constant(v, dtype) for k, v in limits.items()}
    return dict(quotient=attempt(safe_divide, x, y, small_constant=constant, name="quotient"),
                root=attempt(safe_sqrt, root, name="root", **limits))


def run(scenario):
    results = []
    cases = scenario["cases"]
    for start in range(0, len(cases), BATCH):
        with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
            tensors, served = {}, []
            for i, case in enumerate(cases[start:start + BATCH]):
                for k, t in (distances if scenario["what"] == "distances" else guards)(case).items():
                    tensors["{} {}".format(i, k)] = t
                served.append(request(case) if "request" in case else "")
            values = outcomes(session, tensors)
            for i, case in enumerate(cases[start:start + BATCH]):
                result = {k.split()[1]: v for k, v in values.items() if k.split()[0] == str(i)}
                if "request" in case:
                    result["served"] = not isinstance(served[i], str)
                    result["failure"] = served[i] if isinstance(served[i], str) else ""
                results.append(result)
    return dict(id=scenario["id"], results=results)


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
