"""Evaluates the objective functions at the points of specs/objectives.qnt."""
import common as c
from common import np, tf
c.install_stubs()

BATCH = 40
FUNCTIONS = {"banana": "banana_log_likelihood", "gmm1": "gmm1_log_likelihood", "gmm2": "gmm2_log_likelihood",
             "gmm3": "gmm3_log_likelihood", "mixture": "gaussian_mixture_model_log_likelihood"}


def argument(case, variables):
    x, form = case["x"], case["form"]
    if case["f"] == "sinc":
        return np.array([x, x])
    if form == "variables":
        for v in x:
            variables.append(tf.Variable(v, dtype=getattr(tf, case["dtype"])))
        return variables[-len(x):]
    return {"list": list(x), "tuple": tuple(x), "array": np.array(x), "bare": x[0]}[form]


def evaluate(case, variables):
    from pysgmcmc.diagnostics import objective_functions
    f = getattr(objective_functions, FUNCTIONS.get(case["f"], case["f"]))
    kwargs = {}
    if case["f"] == "mixture":
        kwargs = dict(mu=case["mu"], var=case["var"], weights=case["weights"])
    x = argument(case, variables)
    result = dict(named=True)
    if case["negative"]:
        name = f.__name__
        f = objective_functions.to_negative_log_likelihood(f)
        result["named"] = f.__name__ == name
    if case["by_position"]:
        result["value"] = f(x, *kwargs.values())
    else:
        result["value"] = f(x=x, **kwargs)
    return result


def run(scenario):
    results, cases = [], scenario["cases"]
    for start in range(0, len(cases), BATCH):
        with tf.Graph().as_default() as graph, c.Session(graph=graph) as session:
            variables, batch = [], []
            for case in cases[start:start + BATCH]:
                try:
                    batch.append(evaluate(case, variables))
                except Exception as error:
                    batch.append(dict(error=c.describe_error(error)))
            session.run(tf.global_variables_initializer())
            for result in batch:
                value = result.get("value")
                if isinstance(value, (tf.Tensor, tf.Variable)):
                    value = session.run(value)
                if value is not None:
                    result["value"] = [repr(float(v)) for v in np.ravel(value)]
                results.append(result)
    return dict(id=scenario["id"], results=results)


def main():
    c.write_result([run(s) for s in c.read_job()["scenarios"]])


if __name__ == "__main__":
    main()
