"""Requests samplers from the factory and records what was constructed (specs/Factory*.tla)."""
import enum
import sys

import common as c
from common import np, tf


class Abort(BaseException):
    """ Ends a construction once its arguments are known. """


class FalsyBatches(c.Batches):
    def __bool__(self):
        return False


class FalsySession(c.Session):
    def __bool__(self):
        return False


class Other(enum.Enum):
    SGHMC = "SGHMC"


def methods():
    from pysgmcmc.sampling import Sampler
    from pysgmcmc.samplers.sghmc import SGHMCSampler
    known = {m: getattr(Sampler, m) for m in ("SGHMC", "SGLD", "RelativisticSGHMC", "SVGD")}
    known.update({"name-string": "SGHMC", "value-string": Sampler.SGLD.value, "none": None, "zero": 0, "true": True,
                  "other-enum": Other.SGHMC, "class": SGHMCSampler, "lower-case": "sghmc", "object": object()})
    return Sampler, known


def values(given, graph):
    dtype = tf.float32 if "dtype" in given else tf.float64
    variables = [tf.Variable([0.5, -0.25], dtype=dtype), tf.Variable([0.125, 0.75], dtype=dtype),
                 tf.Variable([-1., 2.], dtype=dtype)]
    ordinary = dict(
        params=variables, particles=variables, cost_fun=lambda p: sum(tf.reduce_sum(x * x) for x in p),
        batch_generator=c.Batches([{}]), stepsize_schedule=c.Schedule([0.02, 0.04, 0.03]), burn_in_steps=2, mdecay=0.31,
        A=2.5, scale_grad=5.5, mass=2.25, speed_of_light=3.5, D=0.75, Bhat=0.125, alpha=0.45, fudge_factor=0.015,
        session=None, dtype=tf.float32, seed=1234567, unknown_argument=1, Seed=3)
    ordinary["self"] = "caller"
    falsy = dict(batch_generator=FalsyBatches([{}]), burn_in_steps=0, mdecay=float("0.0"), A=float("0.0"),
                 scale_grad=float("0.0"), mass=float("0.0"), speed_of_light=float("0.0"), D=float("0.0"),
                 Bhat=float("0.0"), alpha=float("0.0"), fudge_factor=float("0.0"), session=None, seed=0)
    chosen = {}
    for name, token in given.items():
        chosen[name] = (falsy if token == "falsy" else ordinary)[name]
    if "session" in given:
        chosen["session"] = (FalsySession if given["session"] == "falsy" else c.Session)(graph=graph)
    return chosen


def describe(value):
    from pysgmcmc.stepsize_schedules import ConstantStepsizeSchedule
    if isinstance(value, ConstantStepsizeSchedule):
        first, second = next(value), next(value)
        return "constant {!r}".format(first) if first == second else "varying"
    if isinstance(value, tf.DType):
        return value.name
    return str(value)


def equal(a, b):
    try:
        return type(a) is type(b) and isinstance(a, (int, float, str)) and a == b
    except Exception:
        return False


def bound_arguments(frame):
    code = frame.f_code
    n = code.co_argcount + code.co_kwonlyargcount
    names = list(code.co_varnames[1:n])
    bound = {name: frame.f_locals[name] for name in names}
    if code.co_flags & 0x08:
        bound.update(frame.f_locals[code.co_varnames[n + bool(code.co_flags & 0x04)]])
    return bound


def request(method, given, go_on=False):
    """ What `get_sampler` resolves the request to. """
    from pysgmcmc.samplers.base_classes import MCMCSampler
    Sampler, known = methods()
    caught = {}

    def profile(frame, event, arg):
        if event != "call" or frame.f_code.co_name != "__init__" or caught:
            return
        subject = frame.f_locals.get("self")
        if isinstance(subject, MCMCSampler):
            caught["class"] = type(subject).__name__
            caught["arguments"] = bound_arguments(frame)
            if not go_on:
                raise Abort()
    sampler, error = None, None
    sys.setprofile(profile)
    try:
        sampler = Sampler.get_sampler(known[method], **given)
    except Abort:
        pass
    except Exception as e:
        error = e
    finally:
        sys.setprofile(None)
    return caught, sampler, error


def outcome(tokens, given, caught, error):
    if error is not None or not caught:
        return dict(error=type(error).__name__)
    arguments = {}
    for name, value in caught["arguments"].items():
        if name in given and (value is given[name] or equal(value, given[name])):
            arguments[name] = tokens[name]
        else:
            arguments[name] = describe(value)
    return {"class": caught["class"], "arguments": arguments}


def run(sampler, session):
    session.noise = lambda tensors, ops: {op.outputs[0]: np.linspace(-1, 1, max(1, np.prod(op.outputs[0].shape.as_list(), dtype=int)))
                                          .reshape(op.outputs[0].shape.as_list()) for op in ops}
    with session.graph.as_default():
        session.run(tf.global_variables_initializer())
        results = []
        for _ in range(4):
            sample, cost = next(sampler)
            results.append([np.array(x) for x in (list(sample) + [cost])])
    return results


def compare(s, tokens):
    """ The sampler from the factory behaves like one constructed directly with the same arguments. """
    outcomes = []
    for direct in (False, True):
        graph = tf.Graph()
        with graph.as_default():
            given = values(tokens, graph)
            session = given.get("session")
            own = session is None
            if own:
                session = c.Session(graph=graph)
            with session.as_default():
                try:
                    if direct:
                        kind = dict(RelativisticSGHMC="REL").get(s["method"], s["method"])
                        sampler = c.sampler_class(kind)(**given)
                    else:
                        _, sampler, error = request(s["method"], given, go_on=True)
                        if error is not None:
                            raise error
                    outcomes.append((type(sampler).__name__, run(sampler, session)))
                except Exception as error:
                    outcomes.append((type(error).__name__, []))
            session.close()
    (class_a, a), (class_b, b) = outcomes
    same = class_a == class_b and len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype and np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True)
        for p, q in zip(a, b) for x, y in zip(p, q)) and all(len(p) == len(q) for p, q in zip(a, b))
    return "yes" if same else "no: {} {}".format(class_a, class_b)


def main():
    job = c.read_job()
    if job["scenarios"][0]["id"] % 2:
        # callers import modules whenever they like
        with c.Session():
            for kind in ("SGHMC", "SGLD", "REL", "SVGD"):
                c.sampler_class(kind)
    Sampler, known = methods()
    graph = tf.Graph()
    results = []
    with graph.as_default():
        # building values is slow, so requests share them; they are only passed around
        pool = {}
        for s in job["scenarios"]:
            if s["what"] == "member":
                results.append(dict(id=s["id"], what="member", method=s["method"],
                                    burnIn=Sampler.is_burn_in_mcmc(known[s["method"]]) is True,
                                    supported=Sampler.is_supported(known[s["method"]]) is True))
                continue
            tokens = dict(s["given"]) if s["given"] else {}
            given = {}
            for name, token in tokens.items():
                key = (name, token)
                if key not in pool:
                    pool[key] = values({name: token}, graph)[name]
                given[name] = None if token == "falsy" and s["none"] else pool[key]
            caught, _, error = request(s["method"], given)
            record = dict(id=s["id"], what="request", method=s["method"], given=s["given"],
                          outcome=outcome(tokens, given, caught, error), same="not run")
            if s.get("full"):
                with tf.Graph().as_default():
                    record["same"] = compare(s, tokens)
            results.append(record)
    c.write_result(results)


if __name__ == "__main__":
    main()
