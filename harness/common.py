"""Driver side: runs under the project's interpreter and talks to the code in $REPO.

Drivers only use the public API and judge nothing: they perform the operations a
specification behaviour prescribes and record what could be observed.
"""
import json
import os
import sys
import types
import warnings

warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)

import numpy as np
if "int" not in np.__dict__:  # the third party package arspy still uses this alias
    np.int = int

import tf_v1_api  # noqa: F401  (gives `tensorflow` its v1 API)
import tensorflow as tf
logging.disable(logging.CRITICAL)

REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, REPO)


def _stub(name, **attributes):
    module = types.ModuleType(name)
    module.__dict__.update(attributes)
    sys.modules[name] = module
    return module


def install_stubs():
    """Stand-ins for optional packages that are not installed here."""
    class MultiTrace(object):
        def __init__(self, straces):
            self.straces = list(straces)

    try:
        import pymc3  # noqa: F401
    except ImportError:
        pymc3 = _stub("pymc3")
        pymc3.backends = _stub("pymc3.backends")
        pymc3.backends.base = _stub("pymc3.backends.base", MultiTrace=MultiTrace)
        pymc3.diagnostics = _stub(
            "pymc3.diagnostics",
            effective_n=lambda mtrace, *a, **k: ("effective_n", mtrace),
            gelman_rubin=lambda mtrace, *a, **k: ("gelman_rubin", mtrace),
        )


def install_contrib():
    """ Stand-in for the one part of tensorflow.contrib that the default network uses. """
    try:
        from tensorflow.contrib.layers import variance_scaling_initializer  # noqa: F401
        return
    except ImportError:
        pass

    def variance_scaling_initializer(factor=2.0, mode="FAN_IN", uniform=False, seed=None, dtype=tf.float32):
        # the truncated normal distribution of tensorflow.contrib.layers had the variance `1.3 * factor / n` before truncation
        return tf.variance_scaling_initializer(
            scale=factor, mode=mode.lower(), distribution="uniform" if uniform else "truncated_normal", seed=seed, dtype=dtype)

    layers = _stub("tensorflow.contrib.layers", variance_scaling_initializer=variance_scaling_initializer)
    _stub("tensorflow.contrib", layers=layers)


def session_config(threads=1):
    return tf.ConfigProto(intra_op_parallelism_threads=1,
                          inter_op_parallelism_threads=threads)


def op_ancestors(tensors, data_only=True):
    """ All operations the given fetches depend on. """
    seen, stack = {}, [t.op for t in tensors]
    while stack:
        op = stack.pop()
        if op.name in seen:
            continue
        seen[op.name] = op
        stack.extend(t.op for t in op.inputs)
        if not data_only:
            stack.extend(op.control_inputs)
    return seen


NOISE_OPS = ("RandomStandardNormal",)


def as_tensors(graph, fetches):
    flat = []

    def visit(f):
        if isinstance(f, (list, tuple)):
            for x in f:
                visit(x)
        elif isinstance(f, dict):
            for x in f.values():
                visit(x)
        elif f is not None:
            element = graph.as_graph_element(f, allow_tensor=True, allow_operation=True)
            flat.append(element)
    visit(fetches)
    return flat


class Session(tf.Session):
    """ A session that can script the noise of a step and records runs. """

    def __init__(self, *args, **kwargs):
        kwargs.setdefault("config", session_config())
        super().__init__(*args, **kwargs)
        self.noise = None      # callable(list of noise ops) -> {tensor: value}
        self.on_run = None     # callable(fetches, feed_dict)
        self.on_final = None   # the same, after scripting the noise
        self._noise_ops = {}

    def run(self, fetches, feed_dict=None, options=None, run_metadata=None):
        if self.on_run is not None:
            self.on_run(fetches, feed_dict)
        if self.noise is not None:
            tensors = [t for t in as_tensors(self.graph, fetches) if isinstance(t, tf.Tensor)]
            key = tuple(t.name for t in tensors)
            if key not in self._noise_ops:
                self._noise_ops[key] = sorted(
                    (op for op in op_ancestors(tensors, data_only=False).values()
                     if op.type in NOISE_OPS), key=lambda op: op._id)
            ops = self._noise_ops[key]
            if ops:
                scripted = self.noise(tensors, ops)
                if scripted:
                    feed_dict = dict(feed_dict or {})
                    feed_dict.update(scripted)
        if self.on_final is not None:
            self.on_final(fetches, dict(feed_dict or {}))
        return super().run(fetches, feed_dict, options, run_metadata)


def split(values, shapes):
    parts, i = [], 0
    for shape in shapes:
        n = int(np.prod(shape, dtype=int))
        parts.append(np.reshape(values[i:i + n], shape))
        i += n
    return parts


def join(parts):
    return np.concatenate([np.reshape(p, (-1,)) for p in parts])


class NoiseScript(object):
    """ Feeds the noise operations of each parameter's new value with scripted numbers. """

    def __init__(self, shapes):
        self.shapes, self.values, self.problem = shapes, None, None
        self.cache = {}

    def plan(self, tensors):
        key = tuple(t.name for t in tensors)
        if key not in self.cache:
            owners = []
            for tensor in tensors:
                ops = sorted((op for op in op_ancestors([tensor]).values() if op.type in NOISE_OPS),
                             key=lambda op: op._id)
                if ops:
                    owners.append(ops)
            self.cache[key] = owners
        return self.cache[key]

    def __call__(self, tensors, ops):
        if self.values is None:
            return None
        parts = split(self.values, self.shapes)
        owners = self.plan(tensors)
        feed = {}
        shared = {op for ops in owners for op in ops}
        if len(shared) == 1 and len(self.shapes) > 1 and \
                shared.copy().pop().outputs[0].shape.num_elements() == len(self.values):
            # one operation draws the noise of all elements
            op = shared.pop()
            return {op.outputs[0]: np.reshape(self.values, op.outputs[0].shape.as_list())}
        if len(owners) != len(parts):
            self.problem = "noise enters {} of {} parameters".format(len(owners), len(parts))
        for i, ops_of_param in enumerate(owners):
            for op in ops_of_param:
                output = op.outputs[0]
                if output in feed:
                    self.problem = "parameters share noise"
                    continue
                shape = output.shape.as_list()
                values = parts[min(i, len(parts) - 1)]
                if int(np.prod(shape, dtype=int)) != values.size:
                    self.problem = "noise of shape {} for a parameter of shape {}".format(shape, values.shape)
                feed[output] = np.resize(join([values]), shape)
        return feed


class Tokens(object):
    """ Names values by small integers; values that agree up to `rtol` share one. """

    def __init__(self, rtol=1e-9, atol=1e-300):
        self.values, self.rtol, self.atol = [], rtol, atol

    def __call__(self, value):
        value = flatten(value)
        for index, known in enumerate(self.values):
            if len(known) == len(value) and all(
                    a.shape == b.shape and
                    np.allclose(a, b, rtol=self.rtol, atol=self.atol, equal_nan=True)
                    for a, b in zip(known, value)):
                return index + 1
        self.values.append(value)
        return len(self.values)


def flatten(value):
    if isinstance(value, (list, tuple)):
        return [np.array(v, dtype=float) for v in value]
    return [np.array(value, dtype=float)]


def arrays_of(result):
    """ Whatever arrays there are in a result. """
    if isinstance(result, (list, tuple)):
        return [a for part in result for a in arrays_of(part)]
    return [result] if isinstance(result, np.ndarray) else []


class Handed(object):
    """ The results handed out so far (the first and the last ones), and what was in them. """

    def __init__(self):
        self.results, self.copies = [], []

    def add(self, *results):
        self.results.append(arrays_of(results))
        self.copies.append([a.copy() for a in self.results[-1]])
        if len(self.results) > 30:
            del self.results[5], self.copies[5]

    def kept(self):
        return all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
                   for result, copy in zip(self.results, self.copies) for a, b in zip(result, copy))

    def overwrite(self):
        for result, copy in zip(self.results, self.copies):
            for a, b in zip(result, copy):
                if a.flags.writeable:
                    a[...] = 7777.
                    b[...] = 7777.


def bare_list(sample, n_params):
    """ Samples of a single parameter are bare: always give a list. """
    return [sample] if n_params == 1 else list(sample)


class Schedule(object):
    """ Stepsize schedule that plays a list of values and records its use. """

    def __init__(self, values, initial_value=None):
        self.values = list(values)
        self.initial_value = self.values[0] if initial_value is None else initial_value
        self.drawn, self.updates, self.events = 0, [], []
        self.fail_next = None

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_next is not None:
            error, self.fail_next = self.fail_next, None
            raise error
        value = self.values[self.drawn % len(self.values)]
        self.drawn += 1
        self.events.append("draw")
        return value

    def update(self, *args, **kwargs):
        self.updates.append((args, kwargs))
        self.events.append("update")


class Batches(object):
    """ Batch source that plays a list of feeds and records its use. """

    def __init__(self, feeds):
        self.feeds, self.drawn, self.fail_next, self.corrupt = list(feeds), 0, None, None

    def __iter__(self):
        return self

    def __next__(self):
        if self.fail_next is not None:
            error, self.fail_next = self.fail_next, None
            raise error
        feed = dict(self.feeds[self.drawn % len(self.feeds)])
        self.drawn += 1
        if self.corrupt is not None:
            feed.update(self.corrupt)
            self.corrupt = None
        return feed


def sampler_class(kind):
    import pysgmcmc.samplers as samplers
    from pysgmcmc.samplers.svgd import SVGDSampler
    return {"SGHMC": samplers.SGHMCSampler, "SGLD": samplers.SGLDSampler,
            "REL": samplers.RelativisticSGHMCSampler, "SVGD": SVGDSampler}[kind]


def build(kind, params, cost_fun, **kwargs):
    cls = sampler_class(kind)
    if kind in ("REL", "SVGD"):
        kwargs.pop("burn_in_steps", None)
    if kind == "SVGD":
        return cls(particles=params, cost_fun=cost_fun, **kwargs)
    return cls(params=params, cost_fun=cost_fun, **kwargs)


def describe_error(error):
    return "{}: {}".format(type(error).__name__, str(error).splitlines()[0][:200] if str(error) else "")


def read_job():
    with open(sys.argv[1]) as f:
        return json.load(f)


def write_result(result):
    path = sys.argv[2]
    with open(path + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(path + ".tmp", path)
