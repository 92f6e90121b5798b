"""Extracts the variable accesses of a step's dataflow graph, and replays steps under forced schedules.

extract: builds a sampler, performs some steps and describes, for every phase, the accessors of every
         variable together with the order that data and control edges impose on them.
replay:  rebuilds the same sampler, exports the graph of the step, adds control edges that force the given
         order of operations, and runs the very same step in the real executor.
"""
import common as c
from common import np, tf

# operations that do not look at the content of their input
CONTENT_FREE = {"Shape", "ShapeN", "Size", "Rank", "ZerosLike", "OnesLike", "IsVariableInitialized",
                "VarIsInitializedOp", "NoOp", "VariableShape", "BroadcastGradientArgs"}
# operations whose output is, or may be, their input's live buffer
MAY_ALIAS = {"Identity", "IdentityN", "Reshape", "ExpandDims", "Squeeze", "StopGradient", "PreventGradient",
             "PlaceholderWithDefault", "Enter", "Exit", "Switch", "Merge", "NextIteration", "RefIdentity",
             "RefSwitch", "RefMerge", "RefEnter", "RefExit", "Sum", "Mean", "Max", "Min", "Prod", "Pack", "Concat",
             "ConcatV2", "Transpose", "StridedSlice", "Slice", "Tile", "Cast", "AddN", "Unpack", "Split", "Pad",
             "BroadcastTo", "EnsureShape", "CheckNumerics", "Bitcast", "Select", "Snapshot"} - {"Snapshot"}
VARIABLES = {"VariableV2", "Variable", "VarHandleOp"}


def written_inputs(op):
    """ Indices of the inputs an operation writes to. """
    if op.type in VARIABLES or op.type in MAY_ALIAS or op.type in CONTENT_FREE:
        return []
    if op.type.startswith(("Assign", "ResourceScatter", "ResourceApply")) and op.inputs and \
            op.inputs[0].dtype.base_dtype == tf.resource:
        return [0]
    return [i for i, kind in enumerate(op._input_types) if kind._is_ref_dtype]


class Flow(object):
    def __init__(self, fetches, fed):
        self.fed = {t.name for t in fed}
        self.ops, self.preds = {}, {}
        stack = [t.op if isinstance(t, tf.Tensor) else t for t in fetches
                 if not (isinstance(t, tf.Tensor) and t.name in self.fed)]
        while stack:
            op = stack.pop()
            if op.name in self.ops:
                continue
            self.ops[op.name] = op
            before = [t.op for t in op.inputs if t.name not in self.fed] + list(op.control_inputs)
            self.preds[op.name] = {b.name for b in before}
            stack.extend(before)
        self.aliases = {}
        changed = True
        while changed:
            changed = False
            for op in self.ops.values():
                found = set()
                if op.type in VARIABLES:
                    found = {op.name}
                elif op.type in MAY_ALIAS or written_inputs(op):
                    for i, t in enumerate(op.inputs):
                        if t.name not in self.fed and (op.type in MAY_ALIAS or i in written_inputs(op)):
                            found |= self.aliases.get(t.op.name, set())
                if found - self.aliases.get(op.name, set()):
                    self.aliases.setdefault(op.name, set()).update(found)
                    changed = True
        self._ancestors = {}

    def ancestors(self, name):
        if name not in self._ancestors:
            seen, stack = set(), list(self.preds[name])
            while stack:
                n = stack.pop()
                if n in seen:
                    continue
                seen.add(n)
                stack.extend(self.preds[n])
            self._ancestors[name] = seen
        return self._ancestors[name]

    def in_loop(self, op):
        return op._get_control_flow_context() is not None

    def accesses(self):
        """ variable -> {op name: writes?} """
        result = {}
        for op in self.ops.values():
            if op.type in VARIABLES or op.type in CONTENT_FREE:
                continue
            writes = written_inputs(op)
            for i, t in enumerate(op.inputs):
                if t.name in self.fed:
                    continue
                for v in self.aliases.get(t.op.name, ()):
                    entry = result.setdefault(v, {})
                    entry[op.name] = entry.get(op.name, False) or i in writes
        # a variable nobody writes has one version only
        return {v: a for v, a in result.items() if any(a.values())}


LAYOUTS = [[()], [(2,)], [(), ()], [(2,), (3, 1)], [(1,), (), (2, 2)], [(1, 1), (3,), (), (2,)]]
SVGD_LAYOUTS = [[(2,)] * 2, [(3,)] * 3, [(1,)] * 4, [(2,)] * 5]


def cost_function(name, w, b):
    def flat(params):
        if not isinstance(params, (list, tuple)):
            params = [params]
        return [tf.reshape(p, (-1,)) for p in params]

    def quadratic(params):
        return 0.5 * tf.add_n([tf.reduce_sum(p * p) for p in flat(params)]) + b + \
            tf.add_n([w * tf.reduce_sum(p) for p in flat(params)])

    def coupled(params):
        total = tf.add_n([tf.reduce_sum(p) for p in flat(params)])
        return tf.exp(0.1 * total) * b + tf.square(total - w) + tf.add_n([tf.reduce_sum(tf.cos(p)) for p in flat(params)])

    def products(params):
        value = b
        for p in flat(params):
            value = value * (1.5 + tf.reduce_sum(tf.tanh(p + w)))
        return value

    def direct(params):
        """ Uses the parameters as they are, without any reshaping. """
        parts = params if isinstance(params, (list, tuple)) else [params]
        return tf.add_n([tf.reduce_sum(p ** 4 + w * p) for p in parts]) - b
    return dict(quadratic=quadratic, coupled=coupled, products=products, direct=direct)[name]


class Case(object):
    """ A sampler advanced to some step; deterministic, so that every process builds the same graph. """

    def __init__(self, scenario):
        kind, rng = scenario["kind"], np.random.RandomState(scenario["rng"])
        self.graph = tf.Graph()
        with self.graph.as_default():
            self.session = session = c.Session(graph=self.graph)
            session.noise = lambda tensors, ops: {op.outputs[0]: np.asarray(
                rng.normal(size=op.outputs[0].shape.as_list())) for op in ops}
            layouts = SVGD_LAYOUTS if kind == "SVGD" else LAYOUTS
            shapes = layouts[scenario["layout"] % len(layouts)]
            params = [tf.Variable(rng.uniform(-1, 1, s)) for s in shapes]
            w, b = tf.placeholder(tf.float64, ()), tf.placeholder(tf.float64, ())
            cost = cost_function(scenario["cost"], w, b)
            source = c.Batches([{w: rng.uniform(0.5, 2), b: rng.uniform(0.5, 2)} for _ in range(9)])
            self.sampler = c.build(kind, params, cost, batch_generator=source,
                                   stepsize_schedule=c.Schedule(rng.uniform(0.05, 0.2, 5).tolist()),
                                   burn_in_steps=scenario["burnIn"], session=session, seed=scenario.get("seed"))
            session.run(tf.global_variables_initializer())
            for _ in range(scenario["steps"]):
                next(self.sampler)
            self.variables = tf.global_variables()
            self.values = session.run(self.variables)
            captured = []
            session.on_final = lambda fetches, feed: captured.append((fetches, feed))
            next(self.sampler)
            session.on_final = None
            self.fetches, self.feed = captured[0]
            self.tensors = c.as_tensors(self.graph, self.fetches)


def extract(scenario):
    case = Case(scenario)
    fed = c.as_tensors(case.graph, list(case.feed))
    flow = Flow(case.tensors, fed)
    accesses = flow.accesses()
    problems, everything = [], {}
    for variable, entry in sorted(accesses.items()):
        writers = {n for n, w in entry.items() if w}
        # readers that are ordered alike with respect to all writers see the same version in every schedule
        classes = {}
        for n in sorted(entry):
            if n in writers:
                classes[("writer", n)] = n
            else:
                before = tuple(sorted(writers & flow.ancestors(n)))
                after = tuple(sorted(w for w in writers if n in flow.ancestors(w)))
                classes.setdefault((before, after), n)
        names = sorted(classes.values())
        index = {n: i + 1 for i, n in enumerate(names)}
        problems.append(dict(variable=variable, names=names, nodes=[
            dict(writes=n in writers, before=sorted(index[m] for m in names if m in flow.ancestors(n))) for n in names]))
        for n in entry:
            if not flow.in_loop(flow.ops[n]):
                everything[n] = True
    names = sorted(everything)
    index = {n: i + 1 for i, n in enumerate(names)}
    schedule = dict(names=names, nodes=[
        dict(writes=False, before=sorted(index[m] for m in names if m in flow.ancestors(n))) for n in names])
    return dict(id=scenario["id"], problems=problems, schedule=schedule, ops=len(flow.ops),
                loops=sorted(n for n in flow.ops if flow.in_loop(flow.ops[n]))[:1])


def forced(graph_def, order):
    """ Adds control edges that make the given operations run one after the other. """
    import copy
    result = tf.GraphDef()
    result.CopyFrom(graph_def)
    nodes = {n.name: n for n in result.node}
    for a, b in zip(order, order[1:]):
        nodes[b].input.append("^" + a)
    return result


def perform(case, graph_def):
    graph = tf.Graph()
    with graph.as_default():
        tf.import_graph_def(graph_def, name="")
        # no rewriting of the graph: the executor gets exactly these operations and edges
        config = c.session_config(2)
        from tensorflow.core.protobuf import rewriter_config_pb2 as rw
        config.graph_options.rewrite_options.disable_meta_optimizer = True
        config.graph_options.optimizer_options.opt_level = -1
        with tf.Session(graph=graph, config=config) as session:
            for variable, value in zip(case.variables, case.values):
                assign = graph.get_operation_by_name(variable.initializer.name)
                session.run(assign, {assign.inputs[1]: value})
            feed = {graph.get_tensor_by_name(t.name): v
                    for t, v in zip(c.as_tensors(case.graph, list(case.feed)), case.feed.values())}
            fetches = [graph.get_tensor_by_name(t.name) for t in case.tensors]
            result = session.run(fetches, feed)
            after = session.run([graph.get_tensor_by_name(v.name) for v in case.variables])
    names = [t.name for t in case.tensors] + [v.name for v in case.variables]
    return names, [np.array(v, dtype=float) for v in list(result) + list(after)]


def replay(scenario):
    case = Case(scenario)
    graph_def = case.graph.as_graph_def()
    groups = []
    for orders in scenario["orders"]:
        base, differences = None, []
        for order in orders:
            names, values = perform(case, forced(graph_def, order))
            if base is None:
                base = values
                continue
            for name, a, b in zip(names, base, values):
                if not np.allclose(a, b, rtol=1e-12, atol=1e-14, equal_nan=True):
                    differences.append(dict(what=name, one=a.ravel().tolist()[:6], other=b.ravel().tolist()[:6]))
        groups.append(dict(n=len(orders), differences=differences[:6]))
    return dict(id=scenario["id"], groups=groups)


def main():
    job = c.read_job()
    handler = dict(extract=extract, replay=replay)[job["what"]]
    results = []
    for s in job["scenarios"]:
        try:
            results.append(handler(s))
        except Exception as error:
            import traceback
            results.append(dict(id=s["id"], error=c.describe_error(error), traceback=traceback.format_exc()[-2500:]))
    c.write_result(results)


if __name__ == "__main__":
    main()
