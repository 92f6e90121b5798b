"""All checks, with what MANIFEST.json says about them."""
import dynamics
import protocol

CHECKS, INFO, NOT_APPLICABLE = {}, {}, {}


def register(prop, fun, technique, level, note):
    CHECKS[prop] = fun
    INFO[prop] = dict(technique=technique, level=level, note=note)


PROTOCOL = ("TLA+ protocol specification: exhaustive TLC check, generated caller histories replayed into the real "
            "samplers, TLC trace validation")
PROTOCOL_NOTE = ("The contract is checked for all caller histories up to a small bound on an idealised sampler; real samplers "
                 "are bound to it by validating every recorded event of generated histories. Trusts numpy and TensorFlow "
                 "kernels.")
DYNAMICS = ("Quint specification of the update rules in exact fixed-point arithmetic: behaviours simulated with invariants, "
            "replayed step by step into the real samplers with scripted noise")
DYNAMICS_NOTE = ("Bound by replay of sampled behaviours (quadratic targets, four elements), compared at 2e-10; not exhaustive. "
                 "Trusts TensorFlow kernels and its random number distribution.")

for prop in ("C01", "C02", "C03"):
    register(prop, protocol.run(prop), PROTOCOL, "model_checking", PROTOCOL_NOTE)
register("C04", protocol.stepsizes, PROTOCOL + "; " + DYNAMICS, "model_checking", PROTOCOL_NOTE)
register("C15", protocol.feeds, PROTOCOL + "; " + DYNAMICS, "model_checking", PROTOCOL_NOTE)
for prop, fun in (("C06", dynamics.sghmc), ("C07", dynamics.sgld), ("C08", dynamics.relativistic), ("C09", dynamics.svgd)):
    register(prop, fun, DYNAMICS, "model_checking", DYNAMICS_NOTE)
register("C12", lambda: dynamics.shaped("C12"), DYNAMICS + ", once per grouping of the elements into parameters",
         "model_checking", DYNAMICS_NOTE)

COEXIST = ("TLA+ specification of coexisting samplers: exhaustive TLC check of all interleavings up to a bound, generated "
           "interleavings and their single-sampler projections replayed, TLC trace validation")
COEXIST_NOTE = ("Outcomes are compared between interleaved and solitary runs (and between processes) at relative 1e-9; the "
                "interleavings replayed are a sample of the specification's behaviours.")
import coexist  # noqa: E402
for prop in ("C10", "C13", "C14"):
    register(prop, coexist.run(prop), COEXIST, "model_checking", COEXIST_NOTE)
import dataflow  # noqa: E402
register("C05", dataflow.run, "TLA+ model of the dataflow executor over the accesses extracted from real step graphs: TLC "
         "explores all interleavings; generated schedules and all races found are replayed in the real executor",
         "model_checking", "Exhaustive over the orders of accesses to every variable of the sampled configurations; assumes "
         "atomic operations and order-preserving graph rewrites.")
import freshness  # noqa: E402
register("C11", freshness.run, "TLA+ specification of noise streams checked with TLC; noise recorded from real samplers on flat "
         "costs validated against it (no repetition, plausible counts)", "model_checking",
         "Freshness of the recorded draws is decided exactly; centring, scale and independence statistically with error "
         "probability below 1e-6 per run.")
import factory  # noqa: E402
register("C16", factory.run, "TLA+ specification of argument resolution: TLC enumerates all requests, they are replayed into "
         "the real factory and the recorded constructions validated against it", "model_checking",
         "Every subset of given arguments up to the bound on falsy and unknown ones; thorough replays all of them, quick a sample.")
import batches  # noqa: E402
for prop in ("C17", "C18", "C19"):
    register(prop, batches.run(prop), "TLA+ specification of minibatch streams: exhaustive TLC check of all interleavings up to a "
             "bound, generated interleavings replayed into the real generators, TLC trace validation", "model_checking",
             "Rows and labels are identified exactly by their values; the interleavings and datasets replayed are a sample.")
import ensemble  # noqa: E402
for prop in ("C20", "C21", "C23", "C25"):
    register(prop, ensemble.run(prop), "TLA+ specification of a network's life: all schedules and short lives checked with TLC, "
             "generated lives and constructions replayed into real networks, TLC trace validation", "model_checking",
             "The chain is observed through the session before every step; lives replayed are a sample of the "
             "specification's.")
import network  # noqa: E402
NETWORK = ("Quint specification of a small Bayesian neural network in exact fixed-point arithmetic (standardisation, objective, "
           "gradient, chain, ensemble, predictions): behaviours simulated with invariants, replayed into real networks with "
           "scripted noise and minibatches")
for prop, fun in (("C22", network.c22), ("C24", network.c24)):
    register(prop, fun, NETWORK, "model_checking", "Bound by replay of sampled experiments (five weights, two inputs, up to five "
             "datapoints); not exhaustive. Trusts numpy and TensorFlow kernels.")
import variables  # noqa: E402
for prop in ("C26", "C33"):
    register(prop, variables.run(prop), "TLA+ specification of variables, vectorised copies and initialisation: exhaustive TLC "
             "check of all histories up to a bound, generated histories replayed with real variables, TLC trace validation",
             "model_checking", "Contents are recognised exactly; all shapes up to rank 3 and extent 3, the histories replayed "
             "are a sample.")
import helpers  # noqa: E402
for prop, fun in (("C27", helpers.distances), ("C28", helpers.guards)):
    register(prop, fun, "Quint specification of distances, medians and guarded arithmetic in exact integers: arguments and results "
             "simulated with invariants and replayed into the real functions", "model_checking",
             "Not exhaustive: arguments are a sample of the specification's (special values around the guards included).")
import chains  # noqa: E402
for prop in ("C29", "C30", "C31"):
    register(prop, chains.run(prop), "TLA+ specification of traces, their accessors and chain extraction: exhaustive TLC check of short "
             "histories, generated histories replayed with real traces and samplers, TLC trace validation", "model_checking",
             "pymc3 is missing here, its MultiTrace and diagnostics are stand-ins that record what they get; the histories "
             "replayed are a sample.")
import model  # noqa: E402
register("C32", model.run("C32"), "TLA+ specification of a model's data (training, updates, incumbent, export, shape checks): exhaustive "
         "TLC check of short histories, generated histories replayed with real models, TLC trace validation", "model_checking",
         "Histories replayed are a sample of the specification's; models are minimal subclasses of BaseModel.")
import objectives  # noqa: E402
register("C34", objectives.run, "Quint specification of the objective functions in exact fixed-point arithmetic: points simulated with "
         "the documented optima as invariants and replayed into the real functions", "model_checking",
         "Points are a sample of each function's domain, its optima and their vicinity.")
for prop, what in (("C35", "earlier results are compared with copies after every operation and overwritten by the caller"),
                   ("C36", "the graph's operations are counted around every call")):
    register(prop, protocol.results(prop), PROTOCOL + "; the same for the life of a network and (C36) chain extraction: " + what,
             "model_checking", PROTOCOL_NOTE)
import construction  # noqa: E402
register("C37", construction.run, "TLA+ specification of construction requests: TLC enumerates them, they are replayed into the real "
         "constructors (and steps after them), TLC trace validation", "model_checking",
         "All requests with one unusual argument and a sample (thorough: all) of those with two; one representative per kind of value.")
import defaultnet  # noqa: E402
register("C38", defaultnet.run, "Quint specification of the default network in exact fixed-point arithmetic: weights and points simulated "
         "with invariants and replayed into the real network, alone and inside a Bayesian neural network", "model_checking",
         "Weights follow patterns; behaviours are a sample of the specification's. The initialiser of tensorflow.contrib, which is "
         "missing here, is a stand-in.")
import moments  # noqa: E402
register("C39", moments.run, "Quint specification of the moments of chains on quadratic targets in exact fixed-point arithmetic: simulated "
         "with invariants, compared with thousands of elements sampled by the real samplers with their own noise", "model_checking",
         "Statistical: 40000 elements per chain at 6.5 standard errors; configurations are a sample of the specification's.")
