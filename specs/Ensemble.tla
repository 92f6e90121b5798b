------------------------------ MODULE Ensemble ------------------------------
(* The life of a Bayesian neural network (C20, C21, C23, C25): construction,  *)
(* training, collection of the ensemble, prediction, and whatever else        *)
(* happens to the session in between.                                         *)
(* Parameter values, ensembles and predictions are named by tokens (strings). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

(* ---- the collection schedule ---- *)
\* Is the network collected after the sampler iteration with this 0-based index?
Due(c, i) == i > c.burnIn /\ i % c.interval = 0
RECURSIVE CollectFrom(_, _, _)
CollectFrom(c, i, sofar) ==
    IF i >= c.iters \/ Len(sofar) = c.nets THEN sofar
    ELSE CollectFrom(c, i + 1, IF Due(c, i) THEN Append(sofar, i) ELSE sofar)
Collected(c) == CollectFrom(c, 0, <<>>)
\* training stops as soon as the ensemble is complete
Steps(c) == LET got == Collected(c) IN IF Len(got) = c.nets THEN got[c.nets] + 1 ELSE c.iters

\* consequences: what users read out of the documentation
Complete(c) == LET due == {i \in 0..(c.iters - 1) : Due(c, i)} IN
    Len(Collected(c)) = IF Cardinality(due) < c.nets THEN Cardinality(due) ELSE c.nets
Ordered(c) == LET got == Collected(c) IN \A i, j \in DOMAIN got : i < j => got[i] < got[j]
AfterBurnIn(c) == \A i \in Range(Collected(c)) : i >= c.burnIn + 1 /\ i < c.iters
NoIdleSteps(c) == LET got == Collected(c) IN Steps(c) < c.iters => Steps(c) = got[Len(got)] + 1

(* ---- the life cycle ---- *)
Shapes == {"one", "three", "zero"}       \* numbers of dimensions that test inputs must not have
Ops == [op : {"train"}, data : {"a", "b"}]
       \cup [op : {"predict", "predict-individual"}, test : {"p", "q"}]
       \cup [op : {"predict-shape"}, shape : Shapes]
       \cup [op : {"step", "scramble", "numpy"}]
       \cup [op : {"tamper"}]                \* the caller overwrites all predictions it got and all data it passed
       \cup [op : {"train-fails"}, data : {"a", "b"}, at : {"source", "first", "last"}]

\* broken: the network was trained, and then training it again failed. What such a network predicts is left open.
\* tampered: the caller overwrote what it was handed after the last training
\* seen: kinds of calls since then, the first of each may still build something
NewBnn == [trained |-> FALSE, broken |-> FALSE, ensemble |-> <<>>, vars |-> "", tampered |-> FALSE, seen |-> {}]

Enabled(s, op) == CASE op.op \in {"step", "scramble"} -> s.trained /\ ~s.broken
                    [] op.op \in {"predict", "predict-individual"} -> s.trained => Len(s.ensemble) > 0 /\ ~s.broken
                    [] OTHER -> TRUE

\* predictions: one value per test point, individual ones also per collected network
Rows == [p |-> 4, q |-> 1]
OutShape(s, op) == LET one == IF op.op = "predict" THEN <<Rows[op.test]>> ELSE <<Len(s.ensemble), Rows[op.test]>>
                   IN <<one, one>>

\* states observed while training: the values after every iteration, preceded by the initial ones
Expected(c, states) == [i \in DOMAIN Collected(c) |-> states[Collected(c)[i] + 2]]

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* the iterations of a training that may add something to the graph: the first ones of each kind
\* (burning in, sampling, collecting)
FirstOfItsKind == 4

Clauses(c, s, op, o) ==
    Clause("C35.results-kept", o.kept) \cup
    (CASE op.op = "train" ->
            IF ~o.ok THEN {"ANY.trains"} ELSE
            Clause("C20.steps", Len(o.states) = Steps(c) + 1) \cup
            (IF Len(o.states) # Steps(c) + 1 THEN {} ELSE
             Clause("C20.collects-on-schedule", Range(o.ensemble) = Range(Expected(c, o.states)) /\
                                                Len(o.ensemble) = Len(Collected(c))) \cup
             Clause("C20.order", o.ensemble = Expected(c, o.states))) \cup
            Clause("C22.leaves-data", o.dataKept) \cup
            Clause("C36.training-adds-nothing", o.growing <= FirstOfItsKind) \cup
            Clause("C25.replaces-ensemble", \A x \in Range(o.ensemble) : x \in Range(o.states))
      \* the batch source fails: when it is created, or in the first or in the last step of the training
      [] op.op = "train-fails" -> Clause("C25.reports-failure", ~o.ok) \cup Clause("C22.leaves-data", o.dataKept)
      [] op.op \in {"predict", "predict-individual"} ->
            (IF ~s.trained THEN Clause("C25.refuses-untrained", ~o.ok) ELSE Clause("ANY.predicts", o.ok)) \cup
            (IF ~o.ok THEN {} ELSE Clause("C21.shape", o.shape = OutShape(s, op))) \cup
            Clause("C36.predictions-add-nothing", op.op \in s.seen => o.grown = 0) \cup
            Clause("C21.leaves-session", o.vars = s.vars) \cup
            Clause("C21.leaves-ensemble", o.ensemble = s.ensemble) \cup
            Clause("C22.leaves-data", o.dataKept)
      [] op.op = "predict-shape" ->
            Clause("C25.refuses-shape", ~o.ok) \cup
            Clause("C21.leaves-session", o.vars = s.vars) \cup
            Clause("C21.leaves-ensemble", o.ensemble = s.ensemble)
      [] op.op = "step" ->
            Clause("ANY.steps-on", o.ok) \cup
            Clause("C20.unaffected-by-later-steps", o.ensemble = s.ensemble)
      [] op.op = "tamper" -> Clause("C35.private", o.ensemble = s.ensemble /\ o.vars = s.vars)
      [] OTHER -> Clause("C20.unaffected-by-later-steps", o.ensemble = s.ensemble))

Apply(s, op, o) == [trained |-> s.trained \/ (op.op = "train" /\ o.ok),
                    broken |-> CASE op.op = "train" -> FALSE
                                 [] op.op = "train-fails" -> s.trained
                                 [] OTHER -> s.broken,
                    tampered |-> CASE op.op \in {"train", "train-fails"} -> FALSE
                                   [] op.op = "tamper" -> TRUE
                                   [] OTHER -> s.tampered,
                    seen |-> IF op.op \in {"train", "train-fails"} THEN {} ELSE s.seen \cup {op.op},
                    ensemble |-> o.ensemble, vars |-> o.vars]

\* predictions are a function of the ensemble, the training data's scale and the test inputs
PredictionKey(s, op, data) == <<s.ensemble, data, op.op, op.test>>

(* ---- construction ---- *)
Good == [nets |-> {"1", "7"}, iters |-> {"1", "50"}, burnIn |-> {"0", "1", "50"}, interval |-> {"1", "7"},
         batch |-> {"1", "7"}, net |-> {"function", "object"}, source |-> {"function", "object"},
         method |-> {"SGHMC", "SGLD"}]
Whole == {"zero", "negative", "float", "string", "none"}
Bad == [nets |-> Whole, iters |-> Whole, burnIn |-> Whole \ {"zero"}, interval |-> Whole, batch |-> Whole,
        net |-> {"none", "string", "number"}, source |-> {"none", "string", "number"},
        method |-> {"name", "none", "number", "other-enum", "lower-case"}]
Accepts(r) == \A a \in DOMAIN r : r[a] \in Good[a]
=============================================================================
