---------------------------- MODULE EnsembleTrace ----------------------------
(* Validates recorded lives of real networks, and compares lives with each     *)
(* other: `ensembles` maps what an ensemble may depend on to the ensembles     *)
(* seen, `predictions` what a prediction may depend on to those seen.          *)
EXTENDS Ensemble, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, data, trainings, ensembles, predictions
vars == <<t, i, s, data, trainings, ensembles, predictions>>
Tr == Traces[t]
Event == Tr.events[i]
Report(clauses) == IF clauses = {} THEN TRUE
                   ELSE PrintT(ToJson([reject |-> Tr.id, event |-> i, clauses |-> clauses]))
Fresh == /\ i' = 1 /\ s' = NewBnn /\ data' = "" /\ trainings' = 0
Start == /\ t = 1 /\ i = 1 /\ s = NewBnn /\ data = "" /\ trainings = 0 /\ ensembles = <<>> /\ predictions = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Construct == /\ Tr.what = "construct" /\ t' = t + 1 /\ Fresh
             /\ Report(Clause("C25.invalid-arguments", Accepts(Tr.request) \/ ~Tr.accepted) \cup
                       Clause("C25.valid-arguments", Accepts(Tr.request) => Tr.accepted))
             /\ UNCHANGED <<ensembles, predictions>>

\* Only the first training in a fresh graph is covered: later ones leave random number generators in other states.
Seeded(op) == op.op = "train" /\ Tr.seed # "none" /\ trainings = 0
Key(op) == <<Tr.cfg, Tr.variant, op.data>>
Ensembles(op, o) ==
    IF ~Seeded(op) \/ ~o.ok THEN {} ELSE
    LET known == IF Key(op) \in DOMAIN ensembles THEN ensembles[Key(op)] ELSE {}
        run == <<Tr.seed, o.states, o.ensemble>>
    IN Clause("C23.same-seed-same-ensemble", \A k \in known : k[1] = Tr.seed => k = run) \cup
       Clause("C23.different-seeds-differ", \A k \in known : k[1] # Tr.seed => k[2] # o.states)
\* values of chains that diverged are not told apart by their tokens
Finite(o) == "nonfinite" \notin Range(o.ensemble) \cup {o.out, o.apart}
Predictions(op, o) ==
    IF op.op \notin {"predict", "predict-individual"} \/ ~o.ok \/ ~Finite(o) THEN {} ELSE
    LET key == <<Tr.variant, PredictionKey(s, op, data)>>
    IN Clause("C21.function-of-ensemble", key \in DOMAIN predictions => predictions[key] = o.out) \cup
       Clause("C35.later-predictions", s.tampered /\ key \in DOMAIN predictions => predictions[key] = o.out) \cup
       Clause("C21.single-points", o.apart = o.out)

Live == /\ Tr.what = "life" /\ i <= Len(Tr.events)
        /\ LET op == Event.op
               o == Event.obs IN
           /\ Report(Clauses(Tr.cfg, s, op, o) \cup Ensembles(op, o) \cup Predictions(op, o))
           /\ s' = Apply(s, op, o)
           /\ data' = IF op.op = "train" THEN op.data ELSE data
           /\ trainings' = IF op.op \in {"train", "train-fails"} THEN trainings + 1 ELSE trainings
           /\ ensembles' = IF Seeded(op) /\ o.ok
                           THEN Put(ensembles, Key(op),
                                    (IF Key(op) \in DOMAIN ensembles THEN ensembles[Key(op)] ELSE {}) \cup
                                    {<<Tr.seed, o.states, o.ensemble>>})
                           ELSE ensembles
           /\ predictions' = IF op.op \in {"predict", "predict-individual"} /\ o.ok /\ s.trained
                             THEN Put(predictions, <<Tr.variant, PredictionKey(s, op, data)>>, o.out) ELSE predictions
        /\ i' = i + 1 /\ t' = t
End == Tr.what = "life" /\ i > Len(Tr.events) /\ t' = t + 1 /\ Fresh /\ UNCHANGED <<ensembles, predictions>>
Next == t <= Len(Traces) /\ (Construct \/ Live \/ End)
Spec == Start /\ [][Next]_vars
=============================================================================
