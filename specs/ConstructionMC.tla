--------------------------- MODULE ConstructionMC ---------------------------
(* Idealised constructors, for every request with up to MaxUnusual unusual   *)
(* arguments; broken ones (Fault) are told from them.                        *)
EXTENDS Construction, Json
CONSTANTS MaxUnusual, MaxOps, Fault
VARIABLES kind, r, before, s, unusual, hist, bad
vars == <<kind, r, before, s, unusual, hist, bad>>

Initially(b) == IF b = "nothing" THEN "" ELSE b
Init == /\ kind \in Kinds /\ r = Usual /\ before \in Before /\ s = New(Initially(before))
        /\ unusual = {} /\ hist = <<>> /\ bad = {}

Choose == /\ hist = <<>> /\ Cardinality(unusual) < MaxUnusual
          /\ \E a \in Arguments(kind) \ unusual : \E x \in Values(a) \ {Usual[a]} :
                r' = [r EXCEPT ![a] = x] /\ unusual' = unusual \cup {a}
          /\ UNCHANGED <<kind, before, s, hist, bad>>

Accepts(q) ==
    LET lax == CASE Fault = "any-source" -> {"source"} [] Fault = "any-burn-in" -> {"burnIn"}
                 [] Fault = "any-seed" -> {"seed"} [] OTHER -> {}
        strict == IF Fault = "functions-only" THEN q.cost # "function" ELSE FALSE
    IN /\ \A a \in Arguments(kind) \ lax : q[a] \in Good[a]
       /\ ~strict
\* what the sampler there is, or the one that is asked for, was requested with
Asked(op) == IF op = "step" /\ "retry" \in {hist[i] : i \in DOMAIN hist} THEN Request(r, "retry") ELSE Request(r, op)
Observe(op) ==
    LET q == Asked(op)
        ok == IF op = "step" THEN TRUE ELSE Accepts(q)
        starts == IF s.values = "" THEN "initialised" ELSE IF Fault = "resets" /\ before = "assigned" THEN "initialised" ELSE s.values
    IN [ok |-> ok,
        values |-> IF op = "step" THEN ToString(Len(hist)) ELSE IF ok \/ Fault = "resets" THEN starts ELSE s.values,
        sample |-> ToString(Len(hist)), cost |-> 1, expCost |-> 1,
        elsewhere |-> IF Fault = "default-session" /\ q.session = "given" /\ op = "step" THEN "moved" ELSE "elsewhere",
        drawE |-> IF op = "step" \/ (Fault = "draws" /\ ok) THEN 1 ELSE 0,
        drawB |-> IF op = "step" /\ q.source # "none" THEN 1 ELSE 0]
Do(op) == /\ Enabled(s, op)
          /\ op = "construct" => hist = <<>>
          /\ op = "retry" => hist = <<"construct">>
          /\ LET o == Observe(op) IN
             /\ bad' = Clauses(kind, s, Asked(op), op, o, "initialised", "elsewhere")
             /\ s' = Apply(s, op, o)
          /\ hist' = Append(hist, op)
          /\ UNCHANGED <<kind, r, before, unusual>>
Next == Choose \/ (Len(hist) < MaxOps /\ \E op \in Ops : Do(op))
Spec == Init /\ [][Next]_vars
View == <<kind, r, before, s, hist, bad>>
ContractHolds == bad = {}
\* an invalid request leaves no sampler behind
NoSampler == (hist = <<"construct">> /\ ~Valid(kind, r)) => ~s.built
\* whatever was asked for first, a valid request follows it successfully
Recovers == Len(hist) >= 2 => s.built

\* requests to replay
CNext == Choose
GenSpec == Init /\ [][CNext]_vars
GView == <<kind, r, before>>
Emit == PrintT(ToJson([kind |-> kind, request |-> r, before |-> before, unusual |-> Cardinality(unusual)]))
=============================================================================
