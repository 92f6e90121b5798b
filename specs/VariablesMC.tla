--------------------------- MODULE VariablesMC ---------------------------
(* Idealised variables; all histories up to MaxOps, and histories to replay. *)
EXTENDS Variables, TLC, Json

CONSTANTS MaxOps, MaxVars, Fault
VARIABLES shape, s, hist, bad
vars == <<shape, s, hist, bad>>

Contents == {1, 2, 3}
Asked == {<<1>>, <<2, 1>>, <<1, 2>>, <<2>>, <<3, 1>>, <<1, 3, 2>>, <<2, 3>>, <<1, 2, 3, 4>>, <<4, 2>>, <<3>>}
Junk == {"list", "array", "number", "string", "none"}
Ops == [op : {"create"}, content : Contents] \cup
       [op : {"vectorize", "initialize", "read", "column", "restore"}, of : 1..MaxVars] \cup
       [op : {"assign"}, of : 1..MaxVars, content : Contents] \cup
       [op : {"query"}, asked : Asked] \cup
       [op : {"reject"}, what : Junk]

\* what broken implementations would show
Ideal(op) ==
    LET after == Apply(s, op)
        content(i) == IF ~after[i].ready THEN 0
                      ELSE IF Fault = "aliased" /\ after[i].origin # 0 /\ after[after[i].origin].ready
                           THEN after[after[i].origin].value
                      ELSE IF Fault = "initial-value" /\ op.op = "initialize" /\ op.of = i /\ after[i].origin # 0
                           THEN after[after[i].origin].initial
                      ELSE after[i].value
        missing(q) == IF Fault = "drops-copies" THEN Select(q, LAMBDA i : ~after[i].ready /\ after[i].origin = 0)
                      ELSE IF Fault = "sorted" /\ Len(q) = 2 /\ q[1] > q[2] THEN Missing(after, <<q[2], q[1]>>)
                      ELSE Missing(after, q)
    IN [ok |-> op.op # "reject" \/ Fault = "accepts",
        contents |-> [i \in DOMAIN after |-> content(i)], all |-> missing([i \in DOMAIN after |-> i]),
        content |-> IF op.op \in {"read", "column", "restore"} THEN content(op.of) ELSE 0,
        shape |-> IF op.op = "read" THEN (IF Fault = "flat" THEN <<Count(shape)>> ELSE Shape(shape, s, op.of))
                  ELSE IF op.op = "restore" THEN shape ELSE Column(shape),
        variable |-> TRUE, missing |-> IF op.op = "query" THEN missing(op.asked) ELSE <<>>]

Init == shape \in {<<>>, <<2, 3>>} /\ s = <<>> /\ hist = <<>> /\ bad = {}
Do(op) == /\ Enabled(s, op)
          /\ Len(Apply(s, op)) <= MaxVars
          /\ bad' = Clauses(shape, s, op, Ideal(op))
          /\ s' = Apply(s, op)
          /\ hist' = Append(hist, op)
          /\ UNCHANGED shape
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
View == <<shape, s, bad, Len(hist)>>
ContractHolds == bad = {}
ASSUME \A sh \in Shapes : RowMajor(sh)
\* initialised variables never become uninitialised
Stays == [][\A i \in DOMAIN s : s[i].ready => s'[i].ready]_vars

---------------------------------------------------------------------------
\* crowds: many variables, of which ever more are initialised, asked for in any order
Pick(S) == RandomElement(S)
CrowdOps == {[op |-> "populate", n |-> Pick(5..40), content |-> Pick(Contents)],
             [op |-> "settle", first |-> Pick(1..MaxVars), every |-> Pick({1, 2, 3, 7, 30})],
             [op |-> "vectorize", of |-> Pick(1..MaxVars)],
             [op |-> "assign", of |-> Pick(1..MaxVars), content |-> Pick(Contents)]} \cup
            (IF s = <<>> THEN {} ELSE
             LET n == Len(s)
                 stride == Pick({1, 2, 3})
             IN {[op |-> "query", asked |-> [k \in 1..n |-> n + 1 - k]],
                 [op |-> "query", asked |-> [k \in 1..n |-> k]],
                 [op |-> "query", asked |-> [k \in 1..((n - 1) \div stride + 1) |-> 1 + (k - 1) * stride]]})
CrowdInit == shape \in {<<>>, <<2>>, <<1, 2>>} /\ s = <<>> /\ hist = <<>> /\ bad = {}
CrowdNext == /\ Len(hist) < MaxOps
             /\ \E op \in {RandomElement(CrowdOps)} :
                  IF Enabled(s, op) /\ Len(Apply(s, op)) <= MaxVars /\ (hist = <<>> => op.op = "populate")
                  THEN s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<shape, bad>>
                  ELSE UNCHANGED vars
---------------------------------------------------------------------------
GenInit == shape \in Shapes /\ s = <<>> /\ hist = <<>> /\ bad = {}
GenNext == /\ Len(hist) < MaxOps
           /\ \E op \in Ops :
                /\ Enabled(s, op) /\ Len(Apply(s, op)) <= MaxVars
                /\ (hist = <<>> => op.op = "create")
                /\ s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED <<shape, bad>>
Finish == Len(hist) = MaxOps /\ bad = {} /\ bad' = {"emit"} /\ UNCHANGED <<shape, s, hist>>
GenSpec == GenInit /\ [][GenNext \/ Finish]_vars
CrowdSpec == CrowdInit /\ [][CrowdNext \/ Finish]_vars
Emit == bad = {"emit"} => PrintT(ToJson([shape |-> shape, ops |-> hist]))
==========================================================================
