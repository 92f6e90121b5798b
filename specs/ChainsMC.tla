----------------------------- MODULE ChainsMC -----------------------------
(* Idealised traces and extraction; all short histories, and histories to replay. *)
EXTENDS Chains, Json

CONSTANTS MaxOps, Fault
VARIABLES s, hist, bad
vars == <<s, hist, bad>>

ParamLists == {<<"w:0">>, <<"w:0", "b:0">>, <<"b:0", "c:0", "a:0">>}
Names == {<<>>, NoNames, <<"y">>, <<"y", "x">>, <<"x", "z", "y">>, <<"x", "z", "y", "a">>}
DrawLists == {<<>>, <<4>>, <<1, 2>>, <<3, 1, 2>>, <<2, 5, 5, 1, 4>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, [j \in 1..40 |-> 1 + ((7 * j) % 41)]}
Forms == {"lists", "tuples", "array", "bare", "generator"}
Ops == [op : {"make"}, chain : {0, 3}, width : 0..3, draws : DrawLists, names : Names, form : Forms] \cup
       [op : {"step"}, n : {1, 3}] \cup
       [op : {"extract"}, chain : {0, 7}, n : {0, 1, 2, 5, 11}, k : {1, 2, 3, 3, 11, 16, 37}, names : Names] \cup
       [op : {"values"}, of : 1..3, name : {"x", "y", "z", "0", "1", "w:0", "b:0", "a:0"}, burn : {0, 1, 2, 9, 23}, thin : {1, 2, 3, 12}] \cup
       [op : {"index"}, of : 1..3, index : {-1, 0, 1, 2, 3}] \cup
       [op : {"point"}, of : 1..3, draw : {1, 2, 4, 33, -1, -2, -5}] \cup
       [op : {"length"}, of : 1..3] \cup
       [op : {"slice"}, of : 1..3, from : 0..2, to : 0..3, step : {1, 2, -1}] \cup
       [op : {"multi"}, fun : {"multitrace", "effective_n", "gelman_rubin"}, chains : {1, 2, 3, 5, 12}, n : {1, 3, 7}, k : {0, 1, 4, 23},
        names : Names, burnt : {0, 2, 5}]

\* the operations of the exhaustive check: one of each kind of equivalent ones
Design == [op : {"make"}, chain : {3}, width : 0..3, draws : {<<>>, <<3, 1, 2>>, <<2, 5, 5, 1, 4>>},
           names : {<<>>, NoNames, <<"y", "x">>, <<"x", "z", "y">>}, form : {"lists"}] \cup
          [op : {"step"}, n : {3}] \cup
          [op : {"extract"}, chain : {7}, n : {0, 2, 5}, k : {1, 3}, names : {<<>>, <<"y", "x">>}] \cup
          [op : {"values"}, of : 1..3, name : {"x", "y", "1", "w:0", "b:0"}, burn : {0, 2, 9}, thin : {1, 2}] \cup
          {op \in Ops : op.op \in {"index", "length"} \/ (op.op = "point" /\ op.draw \in {2, -1}) \/ (op.op = "slice" /\ op.to # 1 /\ (op.step # 2 \/ op.from = 0))} \cup
          [op : {"multi"}, fun : {"multitrace"}, chains : {2}, n : {1, 3}, k : {0, 4}, names : {<<>>, <<"y", "x">>},
           burnt : {0, 2}]

\* combinations that can occur
Sensible(op) ==
    /\ op.op = "make" => /\ (op.form = "bare" => op.width <= 1)
                         /\ op.form \in {"array", "generator"} => op.draws # <<>> /\ op.width > 0
    /\ op.op = "multi" => /\ (op.fun # "multitrace" => op.k = 0 /\ op.names = <<>>)
                          /\ Fits(op.names, Len(s.params))
\* thinning gives an idealised sampler the choice of steps to take after the last draw
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y

\* what (possibly broken) implementations show
Show(tr) == [chain |-> IF Fault = "chain-ids" THEN tr.chain + 1 ELSE tr.chain, names |-> tr.names, length |-> Len(tr.draws),
             columns |-> [v \in DOMAIN tr.names |->
                          Column(tr, IF Fault = "columns" /\ Len(tr.names) = 3 /\ v > 1 THEN 5 - v ELSE v)]]
Draws(pos, n, k) == IF Fault = "late" THEN [j \in 1..n |-> pos + j * k] ELSE Thinned(pos, n, k)
Ideal(op) ==
    LET tr == IF "of" \in DOMAIN op THEN s.traces[op.of] ELSE Trace(0, <<>>, <<>>)
    IN CASE op.op = "make" -> [ok |-> Accepted(op) \/ (Fault = "accepts" /\ op.width > 0), trace |-> Show(Made(op))]
         [] op.op = "extract" -> [ok |-> Width(s, op), pos |-> Least(Positions(s, op)), grown |-> IF Fault = "grows" THEN 1 ELSE 0,
                                  trace |-> Show([Extracted(s, op) EXCEPT !.draws = Draws(s.pos, op.n, op.k)])]
         [] op.op = "step" -> [ok |-> TRUE, pos |-> s.pos + op.n]
         [] op.op = "length" -> [ok |-> TRUE, length |-> Len(tr.draws)]
         [] op.op = "values" ->
               [ok |-> Has(tr.names, op.name),
                values |-> IF ~Has(tr.names, op.name) THEN <<>> ELSE
                           Pairs(IF Fault = "thin-first" THEN Kept(Kept(tr.draws, 0, op.thin), op.burn, 1)
                                 ELSE Kept(tr.draws, op.burn, op.thin), Index(tr.names, op.name))]
         [] op.op = "index" -> [ok |-> op.index \in 0..Len(tr.names) - 1 \/ (Fault = "wraps" /\ op.index = -1),
                                values |-> IF op.index \in 0..Len(tr.names) - 1 THEN Column(tr, op.index + 1) ELSE <<>>]
         [] op.op = "point" -> [ok |-> TRUE, point |-> [v \in DOMAIN tr.names |-> <<tr.names[v], Draw(tr.draws, op.draw), v>>]]
         [] op.op = "slice" -> LET kept == Sliced(tr.names, op)
                                   places == Places(Len(tr.names), op.from, op.to, op.step) IN
               [ok |-> TRUE, trace |-> [chain |-> tr.chain, names |-> kept, length |-> Len(tr.draws),
                columns |-> [v \in DOMAIN kept |-> Column(tr, IF Fault = "projects" THEN v ELSE places[v])]]]
         [] OTHER ->
               [ok |-> TRUE, asked |-> op.fun, result_is_passed_on |-> TRUE,
                calls |-> [c \in 1..op.chains |-> [fresh |-> Fault # "one-graph" \/ c = 1, own_session |-> TRUE, closed |-> TRUE,
                                                   undisturbed |-> Fault # "resets" \/ op.burnt = 0,
                                                   pos |-> op.burnt + op.n * Keep(op)]],
                traces |-> [c \in 1..op.chains |->
                            Show(Trace(c - 1, Draws(op.burnt, op.n, Keep(op)), IF op.names = <<>> THEN s.params ELSE op.names))]]

Init == \E p \in ParamLists : s = Nothing(p) /\ hist = <<>> /\ bad = {}
Do(op) == /\ Enabled(s, op) /\ Sensible(op)
          /\ LET obs == Ideal(op)
                 after == Apply(s, op, Most(Positions(s, op)))
             IN /\ bad' = Clauses(s, op, obs)
                /\ Len(after.traces) <= 3
                /\ s' = after
          /\ hist' = Append(hist, op)
Next == Len(hist) < MaxOps /\ \E op \in Design : Do(op)
Spec == Init /\ [][Next]_vars
View == <<s, bad, Len(hist)>>
ContractHolds == bad = {}

\* the accessors agree: looked at by name, by index and draw by draw a trace is the same
Agree == \A tr \in Range(s.traces) : \A v \in DOMAIN tr.names : \A j \in DOMAIN tr.draws :
           /\ Column(tr, v)[j] = <<tr.draws[j], v>>
           /\ Pairs(Kept(tr.draws, 0, 1), Index(tr.names, tr.names[v])) = Column(tr, v)
           \* dropping and thinning at once is dropping first, and thinning what is left
           /\ \A b \in 0..3, k \in 1..3 : Kept(tr.draws, b, k) = Kept(Kept(tr.draws, b, 1), 0, k)
\* recorded chains only move forward
Forward == [][s'.pos >= s.pos /\ Len(s'.traces) >= Len(s.traces)
              /\ \A i \in DOMAIN s.traces : s'.traces[i] = s.traces[i]]_vars

---------------------------------------------------------------------------
Rarely(n) == RandomElement(1..n) = 1
\* requests that are rejected are useful, but few of them suffice
Doable(op) == /\ Enabled(s, op) /\ Sensible(op)
              /\ Len(Apply(s, op, Most(Positions(s, op))).traces) <= 3
              /\ (op.op = "make" => Accepted(op) \/ Rarely(8))
              /\ (op.op = "extract" => Width(s, op) \/ Rarely(8))
              /\ (op.op = "values" => Has(s.traces[op.of].names, op.name) \/ Rarely(6))
              /\ (op.op = "index" => op.index < Len(s.traces[op.of].names) \/ Rarely(3))
              /\ (op.op = "multi" => \A j \in DOMAIN hist : hist[j].op # "multi")
\* kinds of operations, some of which are rarely doable
Kinds == <<"make", "extract", "make", "extract", "step", "make", "values", "values", "values", "values", "values", "values",
           "values", "index", "point", "length", "slice", "slice", "multi", "multi">>
GenNext == /\ Len(hist) < MaxOps
           /\ \E kind \in {Kinds[RandomElement(1..IF Len(hist) < 2 THEN 5 ELSE Len(Kinds))]} :
              \E op \in {RandomElement({o \in Ops : o.op = kind})} :
                IF ~Doable(op) THEN UNCHANGED vars
                ELSE s' = Apply(s, op, Most(Positions(s, op))) /\ hist' = Append(hist, op) /\ UNCHANGED bad
Finish == bad = {} /\ Len(hist) >= MaxOps /\ bad' = {"emit"} /\ UNCHANGED <<s, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars
Emit == bad = {"emit"} => PrintT(ToJson([params |-> s.params, ops |-> hist]))
===========================================================================
