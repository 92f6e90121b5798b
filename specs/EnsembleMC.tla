----------------------------- MODULE EnsembleMC -----------------------------
(* The idealised network: checks the schedule's consequences for all small    *)
(* configurations and the contract for all short lives, rejects broken        *)
(* designs (Fault), and generates configurations, lives and constructions.    *)
EXTENDS Ensemble, Json
CONSTANTS MaxOps, MaxIters, MaxNets, Fault
VARIABLES c, s, hist, bad, data
vars == <<c, s, hist, bad, data>>

Configs == [iters : 1..MaxIters, burnIn : 0..MaxIters, interval : 1..MaxIters, nets : 1..MaxNets]

\* ---- all configurations
SInit == c \in Configs /\ s = NewBnn /\ hist = <<>> /\ bad = {} /\ data = ""
SSpec == SInit /\ [][UNCHANGED vars]_vars
Schedules == Complete(c) /\ Ordered(c) /\ AfterBurnIn(c) /\ NoIdleSteps(c)
EmitSchedule == PrintT(ToJson(c))

\* ---- all short lives
State(run, i) == ToString(<<run, i>>)
Chain(run) == [i \in 1..(Steps(c) + (IF Fault = "runs-on" THEN 2 ELSE 1)) |-> State(run, i - 1)]
Broken(e) ==
    CASE Fault = "live" -> [i \in DOMAIN e |-> e[Len(e)]]
      [] Fault = "reversed" -> [i \in DOMAIN e |-> e[Len(e) - i + 1]]
      [] Fault = "keeps-old" -> s.ensemble \o e
      [] OTHER -> e
Early(run) == [i \in DOMAIN Collected(c) |-> State(run, Collected(c)[i])]
Ideal(op) ==
    LET run == Len(hist)
        e == IF Fault = "early" THEN Early(run) ELSE Broken(Expected(c, Chain(run)))
    IN CASE op.op = "train" -> [ok |-> TRUE, states |-> Chain(run), dataKept |-> TRUE, ensemble |-> e, vars |-> State(run, Steps(c))]
         [] op.op = "train-fails" ->
                [ok |-> Fault = "swallows", dataKept |-> TRUE, vars |-> State(run, 0),
                 ensemble |-> IF op.at = "last" THEN SubSeq(e, 1, Len(e) - 1) ELSE <<>>]
         [] op.op \in {"predict", "predict-individual"} ->
                [ok |-> \/ s.trained \/ Fault = "predicts-untrained"
                        \/ Fault = "trained-too-early" /\ \E k \in DOMAIN hist : hist[k].op = "train-fails", ensemble |-> s.ensemble, dataKept |-> TRUE,
                 shape |-> OutShape(s, op),
                 vars |-> IF Fault = "assigns-variables" /\ Len(s.ensemble) > 0 THEN s.ensemble[1] ELSE s.vars]
         [] op.op = "predict-shape" -> [ok |-> FALSE, ensemble |-> s.ensemble, vars |-> s.vars]
         [] op.op = "tamper" -> [ok |-> TRUE, vars |-> s.vars,
                                 ensemble |-> IF Fault = "shares" /\ "predict" \in s.seen THEN <<"overwritten">> ELSE s.ensemble]
         [] op.op = "numpy" -> [ok |-> TRUE, ensemble |-> s.ensemble, vars |-> s.vars]
         [] OTHER -> [ok |-> TRUE, vars |-> ToString(<<"later", run>>),
                      ensemble |-> IF Fault = "aliased" THEN [i \in DOMAIN s.ensemble |-> ToString(run)] ELSE s.ensemble]
\* what can be seen after every call: earlier results, and how the graph grew (in one call; in how many iterations)
Obs(op) == Ideal(op) @@ [kept |-> Fault # "reuses-buffer" \/ ~(op.op = "predict" /\ op.op \in s.seen),
                         grown |-> IF Fault = "grows" THEN 2 ELSE 0,
                         growing |-> IF Fault = "grows-in-training" THEN Steps(c) ELSE 0]

Init == /\ c \in [iters : {4, 7}, burnIn : {0, 1}, interval : {1, 2}, nets : {1, 3}]
        /\ s = NewBnn /\ hist = <<>> /\ bad = {} /\ data = ""
Do(op) == /\ Enabled(s, op)
          /\ bad' = bad \cup Clauses(c, s, op, Obs(op))
          /\ s' = Apply(s, op, Obs(op))
          /\ hist' = Append(hist, op) /\ UNCHANGED <<c, data>>
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
ContractHolds == bad = {}

\* ---- generated lives; every prefix of operations is possible, training is likely
GInit == /\ c \in [iters : {6, 11, 20}, burnIn : {0, 2, 5}, interval : {1, 2, 3}, nets : {1, 2, 5}]
         /\ s = NewBnn /\ hist = <<>> /\ bad = {} /\ data = ""
Steady(op) == /\ op.op = "train" => (Len(hist) % 5 = 1)
              /\ op.op = "train-fails" => (Len(hist) % 5 = 0)
GNext == Len(hist) < MaxOps /\ \E op \in {o \in Ops : Steady(o)} : Do(op)
GenSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxOps => PrintT(ToJson([cfg |-> c, ops |-> hist, steps |-> Steps(c)]))

\* ---- constructions with up to two unusual arguments
Usual == [nets |-> "7", iters |-> "50", burnIn |-> "1", interval |-> "7", batch |-> "7", net |-> "function",
          source |-> "function", method |-> "SGHMC"]
Values(a) == Good[a] \cup Bad[a]
Constructions == {Usual} \cup {[Usual EXCEPT ![a] = x] : a \in DOMAIN Usual, x \in UNION {Values(b) : b \in DOMAIN Usual}}
Fits(r) == \A a \in DOMAIN r : r[a] \in Values(a)
CInit == c = Usual /\ s = NewBnn /\ hist = <<>> /\ bad = {} /\ data = ""
CNext == /\ Len(hist) < 2
         /\ \E a \in DOMAIN Usual : \E x \in Values(a) :
                /\ (Len(hist) = 1 => hist[1] # a) /\ x # c[a]
                /\ c' = [c EXCEPT ![a] = x] /\ hist' = Append(hist, a)
         /\ UNCHANGED <<s, bad, data>>
ConstructSpec == CInit /\ [][CNext]_vars
EmitConstruction == PrintT(ToJson(c))
CView == c
=============================================================================
