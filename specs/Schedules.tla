---------------------------- MODULE Schedules ----------------------------
(* A constant stepsize schedule under every caller history up to MaxOps   *)
(* operations: it yields its initial value for ever, whatever it is told, *)
(* and schedules do not influence each other.                             *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, Values
VARIABLES init, hist

Slots == DOMAIN init
Ops == [op : {"next"}, slot : {1, 2}] \cup [op : {"iter"}, slot : {1, 2}]
       \cup [op : {"update"}, slot : {1, 2}, with : {"nothing", "sample-cost", "keywords"}]

Init == init \in [{1, 2} -> Values] /\ hist = <<>>
Step(o) == hist' = Append(hist, [op |-> o, out |-> IF o.op = "next" THEN init[o.slot] ELSE 0])
           /\ init' = init
Done == Len(hist) = MaxOps /\ UNCHANGED <<init, hist>>
        /\ PrintT(ToJson([init |-> init, hist |-> hist]))
Next == (Len(hist) < MaxOps /\ \E o \in Ops : Step(o)) \/ Done
Spec == Init /\ [][Next]_<<init, hist>>

Constant == \A i \in 1..Len(hist) : hist[i].op.op = "next" => hist[i].out = init[hist[i].op.slot]
==========================================================================
