--------------------------- MODULE FreshnessMC ---------------------------
(* The design: one stream per parameter, told apart by an offset of the     *)
(* seed; a stream never repeats.  All designs of Fault are rejected.        *)
EXTENDS Freshness
CONSTANTS MaxSteps, Fault
VARIABLES sizes, seed, counter, draws
vars == <<sizes, seed, counter, draws>>
Params == 1..Len(sizes)
Init == /\ sizes \in {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 1, 2>>}
        /\ seed \in {0, 1}
        /\ counter = [p \in 1..3 |-> 0] /\ draws = <<>>
Stream(p) == CASE Fault = "same-stream" -> <<seed, 1>> [] OTHER -> <<seed, p>>
Draw(p, e) == CASE Fault = "broadcast" -> <<Stream(p), counter[p]>>
                [] Fault = "frozen" -> <<Stream(p), 0, e>>
                [] OTHER -> <<Stream(p), counter[p], e>>
RECURSIVE Flat(_)
Flat(p) == IF p > Len(sizes) THEN <<>> ELSE [e \in 1..sizes[p] |-> Draw(p, e)] \o Flat(p + 1)
Next == /\ Len(draws) < MaxSteps
        /\ draws' = Append(draws, Flat(1))
        /\ counter' = [p \in 1..3 |-> counter[p] + 1]
        /\ UNCHANGED <<sizes, seed>>
Spec == Init /\ [][Next]_vars
NoRepetition == draws # <<>> => Fresh(draws, 0)
==========================================================================
