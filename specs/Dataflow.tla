----------------------------- MODULE Dataflow -----------------------------
(***************************************************************************)
(* One step of a sampler as the dataflow executor sees it.                 *)
(*                                                                         *)
(* A problem is one variable of a step's dataflow graph: its accessors     *)
(* (operations that read or write its buffer) and the partial order the    *)
(* graph's data and control edges impose on them.  The executor may run    *)
(* the accessors in any order that extends the partial order; a step is    *)
(* independent of the schedule iff in all of them every reader and writer  *)
(* finds the variable in the same version (= after the same writes).       *)
(* Problems are extracted from the graphs of real samplers (PROBLEMS).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Problems == JsonDeserialize(IOEnv.PROBLEMS)

VARIABLES p, done, race,
          order   \* of the schedules generated for replay
vars == <<p, done, race>>

Nodes(k) == 1..Len(Problems[k].nodes)
Before(k, n) == {Problems[k].nodes[n].before[i] : i \in 1..Len(Problems[k].nodes[n].before)}
Writes(k, n) == Problems[k].nodes[n].writes
Writers(k) == {n \in Nodes(k) : Writes(k, n)}

\* the writes every schedule performs before n
Prescribed(k, n) == Writers(k) \cap Before(k, n)

Init == p \in 1..Len(Problems) /\ done = {} /\ race = <<>>

Execute(n) ==
    /\ n \in Nodes(p) \ done
    /\ Before(p, n) \subseteq done
    /\ done' = done \cup {n}
    /\ LET early == (Writers(p) \cap done) \ Prescribed(p, n)
       IN race' = IF early = {} THEN <<>> ELSE <<n, CHOOSE w \in early : TRUE>>
    /\ p' = p
    /\ IF race' = <<>> THEN TRUE
       ELSE PrintT(ToJson([problem |-> Problems[p].id, late |-> race'[1], early |-> race'[2]]))

Next == \E n \in Nodes(p) : Execute(n)
DSpec == Init /\ order = <<>> /\ [][Next /\ order' = order]_<<vars, order>>

\* the step does not depend on the schedule
Deterministic == race = <<>>

-----------------------------------------------------------------------------
(* Schedules for replay: in simulation mode, complete executions of all      *)
(* accessors of a step are printed once they are finished.                   *)
GenInit == p \in 1..Len(Problems) /\ done = {} /\ race = <<>> /\ order = <<>>
GenNext ==
    \/ \E n \in Nodes(p) \ done :
          /\ Before(p, n) \subseteq done
          /\ done' = done \cup {n} /\ order' = Append(order, n) /\ UNCHANGED <<p, race>>
    \/ /\ done = Nodes(p) /\ race = <<>>
       /\ race' = <<0, 0>> /\ UNCHANGED <<p, done, order>>
       /\ PrintT(ToJson([problem |-> Problems[p].id, order |-> order]))
GenSpec == GenInit /\ [][GenNext]_<<vars, order>>
=============================================================================
