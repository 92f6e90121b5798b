------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The data of a model: training, updates, the incumbent, its export, and  *)
(* the shape checks (C32).                                                 *)
(*                                                                         *)
(* Data is a sequence of rows <<point, value>>.  Points are tokens that    *)
(* the harness turns into inputs, values are turned into labels by a       *)
(* strictly increasing function; rows that were never handed to the model  *)
(* are shown as <<0, 0>>.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [trained |-> FALSE, data |-> <<>>]
Trained(rows) == [trained |-> TRUE, data |-> rows]

\* calls that the model must refuse, changing nothing
Refused(op) == op.op \in {"update", "train"} /\ op.shape # "good"

TrainAccepts(x, y) == Len(x) = 2 /\ Len(y) = 1 /\ x[1] = y[1]
PredictAccepts(x) == Len(x) = 2

Enabled(s, op) == CASE op.op = "update" -> s.trained
                    [] op.op = "incumbent" -> s.trained /\ s.data # <<>>
                    [] OTHER -> TRUE

Apply(s, op) == IF Refused(op) THEN s
                ELSE CASE op.op = "train" -> Trained(op.rows)
                       [] op.op = "update" -> Trained(s.data \o op.rows)
                       [] OTHER -> s

Best(rows) == {r \in {rows[i] : i \in DOMAIN rows} : \A i \in DOMAIN rows : rows[i][2] >= r[2]}

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* after every operation: whether it succeeded, whether the caller's arrays are as before, and the stored data
Clauses(s, op, obs) ==
    LET after == Apply(s, op) IN
    (CASE op.op \in {"train", "update"} ->
            IF Refused(op) THEN Clause("C32.refuses", ~obs.ok)
            ELSE IF ~obs.ok THEN {"C32.accepts"}
            ELSE Clause("C32.trained-on", obs.trained_on = after.data /\ obs.trainings = 1)
       [] op.op = "incumbent" -> Clause("C32.incumbent", obs.ok /\ obs.best \in Best(s.data))
       [] op.op = "export" -> Clause("C32.export", obs.ok /\ obs.empty = ~s.trained /\ obs.exported = s.data)
       [] op.op = "check-train" -> Clause("C32.shapes", obs.ok = TrainAccepts(op.x, op.y) /\ (obs.ok => obs.passed_on))
       [] op.op = "check-predict" -> Clause("C32.shapes", obs.ok = PredictAccepts(op.x) /\ (obs.ok => obs.passed_on))
       [] OTHER -> {}) \cup
    Clause("C32.stored", obs.stored = after.data)
    \cup Clause("C32.arguments-kept", obs.kept)
===========================================================================
