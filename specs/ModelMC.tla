------------------------------ MODULE ModelMC ------------------------------
(* Idealised models; all short histories, and histories to replay. *)
EXTENDS Model, TLC, Json

CONSTANTS MaxOps, Fault
VARIABLES s, hist, bad
vars == <<s, hist, bad>>

Dims == 0..3
Shapes == {<<>>} \cup {<<a>> : a \in Dims} \cup {<<a, b>> : a \in Dims, b \in {0, 1, 2}} \cup {<<a, b, 2>> : a \in {0, 2}, b \in {1, 2}}
Rows(points, values, n) == UNION {[1..k -> points \X values] : k \in 1..n}
\* histories to replay use longer data, in which values tie
Bulk == {[i \in 1..n |-> <<1 + ((a * i + b) % 9), 1 + ((c * i * i + b) % 4)>>] : n \in 1..6, a \in {1, 2, 4}, b \in 0..3, c \in 1..2}
Refusals == {"good", "flat-points", "unequal", "wider"}
Common == {[op |-> "incumbent"], [op |-> "export"]} \cup
          [op : {"check-train"}, x : Shapes, y : {q \in Shapes : Len(q) < 3}] \cup [op : {"check-predict"}, x : Shapes]
Ops == [op : {"train", "update"}, rows : Bulk, shape : {"good"}] \cup
       [op : {"train", "update"}, rows : {q \in Bulk : Len(q) = 3}, shape : Refusals] \cup Common
Design == [op : {"train", "update"}, rows : Rows({1, 2}, {1, 2}, 2), shape : {"good", "unequal"}] \cup Common
\* a model that is trained anew has no data to which more columns do not fit
Sensible(op) == op.op = "train" => op.shape # "wider"

Show(rows) == rows
Ideal(op) ==
    LET after == Apply(s, op)
        joined == IF Fault = "prepends" /\ op.op = "update" THEN op.rows \o s.data
                  ELSE IF Fault = "replaces" /\ op.op = "update" THEN op.rows ELSE after.data
        low(rows) == CHOOSE r \in Best(rows) : TRUE
        high(rows) == CHOOSE r \in {rows[i] : i \in DOMAIN rows} : \A i \in DOMAIN rows : rows[i][2] <= r[2]
        last(rows) == rows[Len(rows)]
    IN [ok |-> IF Refused(op) THEN Fault = "accepts"
               ELSE IF op.op = "check-train" THEN (IF Fault = "counts" THEN Len(op.x) = 2 /\ Len(op.y) = 1 ELSE TrainAccepts(op.x, op.y))
               ELSE IF op.op = "check-predict" THEN PredictAccepts(op.x)
               ELSE TRUE,
        kept |-> TRUE, passed_on |-> TRUE, trainings |-> 1, trained_on |-> joined,
        stored |-> IF Refused(op) /\ Fault = "stores-refused" THEN s.data \o op.rows ELSE IF Refused(op) THEN s.data ELSE joined,
        empty |-> ~s.trained, exported |-> s.data,
        best |-> IF op.op # "incumbent" THEN <<0, 0>> ELSE IF Fault = "maximum" THEN high(s.data)
                 ELSE IF Fault = "last" THEN last(s.data) ELSE low(s.data)]

Init == s = None /\ hist = <<>> /\ bad = {}
Do(op) == /\ Enabled(s, op) /\ Sensible(op)
          /\ bad' = Clauses(s, op, Ideal(op))
          /\ s' = Apply(s, op)
          /\ hist' = Append(hist, op)
Next == Len(hist) < MaxOps /\ \E op \in Design : Do(op)
Spec == Init /\ [][Next]_vars
View == <<s, bad, Len(hist)>>
ContractHolds == bad = {}
\* only training replaces data: updates extend it at its end, everything else leaves it alone
Extends == [][\/ s'.data = s.data
              \/ hist'[Len(hist')].op = "train"
              \/ /\ hist'[Len(hist')].op = "update"
                 /\ \E k \in 1..Len(s'.data) : SubSeq(s'.data, 1, k) = s.data]_vars
\* the incumbent's value never gets worse by updates
Improves == [][(s.trained /\ hist'[Len(hist')].op = "update")
               => \A r \in Best(s.data) : \A q \in Best(s'.data) : q[2] <= r[2]]_vars

---------------------------------------------------------------------------
Rarely(n) == RandomElement(1..n) = 1
Kinds == <<"train", "train", "update", "update", "update", "update", "incumbent", "incumbent", "export", "export", "check-train", "check-train", "check-predict">>
Doable(op) == /\ Enabled(s, op) /\ Sensible(op)
              /\ Len(Apply(s, op).data) <= 16
              /\ (op.op = "train" => Rarely(3) \/ ~s.trained)
              /\ (op.op = "check-train" => TrainAccepts(op.x, op.y) \/ Len(op.x) = 2 \/ Rarely(6))
GenNext == /\ Len(hist) < MaxOps
           /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
              \E op \in {RandomElement({o \in Ops : o.op = kind})} :
                IF ~Doable(op) THEN UNCHANGED vars
                ELSE s' = Apply(s, op) /\ hist' = Append(hist, op) /\ UNCHANGED bad
Finish == bad = {} /\ Len(hist) >= MaxOps /\ bad' = {"emit"} /\ UNCHANGED <<s, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars
Emit == bad = {"emit"} => PrintT(ToJson([ops |-> hist]))
===========================================================================
