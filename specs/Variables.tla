---------------------------- MODULE Variables ----------------------------
(***************************************************************************)
(* Variables, their vectorised copies and their initialisation (C26, C33). *)
(*                                                                         *)
(* Variables are created with an initial content or as vectorised copies   *)
(* of other variables.  A copy is a variable of its own: once initialised  *)
(* it is only changed by assigning to it.  Until then its initial content  *)
(* is what the variable it copies holds, or would hold if initialised.     *)
(* Contents are tokens; the harness gives element number k (row-major) of  *)
(* content c the value 1000*c + k, so that any permutation, loss or mixing *)
(* of elements shows; reads that match no content are 0.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Shapes == UNION {[1..rank -> 0..3] : rank \in 0..3} \cup
          {<<12>>, <<61>>, <<5, 7>>, <<2, 31>>, <<4, 5, 6>>, <<2, 2, 2, 2>>, <<2, 1, 3, 2>>, <<3, 2, 1, 2>>, <<1, 1, 1, 1>>,
           <<3, 0, 2, 1>>, <<2, 3, 4, 5>>, <<1, 2, 1, 2, 2>>, <<2, 1, 1, 3, 1>>, <<2, 1, 2, 1, 1, 3>>}

RECURSIVE Count(_)
Count(shape) == IF shape = <<>> THEN 1 ELSE Head(shape) * Count(Tail(shape))
Column(shape) == <<Count(shape), 1>>

\* row-major position (from 0) of an element, whose coordinates count from 0
RECURSIVE Offset(_, _)
Offset(shape, at) == IF shape = <<>> THEN 0 ELSE Head(at) * Count(Tail(shape)) + Offset(Tail(shape), Tail(at))
RECURSIVE Coordinates(_)
Coordinates(shape) == IF shape = <<>> THEN {<<>>}
                      ELSE {<<first>> \o rest : first \in 0..Head(shape) - 1, rest \in Coordinates(Tail(shape))}
\* every element has exactly one place in the column
RowMajor(shape) == {Offset(shape, at) : at \in Coordinates(shape)} = 0..Count(shape) - 1
                   /\ Cardinality(Coordinates(shape)) = Count(shape)

\* a variable: what it copies (0: nothing), its initial content, whether it is initialised, its content
Fresh(content) == [origin |-> 0, initial |-> content, ready |-> FALSE, value |-> 0]
Copy(i) == [origin |-> i, initial |-> 0, ready |-> FALSE, value |-> 0]

RECURSIVE Visible(_, _)
Start(s, i) == IF s[i].origin = 0 THEN s[i].initial ELSE Visible(s, s[i].origin)
Visible(s, i) == IF s[i].ready THEN s[i].value ELSE Start(s, i)

Shape(shape, s, i) == IF s[i].origin = 0 THEN shape ELSE Column(shape)

Select(q, Test(_)) == LET RECURSIVE Sel(_)
                          Sel(k) == IF k > Len(q) THEN <<>> ELSE (IF Test(q[k]) THEN <<q[k]>> ELSE <<>>) \o Sel(k + 1)
                      IN Sel(1)
Missing(s, asked) == Select(asked, LAMBDA i : ~s[i].ready)

Enabled(s, op) ==
    CASE op.op \in {"vectorize", "initialize"} -> op.of \in DOMAIN s
      [] op.op \in {"assign", "read", "column", "restore"} -> op.of \in DOMAIN s /\ s[op.of].ready
      [] op.op = "query" -> op.asked # <<>> /\ \A k \in DOMAIN op.asked : op.asked[k] \in DOMAIN s
      [] OTHER -> TRUE

\* several variables are initialised at once: every `every`-th, beginning with number `first`
Settled(s, op) == {i \in DOMAIN s : i >= op.first /\ (i - op.first) % op.every = 0 /\ ~s[i].ready}

Apply(s, op) ==
    CASE op.op = "create" -> Append(s, Fresh(op.content))
      [] op.op = "populate" -> s \o [k \in 1..op.n |-> Fresh(op.content)]
      [] op.op = "settle" -> [i \in DOMAIN s |-> IF i \in Settled(s, op)
                              THEN [s[i] EXCEPT !.ready = TRUE, !.value = Start(s, i)] ELSE s[i]]
      [] op.op = "vectorize" -> Append(s, Copy(op.of))
      [] op.op = "initialize" -> [s EXCEPT ![op.of].ready = TRUE, ![op.of].value = Start(s, op.of)]
      [] op.op = "assign" -> [s EXCEPT ![op.of].value = op.content]
      [] OTHER -> s

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* observations: ok, and after every operation the contents of all variables that are ready (0 otherwise)
Clauses(shape, s, op, obs) ==
    LET after == Apply(s, op)
        \* contents of empty variables cannot be told apart, and to TensorFlow they always are initialised
        Same(a, b) == Count(shape) = 0 \/ a = b
    IN (IF op.op = "reject" THEN Clause("C26.rejects-others", ~obs.ok) ELSE Clause("ANY.succeeds", obs.ok)) \cup
       (IF ~obs.ok THEN {} ELSE
        CASE op.op = "read" -> Clause("C26.content", Same(obs.content, s[op.of].value)) \cup
                               Clause("C26.shape", obs.shape = Shape(shape, s, op.of))
          \* vectorising the value of a variable, as a plain tensor
          [] op.op = "column" -> Clause("C26.content", Same(obs.content, s[op.of].value)) \cup
                                 Clause("C26.shape", obs.shape = Column(shape))
          \* unvectorising a column (of a copy, or of anything that was vectorised) gives the original shape again
          [] op.op = "restore" -> Clause("C26.restores", Same(obs.content, s[op.of].value) /\ obs.shape = shape)
          [] op.op = "vectorize" -> Clause("C26.is-variable", obs.variable) \cup
                                    Clause("C26.shape", obs.shape = Column(shape))
          [] op.op = "query" -> Clause("C33.exactly-the-missing", Same(obs.missing, Missing(s, op.asked)))
          [] OTHER -> {}) \cup
       Clause(IF op.op = "query" THEN "C33.changes-nothing" ELSE "C26.independent",
              Same(obs.contents, [i \in DOMAIN after |-> IF after[i].ready THEN after[i].value ELSE 0])) \cup
       Clause("C33.exactly-the-missing", Same(obs.all, Missing(after, [i \in DOMAIN after |-> i])))
==========================================================================
