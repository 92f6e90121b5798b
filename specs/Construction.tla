---------------------------- MODULE Construction ----------------------------
(***************************************************************************)
(* The construction of samplers from valid and invalid arguments (C37).    *)
(*                                                                         *)
(* A request names a kind of value for every argument a sampler of that    *)
(* kind has.  The state: the values the parameters have (a token, "" if    *)
(* they have none), and whether there is a sampler.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"SGHMC", "SGLD", "REL", "SVGD"}
BurnInKind(k) == k \in {"SGHMC", "SGLD"}

\* the caller's default session is the first one; "given" is the second, "interactive" an interactive one
Good == [cost |-> {"function", "object", "partial"}, source |-> {"none", "generator", "object"},
         seed |-> {"none", "zero", "seven", "large"}, session |-> {"given", "default", "interactive"},
         dtype |-> {"float64", "float32"}, schedule |-> {"constant", "object"},
         burnIn |-> {"zero", "five"}, alpha |-> {"half", "one"}, fudge |-> {"half", "one"},
         mass |-> {"half", "unit"}, speed |-> {"half", "unit"}]
\* absent: none given, and there is no default session
Bad == [cost |-> {"nothing", "number"}, source |-> {"list", "function", "number"},
        seed |-> {"string", "fraction", "whole"}, session |-> {"absent", "string", "graph"},
        dtype |-> {"string", "nothing"}, schedule |-> {"nothing", "number", "no-next", "no-update", "no-initial"},
        burnIn |-> {"fraction", "whole", "string", "nothing"}, alpha |-> {"string", "nothing"}, fudge |-> {"string", "nothing"},
        mass |-> {"string", "nothing"}, speed |-> {"string", "nothing"}]
Usual == [cost |-> "function", source |-> "object", seed |-> "seven", session |-> "default", dtype |-> "float64",
          schedule |-> "object", burnIn |-> "five", alpha |-> "half", fudge |-> "half", mass |-> "unit", speed |-> "unit"]
Common == {"cost", "source", "seed", "session", "dtype", "schedule"}
Arguments(kind) == Common \cup (CASE BurnInKind(kind) -> {"burnIn"}
                                  [] kind = "SVGD" -> {"alpha", "fudge"}
                                  [] kind = "REL" -> {"mass", "speed"})
Values(a) == Good[a] \cup Bad[a]
Valid(kind, r) == \A a \in Arguments(kind) : r[a] \in Good[a]

\* what happened to the parameters before
Before == {"nothing", "initialised", "assigned"}

New(values) == [values |-> values, built |-> FALSE]
\* a request, the usual request, a step
Ops == {"construct", "retry", "step"}
Enabled(s, op) == (op = "step") = s.built
\* the parameters have the type that was asked for first
Request(r, op) == IF op = "retry" THEN [Usual EXCEPT !.dtype = IF r.dtype \in Good.dtype THEN r.dtype ELSE @] ELSE r
Apply(s, op, o) == [values |-> o.values, built |-> s.built \/ (op # "step" /\ o.ok)]

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* r: what this request asks for.  `values` are those in the session that the request means (the first one, if it means none),
\* `elsewhere` those in the others, `initial` those that initialisation gives.
Clauses(kind, s, r, op, o, initial, elsewhere) ==
    Clause("C37.other-sessions", o.elsewhere = elsewhere) \cup
    IF op = "step"
    THEN Clause("C37.steps", o.ok) \cup
         (IF ~o.ok THEN {} ELSE
          Clause("C37.steps-in-its-session", o.sample = o.values /\ o.values # s.values) \cup
          Clause("C37.steps-from-values", o.cost = o.expCost) \cup
          Clause("C37.uses-schedule", o.drawE = 1) \cup
          Clause("C37.uses-source", o.drawB = IF r.source = "none" THEN 0 ELSE 1))
    ELSE Clause("C37.accepts-valid", Valid(kind, r) => o.ok) \cup
         Clause("C37.rejects-invalid", ~Valid(kind, r) => ~o.ok) \cup
         Clause("C37.draws-nothing", o.drawE = 0 /\ o.drawB = 0) \cup
         Clause("C37.leaves-values", o.values \in IF s.values # "" THEN {s.values}
                                                  ELSE IF o.ok THEN {initial} ELSE {"", initial})
=============================================================================
