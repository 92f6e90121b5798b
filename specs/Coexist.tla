----------------------------- MODULE Coexist -----------------------------
(***************************************************************************)
(* Several samplers living next to each other (C10, C13, C14).             *)
(*                                                                         *)
(* A slot is a sampler together with its own target parameters (two        *)
(* groups), of some kind, with some seed (a token, 0: none, its noise is   *)
(* then scripted by the harness; among the seeds is the number zero), on   *)
(* some problem, in one of two graphs.                                     *)
(* Callers interleave: giving targets their values, constructing samplers, *)
(* initialising the variables samplers created, stepping, assigning, and   *)
(* unrelated uses of random generators and graphs.                         *)
(*                                                                         *)
(* The contract says what every operation may change, and that a step's    *)
(* outcome is a function of the slot's own configuration and of the        *)
(* parameter values it started its steps from -- of nothing else.          *)
(* Tokens are strings, "" = has no value; equal tokens = equal values.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"SGHMC", "SGLD", "REL", "SVGD"}
Stochastic(k) == k # "SVGD"
Groups == {1, 2}

Unrelated == {"numpy", "python", "tf-op", "tf-run", "other-graph", "cost", "reseed"}
Ops(slots) ==
    [op : {"init"}, slot : slots, group : Groups] \cup
    [op : {"assign"}, slot : slots, to : {1, 2}] \cup
    [op : {"build", "step", "ready"}, slot : slots] \cup
    [op : {"unrelated"}, what : Unrelated]

\* contract state: per slot the phase and the trail of parameter values its steps started from
NewSlot == [phase |-> "none", t |-> <<"", "">>, own |-> "", trail |-> <<>>]

Enabled(s, op) ==
    CASE op.op = "init" -> s[op.slot].t[op.group] = "" /\ s[op.slot].phase = "none"
      [] op.op = "assign" -> \A g \in Groups : s[op.slot].t[g] # ""
      [] op.op = "build" -> s[op.slot].phase = "none"
      [] op.op = "ready" -> s[op.slot].phase = "built"
      [] op.op = "step" -> s[op.slot].phase = "ready"
      [] OTHER -> TRUE

Apply(s, op, obs) ==
    [k \in DOMAIN s |->
        [phase |-> IF op.op \in {"build", "ready"} /\ op.slot = k
                   THEN (IF op.op = "build" THEN "built" ELSE "ready") ELSE s[k].phase,
         t |-> obs.t[k], own |-> obs.own[k],
         trail |-> IF op.op = "step" /\ op.slot = k THEN Append(s[k].trail, s[k].t) ELSE s[k].trail]]

Key(cfg, s, k) == <<cfg[k].kind, cfg[k].seed, cfg[k].problem, Append(s[k].trail, s[k].t)>>
Seedless(cfg, s, k) == <<cfg[k].kind, cfg[k].problem, Append(s[k].trail, s[k].t)>>

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* `initial` are the tokens of the initial values of a problem's groups
Frame(s, op, obs, by) ==
    LET others == IF "slot" \in DOMAIN op THEN DOMAIN s \ {op.slot} ELSE DOMAIN s
        name == IF op.op = "build" THEN "C14.construction-touches-others"
                ELSE IF op.op = "step" THEN "C13.step-touches-others" ELSE "C13.unrelated-change"
    IN Clause(name, /\ \A k \in others : obs.t[k] = s[k].t /\ obs.own[k] = s[k].own
                    /\ obs.by = by)

Clauses(cfg, s, op, obs, by, initial) ==
    Frame(s, op, obs, by) \cup
    CASE op.op = "build" ->
            Clause("ANY.constructs", obs.ok) \cup
            (IF ~obs.ok THEN {} ELSE
             LET before == s[op.slot].t
                 after == obs.t[op.slot]
             IN Clause("C14.keeps-values", \A g \in Groups : before[g] # "" => after[g] = before[g]) \cup
                Clause("C14.initialises", \A g \in Groups : before[g] = "" => after[g] = initial[cfg[op.slot].problem][g]))
      [] op.op = "ready" -> Clause("C14.keeps-values", obs.t[op.slot] = s[op.slot].t)
      [] op.op = "step" -> Clause("ANY.step-succeeds", obs.ok)
      [] OTHER -> {}

\* Conflicts with outcomes known for the same key. `alone` holds the outcomes of runs with one slot,
\* `seeds` outcomes by seedless key.
Outcomes(cfg, s, op, obs, alone, seeds) ==
    IF op.op # "step" \/ ~obs.ok THEN {} ELSE
    LET key == Key(cfg, s, op.slot)
        known == IF key \in DOMAIN alone THEN alone[key] ELSE {}
        less == Seedless(cfg, s, op.slot)
        c == cfg[op.slot]
        \* chains whose parameters and all parameters before them agree differ in their seeds only
        others == IF less \in DOMAIN seeds THEN {p \in seeds[less] : p[1] # c.seed} ELSE {}
    IN Clause("C10.same-seed-same-chain", (c.seed # 0 /\ known # {}) => known = {obs.out}) \cup
       Clause("C13.as-if-alone", (Cardinality(DOMAIN s) > 1 /\ Cardinality(known) = 1) => known = {obs.out}) \cup
       Clause("C10.different-seeds-differ",
              (Stochastic(c.kind) /\ c.seed # 0) => \A p \in others : p[1] # 0 => p[2] # obs.out)
==========================================================================
