------------------------- MODULE SamplerProtocol -------------------------
(***************************************************************************)
(* The step protocol every sampler follows, seen from its caller.          *)
(*                                                                         *)
(* One operation is one call of the caller (a step, possibly with a feed,  *)
(* possibly failing because of the batch source, the stepsize schedule or  *)
(* the evaluation; an assignment to the target parameters; work of someone *)
(* else in the same session).  `Apply` is the state transition, `Clauses`  *)
(* the contract between the state before an operation, the operation and   *)
(* what was observed.  The same two operators are used for exhaustive      *)
(* exploration (MC), for the generation of caller histories that are       *)
(* replayed into the real samplers, and for the validation of the traces   *)
(* recorded there.                                                         *)
(*                                                                         *)
(* Observed values are tokens: two values get the same token iff they are  *)
(* equal (up to rounding).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"SGHMC", "SGLD", "REL", "SVGD"}
BurnInKind(k) == k \in {"SGHMC", "SGLD"}

Failures == {"none", "batch", "batchstop", "sched", "run", "feed"}
\* 0: the caller feeds nothing; 1, 2: distinct values for a tensor of the cost;
\* 3: values for what the sampler itself feeds (stepsize, minibatch, tuned preconditioner): the sampler's own are used
\* 4: the caller's one dictionary, which is handed over again and again and holds the same value for a tensor of the cost
Feeds == {0, 1, 2, 3, 4}
Own(feed) == feed \in {0, 3}

\* The operations of a caller.
StepOps(cfg) ==
    [op : {"step"}, feed : Feeds, fail : {"none"}]
    \cup [op : {"step"}, feed : {0, 1},
          fail : {f \in Failures : f = "sched" \/ (f # "none" /\ cfg.batches)}]
\* tamper: the caller overwrites everything that steps have returned so far
EnvOps == [op : {"assign"}, to : {1, 2}] \cup [op : {"noise", "tamper"}]
Ops(cfg) == StepOps(cfg) \cup EnvOps

---------------------------------------------------------------------------
(* Contract state.                                                         *)
(*  n      completed steps             vars   token of the parameters      *)
(*  prec   token of the preconditioner the last completed step used        *)
(*  dirty  a failed evaluation may have changed adaptation state           *)
(*  tampered  earlier results were overwritten since the last step         *)
(*  seen   the kinds of calls there were: the first of each may still      *)
(*         build something                                                 *)
---------------------------------------------------------------------------
InitState(cfg, vars) == [n |-> 0, vars |-> vars, prec |-> 0, dirty |-> FALSE, tampered |-> FALSE, seen |-> {}]

Succeeds(op) == op.op = "step" /\ op.fail = "none"

IsBurningIn(cfg, n) == BurnInKind(cfg.kind) /\ n < cfg.burnIn

\* what may decide how a call works: its feed and the phase
Class(cfg, s, op) == <<op.feed, IF BurnInKind(cfg.kind) THEN s.n < cfg.burnIn ELSE FALSE>>

\* State after an operation, given the tokens that were observed.
Apply(cfg, s, op, obs) ==
    CASE op.op = "build" -> [s EXCEPT !.vars = obs.vars]
      [] Succeeds(op) /\ ~obs.ok -> [s EXCEPT !.vars = obs.vars, !.n = obs.n]
      [] Succeeds(op) -> [n |-> s.n + 1, vars |-> obs.vars, prec |-> obs.prec, dirty |-> FALSE,
                          tampered |-> FALSE, seen |-> s.seen \cup {Class(cfg, s, op)}]
      [] op.op = "step" /\ ~Succeeds(op) ->
            [s EXCEPT !.vars = obs.vars, !.dirty = @ \/ op.fail = "run"]
      [] op.op = "tamper" -> [s EXCEPT !.vars = obs.vars, !.tampered = TRUE]
      [] OTHER -> [s EXCEPT !.vars = obs.vars]

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* The names of all clauses of the contract that the observation violates.
Clauses(cfg, s, op, obs) ==
    IF op.op = "build" THEN
        Clause("ANY.constructs", obs.ok) \cup
        (IF obs.ok THEN
            Clause("C01.starts-at-zero", obs.n = 0) \cup
            Clause("C01.construction-draws-no-batch", obs.drawB = 0) \cup
            Clause("C04.construction-draws-no-stepsize", obs.drawE = 0) \cup
            Clause("C03.phase", obs.burn = IF BurnInKind(cfg.kind)
                                           THEN (IF IsBurningIn(cfg, 0) THEN "yes" ELSE "no") ELSE "na")
         ELSE {})
    ELSE
    (* nobody but an operation changes the parameters *)
    Clause("C02.unobserved-change", obs.before = s.vars)
    \cup
    (* what steps returned earlier stays what it was *)
    Clause("C35.results-kept", obs.kept)
    \cup
    (IF op.op = "step" THEN
        Clause("C03.phase-before",
               obs.burnBefore = IF BurnInKind(cfg.kind)
                                THEN (IF IsBurningIn(cfg, s.n) THEN "yes" ELSE "no") ELSE "na")
        \cup
        Clause("C01.count-before", obs.nBefore = s.n)
     ELSE {})
    \cup
    (IF Succeeds(op) THEN
        Clause("ANY.step-succeeds", obs.ok) \cup
        (IF ~obs.ok THEN {} ELSE
            Clause("C01.count", obs.n = s.n + 1) \cup
            Clause("C01.one-batch", obs.drawB = IF cfg.batches THEN 1 ELSE 0) \cup
            Clause("C01.one-stepsize", obs.drawE = 1) \cup
            Clause("C01.batch-used", Own(op.feed) => obs.cost = obs.expCost) \cup
            Clause("C01.one-update", Len(obs.upd) = 1) \cup
            Clause("C01.update-content",
                   \A i \in 1..Len(obs.upd) :
                        obs.upd[i].s = obs.sample /\ obs.upd[i].c = obs.cost) \cup
            Clause("C02.sample-is-state", obs.sample = obs.vars) \cup
            Clause("C02.cost-at-old-state", obs.cost = obs.expCost) \cup
            Clause("C02.form", obs.form) \cup
            Clause("C03.phase",
                   obs.burn = IF BurnInKind(cfg.kind)
                              THEN (IF IsBurningIn(cfg, s.n + 1) THEN "yes" ELSE "no") ELSE "na") \cup
            Clause("C03.frozen",
                   (BurnInKind(cfg.kind) /\ cfg.burnIn > 0 /\ s.n >= cfg.burnIn) => obs.prec = s.prec) \cup
            Clause("C03.frozen-without-burn-in",
                   (BurnInKind(cfg.kind) /\ cfg.burnIn = 0 /\ s.n > 0) => obs.prec = s.prec) \cup
            Clause("C03.adapts",
                   (BurnInKind(cfg.kind) /\ s.n >= 1 /\ s.n < cfg.burnIn) => obs.prec # s.prec) \cup
            Clause("C04.feedback-order", obs.order = <<"draw", "update">>) \cup
            Clause("C35.later-results", s.tampered => (obs.sample = obs.vars /\ obs.cost = obs.expCost)) \cup
            Clause("C36.steps-add-nothing", Class(cfg, s, op) \in s.seen => obs.grown = 0) \cup
            Clause("C15.feed-kept", obs.feedKept) \cup
            Clause("C15.feed-used", ~Own(op.feed) => obs.cost = obs.expCost) \cup
            Clause("C15.no-leak", (op.feed = 0) => obs.cost = obs.expCost))
     ELSE IF op.op = "step" THEN
        Clause("C01.failure-reported", ~obs.ok) \cup
        Clause("C01.failed-step-not-counted", obs.n = s.n) \cup
        Clause("C01.failed-step-not-reported", Len(obs.upd) = 0) \cup
        Clause("C01.failed-step-parameters",
               (op.fail \in {"batch", "batchstop", "sched", "feed"}) => obs.vars = s.vars) \cup
        Clause("C15.feed-kept", obs.feedKept) \cup
        Clause("C03.phase", obs.burn = obs.burnBefore)
     ELSE IF op.op = "assign" THEN
        Clause("C01.count", obs.n = s.n)
     ELSE IF op.op = "tamper" THEN
        Clause("C35.private", obs.vars = s.vars /\ obs.n = s.n)
     ELSE
        Clause("C02.unobserved-change", obs.vars = s.vars) \cup
        Clause("C01.count", obs.n = s.n))
===========================================================================
