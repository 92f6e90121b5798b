----------------------- MODULE SamplerProtocolMC -----------------------
(* The design: an idealised sampler (counters, parameter versions,        *)
(* preconditioner versions) driven by all callers up to a bound.  Checks  *)
(* that its observations satisfy every clause of the contract, that the   *)
(* contract implies the properties, and that it rejects each of a family  *)
(* of broken samplers (Fault).                                            *)
EXTENDS SamplerProtocol, SequencesExt, Json

CONSTANTS MaxOps, MaxBurnIn, Fault

VARIABLES cfg, sampler, s, hist, bad
vars == <<cfg, sampler, s, hist, bad>>

\* the idealised sampler: versions of parameters and preconditioner
Init ==
    /\ cfg \in [kind : Kinds, burnIn : 0..MaxBurnIn, batches : BOOLEAN]
    /\ (~BurnInKind(cfg.kind) => cfg.burnIn = 0)
    /\ sampler = [n |-> 0, vars |-> 1, next |-> 2, prec |-> 1, nB |-> 0, nE |-> 0, nU |-> 0]
    /\ s = InitState(cfg, 1)
    /\ hist = <<>>
    /\ bad = {}

Burn(n) == IF BurnInKind(cfg.kind)
           THEN (IF n < cfg.burnIn THEN "yes" ELSE "no") ELSE "na"

CostToken(version, batch, feed) == <<version, batch, feed>>

\* Steps of the idealised sampler, possibly with a planted fault.
StepObs(op) ==
    LET n1 == sampler.n + 1
        adapts == BurnInKind(cfg.kind) /\
                  (sampler.n < cfg.burnIn \/ Fault = "adapts-forever")
        p == IF adapts /\ sampler.n > 0 /\ Fault # "never-adapts" THEN sampler.next ELSE sampler.prec
        ok == op.fail = "none"
        oldV == IF Fault = "cost-after-update" THEN sampler.next ELSE sampler.vars
        leak == IF Fault = "drops-feed" /\ sampler.n >= cfg.burnIn THEN 0 ELSE op.feed
        batch == IF cfg.batches THEN sampler.nB + 1 ELSE 0
        usedBatch == IF Fault = "stale-batch" /\ sampler.nB > 0 THEN sampler.nB ELSE batch
        boundary == IF Fault = "boundary" THEN cfg.burnIn + 1 ELSE cfg.burnIn
        burn(n) == IF BurnInKind(cfg.kind) THEN (IF n < boundary THEN "yes" ELSE "no") ELSE "na"
    IN [ok |-> ok,
        nBefore |-> sampler.n,
        n |-> IF ok \/ Fault = "counts-failures" THEN n1 ELSE sampler.n,
        burnBefore |-> burn(sampler.n),
        burn |-> burn(IF ok THEN n1 ELSE sampler.n),
        drawB |-> IF cfg.batches /\ (ok \/ op.fail \in {"run", "sched", "feed"}) THEN 1 ELSE 0,
        drawE |-> IF ok \/ op.fail \in {"run", "feed"} THEN (IF Fault = "two-stepsizes" THEN 2 ELSE 1) ELSE 0,
        upd |-> IF ok /\ Fault # "no-update"
                THEN <<[s |-> sampler.next, c |-> CostToken(oldV, usedBatch, leak)]>> ELSE <<>>,
        order |-> IF ok THEN <<"draw", "update">> ELSE <<"draw">>,
        sample |-> IF Fault = "stale-sample" THEN sampler.vars ELSE sampler.next,
        cost |-> CostToken(oldV, usedBatch, leak),
        expCost |-> CostToken(sampler.vars, batch, op.feed),
        form |-> TRUE,
        kept |-> Fault # "reuses-buffer" \/ sampler.n = 0,
        grown |-> IF Fault = "grows" THEN 1 ELSE 0,
        feedKept |-> Fault # "merges-feed" \/ op.feed = 0,
        before |-> sampler.vars,
        vars |-> IF ok THEN sampler.next ELSE sampler.vars,
        prec |-> IF BurnInKind(cfg.kind) /\ ok THEN p ELSE 0]

OtherObs(op) ==
    [nBefore |-> sampler.n, n |-> sampler.n, before |-> sampler.vars, kept |-> TRUE,
     vars |-> IF op.op = "assign" \/ (Fault = "shares-state" /\ op.op = "tamper" /\ sampler.n > 0)
              THEN sampler.next ELSE sampler.vars]

Do(op) ==
    LET obs == IF op.op = "step" THEN StepObs(op) ELSE OtherObs(op) IN
    /\ bad' = Clauses(cfg, s, op, obs)
    /\ s' = Apply(cfg, s, op, obs)
    /\ hist' = Append(hist, op)
    /\ sampler' = [n |-> obs.n,
                   vars |-> obs.vars,
                   next |-> sampler.next + 1,
                   prec |-> IF op.op = "step" /\ obs.ok /\ BurnInKind(cfg.kind) THEN obs.prec ELSE sampler.prec,
                   nB |-> sampler.nB + (IF op.op = "step" THEN obs.drawB ELSE 0),
                   nE |-> sampler.nE + (IF op.op = "step" THEN obs.drawE ELSE 0),
                   nU |-> sampler.nU + (IF op.op = "step" THEN Len(obs.upd) ELSE 0)]
    /\ UNCHANGED cfg

Next == \E op \in Ops(cfg) : Len(hist) < MaxOps /\ Do(op)
Spec == Init /\ [][Next]_vars

\* hide the history: it only records operations
View == <<cfg, sampler, s, bad, Len(hist)>>

---------------------------------------------------------------------------
ContractHolds == bad = {}
\* Consequences of the contract that the properties promise.
StepsCounted == s.n = Cardinality({i \in 1..Len(hist) : Succeeds(hist[i])})
NotifiedOncePerStep == sampler.nU = sampler.n
StepsizePerStep == sampler.nE >= sampler.n
FrozenAfterBurnIn ==
    [][(BurnInKind(cfg.kind) /\ s.n >= cfg.burnIn /\ cfg.burnIn > 0 /\ s'.n > s.n) => s'.prec = s.prec]_vars
---------------------------------------------------------------------------
(* Scenario generation: caller histories of full length with few failures.  *)
Failing(op) == op.op = "step" /\ op.fail # "none"
CONSTANT MaxFailures
GenNext ==
    \E op \in Ops(cfg) :
        /\ Len(hist) < MaxOps
        /\ Failing(op) => Cardinality({i \in 1..Len(hist) : Failing(hist[i])}) < MaxFailures
        /\ Failing(op) => Len(hist) > 0
        /\ op.op = "tamper" => s.n > 0 /\ ~s.tampered
        /\ Do(op)
Finish == Len(hist) = MaxOps /\ bad = {} /\ bad' = {"emit"} /\ UNCHANGED <<cfg, sampler, s, hist>>
GenSpec == Init /\ [][GenNext \/ Finish]_vars
Emit == bad = {"emit"} => PrintT(ToJson([cfg |-> cfg, ops |-> hist]))
=========================================================================
