---------------------------- MODULE CoexistMC ----------------------------
(* The design: idealised samplers whose state is their own.  Checks that   *)
(* the contract holds for all interleavings up to MaxOps, that it rejects  *)
(* broken designs (Fault), and generates interleavings for replay.         *)
EXTENDS Coexist, Json

CONSTANTS NSlots, MaxOps, Fault, MaxIdle
VARIABLES cfg, s, hist, bad, by, alone, seeds, clock
vars == <<cfg, s, hist, bad, by, alone, seeds, clock>>
Slots == 1..NSlots

Configs == [kind : {"SGHMC", "SVGD"}, seed : {0, 1, 2}, problem : {1}, graph : {1}]
Initial == << <<"initial1", "initial2">> >>

Init == /\ cfg \in [Slots -> Configs]
        /\ s = [k \in Slots |-> NewSlot]
        /\ hist = <<>> /\ bad = {} /\ by = "by" /\ alone = <<>> /\ seeds = <<>> /\ clock = 0

\* the idealised outcome names everything it may depend on
Noise(k) == IF Stochastic(cfg[k].kind)
            THEN IF Fault = "shared-stream" THEN <<cfg[k].seed, clock>>
                 ELSE IF Fault = "ignores-seed" THEN <<0>> ELSE <<cfg[k].seed>>
            ELSE <<>>
Outcome(k) == ToString(<<cfg[k].kind, cfg[k].problem, Noise(k),
                IF Fault = "stale-start" /\ s[k].trail # <<>> THEN s[k].trail ELSE Append(s[k].trail, s[k].t)>>)

Obs(op) ==
    LET t(k) == CASE op.op = "init" /\ op.slot = k -> [s[k].t EXCEPT ![op.group] = Initial[1][op.group]]
                  [] op.op = "assign" /\ op.slot = k -> <<ToString(<<"assigned", op.to, 1>>), ToString(<<"assigned", op.to, 2>>)>>
                  [] op.op = "build" /\ op.slot = k ->
                        [g \in Groups |-> IF s[k].t[g] = "" \/ Fault = "reinitialises" THEN Initial[1][g] ELSE s[k].t[g]]
                  [] op.op = "build" /\ op.slot # k /\ Fault = "initialises-all" ->
                        [g \in Groups |-> IF s[k].t[g] = "" THEN Initial[1][g] ELSE s[k].t[g]]
                  [] op.op = "step" /\ op.slot = k -> <<ToString(<<Outcome(k), 1>>), ToString(<<Outcome(k), 2>>)>>
                  [] OTHER -> s[k].t
        own(k) == CASE op.op = "ready" /\ op.slot = k -> "own0"
                    [] op.op = "step" /\ op.slot = k -> ToString(<<"own", Len(s[k].trail) + 1>>)
                    [] op.op = "step" /\ Fault = "shared-state" -> "changed"
                    [] OTHER -> s[k].own
    IN [ok |-> TRUE, t |-> [k \in Slots |-> t(k)], own |-> [k \in Slots |-> own(k)], by |-> by,
        out |-> IF op.op = "step" THEN Outcome(op.slot) ELSE ""]

Put(f, key, x) == [k \in DOMAIN f \cup {key} |-> IF k = key THEN (IF key \in DOMAIN f THEN f[key] ELSE {}) \cup {x} ELSE f[k]]

Do(op) ==
    /\ Enabled(s, op)
    /\ LET obs == Obs(op) IN
       /\ bad' = Clauses(cfg, s, op, obs, by, Initial) \cup Outcomes(cfg, s, op, obs, alone, seeds)
       /\ s' = Apply(s, op, obs)
       /\ by' = obs.by
       /\ IF op.op = "step"
          THEN /\ alone' = Put(alone, Key(cfg, s, op.slot), obs.out)
               /\ seeds' = Put(seeds, Seedless(cfg, s, op.slot), <<cfg[op.slot].seed, obs.out>>)
          ELSE UNCHANGED <<alone, seeds>>
    /\ hist' = Append(hist, op)
    /\ clock' = IF op.op \in {"step", "unrelated"} THEN clock + 1 ELSE clock
    /\ UNCHANGED cfg

MCOps == {op \in Ops(Slots) : op.op = "unrelated" => op.what = "numpy"}
Next == \E op \in MCOps : Len(hist) < MaxOps /\ Do(op)
Spec == Init /\ [][Next]_vars
View == <<cfg, s, bad, by, alone, seeds, clock, Len(hist)>>
ContractHolds == bad = {}

---------------------------------------------------------------------------
(* Generation: complete lives of NSlots samplers with few idle operations.  *)
GenConfigs == [kind : Kinds, seed : 0..4, problem : {1, 2}, graph : {1, 2}]
Idle(op) == op.op \in {"unrelated", "assign"}
GenInit == /\ cfg \in [Slots -> GenConfigs]
           /\ \A k \in Slots : (cfg[k].kind = "REL" => cfg[k].seed # 0)
           /\ \A k \in Slots : (NSlots > 1 /\ k > 1) => (cfg[k].problem = cfg[1].problem \/ cfg[k].kind # cfg[1].kind)
           /\ s = [k \in Slots |-> NewSlot]
           /\ hist = <<>> /\ bad = {} /\ by = "by" /\ alone = <<>> /\ seeds = <<>> /\ clock = 0
\* values do not matter for generation
GenObs(op) ==
    [t |-> [k \in Slots |-> CASE op.op = "init" /\ op.slot = k -> [s[k].t EXCEPT ![op.group] = "set"]
                              [] op.op = "build" /\ op.slot = k -> <<"set", "set">>
                              [] OTHER -> s[k].t],
     own |-> [k \in Slots |-> ""]]
GenDo(op) == /\ Enabled(s, op)
             /\ s' = Apply(s, op, GenObs(op))
             /\ hist' = Append(hist, op)
             /\ clock' = IF Idle(op) THEN clock + 1 ELSE clock
             /\ UNCHANGED <<cfg, bad, by, alone, seeds>>
GenNext == \E op \in Ops(Slots) :
                /\ Len(hist) < MaxOps /\ (Idle(op) => clock < MaxIdle)
                /\ GenDo(op)
Finish == Len(hist) = MaxOps /\ bad = {} /\ bad' = {"emit"} /\ UNCHANGED <<cfg, s, hist, by, alone, seeds, clock>>
GenSpec == GenInit /\ [][GenNext \/ Finish]_vars
---------------------------------------------------------------------------
(* Constructions: whatever may have happened to the targets of one sampler before it is constructed, and its  *)
(* first steps.                                                             *)
ConInit == /\ cfg \in [{1} -> [kind : Kinds, seed : {1}, problem : {1, 2}, graph : {1}]]
           /\ s = [k \in Slots |-> NewSlot]
           /\ hist = <<>> /\ bad = {} /\ by = "by" /\ alone = <<>> /\ seeds = <<>> /\ clock = 0
ConNext == \E op \in Ops(Slots) :
                /\ op.op \in {"init", "assign", "build"}
                /\ Len(hist) < MaxOps
                /\ GenDo(op)
ConSpec == ConInit /\ [][ConNext]_vars
EmitCon == (hist # <<>> /\ hist[Len(hist)].op = "build") =>
                PrintT(ToJson([cfg |-> cfg, ops |-> hist \o <<[op |-> "ready", slot |-> 1], [op |-> "step", slot |-> 1],
                                                             [op |-> "step", slot |-> 1]>>]))
---------------------------------------------------------------------------
Emit == bad = {"emit"} => PrintT(ToJson([cfg |-> cfg, ops |-> hist]))
==========================================================================
