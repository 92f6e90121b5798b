----------------------------- MODULE BatchesMC -----------------------------
(* Idealised streams: checks that they satisfy the contract under every       *)
(* interleaving up to a bound and that broken ones (Fault) do not, and        *)
(* generates interleavings for replay.                                        *)
EXTENDS Batches, Json
CONSTANTS NStreams, MaxOps, Fault
VARIABLES cfg, log, hist, bad, global
vars == <<cfg, log, hist, bad, global>>
Streams == 1..NStreams

Seeds == {"none", "1", "2", "3"}
\* all streams of a behaviour run over one dataset; "size" says how the batch size relates to it
Configs == [size : {"one", "two", "some", "most", "all", "more"}, shuffled : BOOLEAN, seed : Seeds]
Sized(c) == [n |-> 4, b |-> CASE c.size = "one" -> 1 [] c.size = "two" -> 2 [] c.size = "some" -> 2 [] c.size = "most" -> 3
                             [] c.size = "all" -> 4 [] OTHER -> 6,
             shuffled |-> c.shuffled, seed |-> c.seed]
Small == {c \in Configs : c.size \in {"two", "more"} /\ c.seed \in {"none", "1"}}

Init == cfg \in [Streams -> Small] /\ log = [k \in Streams |-> <<>>] /\ hist = <<>> /\ bad = {} /\ global = 0

\* an arbitrary but fixed pseudo random sequence per seed
Random(seed, i) == CASE seed = "1" -> (i * 7 + 3) % 11 [] seed = "2" -> (i * 5 + 1) % 11 [] OTHER -> (i * 3 + 2) % 11
Draw(k) ==
    LET c == Sized(cfg[k])
        i == IF Fault = "shared-generator" THEN Len(log[1]) + Len(log[NStreams]) ELSE Len(log[k])
        source == IF Fault = "global-generator" THEN Random("x", global) ELSE Random(c.seed, i)
        start == source % (IF Fault = "beyond-the-end" THEN Windows(c) + 1 ELSE Windows(c))
        size == IF start + Size(c) > c.n THEN c.n - start ELSE Size(c)
        plain == Window(start, size)
        turned == [j \in DOMAIN plain |-> plain[((j + source) % Len(plain)) + 1]]
        rows == IF c.shuffled THEN turned ELSE plain
        o == [ok |-> TRUE, rows |-> rows,
              labels |-> IF Fault = "shuffles-points-only" THEN plain ELSE rows,
              column |-> TRUE, keys |-> TRUE, data |-> ~(Fault = "in-place" /\ c.shuffled), old |-> TRUE]
        after == IF cfg[k].seed = "none" \/ Fault = "global-generator" THEN global + 1 ELSE global
        sized == [j \in Streams |-> Sized(cfg[j])]
    IN /\ bad' = bad \cup BatchClauses(c, o) \cup SeedClauses(sized, log, k, o, global, after)
       /\ log' = [log EXCEPT ![k] = Append(@, o.rows)]
       /\ global' = after
       /\ hist' = Append(hist, [op |-> "draw", stream |-> k])
       /\ UNCHANGED cfg
Global(what) == /\ global' = global + 1 /\ hist' = Append(hist, [op |-> "global", what |-> what])
                /\ UNCHANGED <<cfg, log, bad>>
Next == /\ Len(hist) < MaxOps
        /\ (\E k \in Streams : Draw(k)) \/ (\E w \in {"draw", "seed"} : Global(w))
Spec == Init /\ [][Next]_vars
ContractHolds == bad = {}
View == <<cfg, log, bad, global, Len(hist)>>

\* generation: bursts of draws, interleaved
GInit == cfg = <<>> /\ log = <<>> /\ hist = <<>> /\ bad = {} /\ global = 0
GNext == IF Len(cfg) < NStreams
         THEN /\ \E c \in Configs : cfg' = Append(cfg, c)
              /\ UNCHANGED <<log, hist, bad, global>>
         ELSE /\ Len(hist) < MaxOps
              /\ \/ \E k \in Streams, times \in {1, 2, 3, 7, 20} :
                        hist' = Append(hist, [op |-> "draw", stream |-> k, times |-> times])
                 \/ \E w \in {"draw", "seed", "python"} : hist' = Append(hist, [op |-> "global", what |-> w])
              /\ UNCHANGED <<cfg, log, bad, global>>
GenSpec == GInit /\ [][GNext]_vars
Emit == Len(hist) = MaxOps => PrintT(ToJson([cfg |-> cfg, ops |-> hist]))

\* requests with good and bad arguments
RInit == cfg = <<>> /\ log = <<>> /\ hist = <<>> /\ bad = {} /\ global = 0
RNext == hist = <<>> /\ \E r \in Requests : hist' = <<r>> /\ PrintT(ToJson(r)) /\ UNCHANGED <<cfg, log, bad, global>>
RequestSpec == RInit /\ [][RNext]_vars
=============================================================================
