------------------------------ MODULE Chains ------------------------------
(***************************************************************************)
(* Traces of chains, their accessors, and the extraction of one or several *)
(* chains from samplers (C29, C30, C31).                                   *)
(*                                                                         *)
(* A trace is a sequence of draws, each of which gives every variable a    *)
(* value.  Draws are tokens: for traces made by hand they name contents    *)
(* chosen by the specification, for traces taken from a sampler the number *)
(* of the sampler's state (its j-th step ends in state j).  The harness    *)
(* names every value it is shown as a pair <<draw, variable>>, <<0, 0>> if *)
(* it is none that was ever recorded.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the whole state: the traces there are, how far the sampler got, and whether a chain was taken from it when it
\* was past all its phases (what that did not build is not built later)
Nothing(params) == [traces |-> <<>>, pos |-> 0, params |-> params, settled |-> FALSE]
Phases == 4
Trace(chain, draws, names) == [chain |-> chain, draws |-> draws, names |-> names]

Enumerated(width) == [v \in 1..width |-> ToString(v - 1)]
Index(names, name) == CHOOSE v \in DOMAIN names : names[v] = name
Has(names, name) == \E v \in DOMAIN names : names[v] = name

\* draws without the first `burn`, and every `thin`-th of the others
Kept(draws, burn, thin) ==
    LET n == IF burn >= Len(draws) THEN 0 ELSE (Len(draws) - burn - 1) \div thin + 1
    IN [j \in 1..n |-> draws[burn + 1 + (j - 1) * thin]]
\* every k-th state beginning with the first after `pos`
Thinned(pos, n, k) == [j \in 1..n |-> pos + 1 + (j - 1) * k]

Column(tr, v) == [j \in DOMAIN tr.draws |-> <<tr.draws[j], v>>]
Pairs(draws, v) == [j \in DOMAIN draws |-> <<draws[j], v>>]
Range(q) == {q[j] : j \in DOMAIN q}

\* the places that a slice of n variables selects, in its order; bounds of 0 leave that end open,
\* steps of -1 (with open ends only) run backwards
Places(n, from, to, step) ==
    LET lo == from + 1
        hi == IF to = 0 \/ to > n THEN n ELSE to
    IN IF step < 0 THEN [j \in 1..n |-> n + 1 - j]
       ELSE IF lo > hi THEN <<>> ELSE [j \in 1..((hi - lo) \div step + 1) |-> lo + (j - 1) * step]
Sliced(q, op) == LET places == Places(Len(q), op.from, op.to, op.step) IN [j \in DOMAIN places |-> q[places[j]]]

\* draws are counted from 1, negative numbers count from the end
Draw(draws, number) == IF number < 0 THEN draws[Len(draws) + 1 + number] ELSE draws[number]

\* names are not given at all (<<>>), given but none, or given
NoNames == <<"(none)">>
Fits(names, width) == names = <<>> \/ (names # NoNames /\ Len(names) = width)
Accepted(op) ==
    /\ op.width > 0 /\ op.draws # <<>> /\ op.form # "generator"
    /\ Fits(op.names, op.width)
Made(op) == Trace(op.chain, op.draws, IF op.names = <<>> THEN Enumerated(op.width) ELSE op.names)
Extracted(s, op) == Trace(op.chain, Thinned(s.pos, op.n, op.k), IF op.names = <<>> THEN s.params ELSE op.names)
Width(s, op) == op.op = "extract" => op.n > 0 /\ Fits(op.names, Len(s.params))

Enabled(s, op) ==
    CASE op.op \in {"values", "index", "point", "slice", "length"} ->
            /\ op.of \in DOMAIN s.traces
            /\ op.op = "point" => {op.draw, 0 - op.draw} \cap DOMAIN s.traces[op.of].draws # {}
            \* slices select variables as they come
            /\ op.op = "slice" => /\ Sliced(s.traces[op.of].names, op) # <<>>
                                  /\ op.step < 0 => op.from = 0 /\ op.to = 0
      [] OTHER -> TRUE

\* the number of steps an extraction takes is not fixed: what comes after the last draw is optional
Positions(s, op) == IF op.op = "step" THEN {s.pos + op.n}
                    ELSE IF op.op = "extract" /\ op.n > 0 THEN s.pos + (op.n - 1) * op.k + 1 .. s.pos + op.n * op.k
                    ELSE {s.pos}

Apply(s, op, pos) ==
    CASE op.op = "make" -> IF Accepted(op) THEN [s EXCEPT !.traces = Append(@, Made(op))] ELSE s
      [] op.op = "step" -> [s EXCEPT !.pos = pos]
      [] op.op = "extract" -> IF Width(s, op) THEN [s EXCEPT !.traces = Append(@, Extracted(s, op)), !.pos = pos,
                                                             !.settled = @ \/ s.pos >= Phases]
                              ELSE [s EXCEPT !.pos = pos]
      [] OTHER -> s

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* a trace as it shows itself: its chain, its names, and by variable the values of all draws
Shows(obs, tr) == /\ obs.chain = tr.chain
                  /\ obs.names = tr.names
                  /\ obs.length = Len(tr.draws)
                  /\ obs.columns = [v \in DOMAIN tr.names |-> Column(tr, v)]

DefaultKeep == 10
Keep(op) == IF op.k = 0 THEN DefaultKeep ELSE op.k

Clauses(s, op, obs) ==
    CASE op.op = "make" ->
            IF Accepted(op) THEN Clause("C29.made", obs.ok /\ Shows(obs.trace, Made(op)))
            ELSE Clause("C29.rejects", ~obs.ok)
      [] op.op = "extract" ->
            IF Width(s, op)
            THEN Clause("C30.draws", obs.ok /\ Shows(obs.trace, Extracted(s, op)))
                 \cup Clause("C30.position", obs.pos \in Positions(s, op))
                 \cup Clause("C36.extraction-adds-nothing", s.settled => obs.grown = 0)
            ELSE Clause("C29.rejects", ~obs.ok)
      [] op.op = "step" -> Clause("C30.position", obs.ok /\ obs.pos = s.pos + op.n)
      [] op.op = "length" -> Clause("C29.length", obs.ok /\ obs.length = Len(s.traces[op.of].draws))
      [] op.op = "values" ->
            LET tr == s.traces[op.of] IN
            IF Has(tr.names, op.name)
            THEN Clause("C29.values", obs.ok /\ obs.values = Pairs(Kept(tr.draws, op.burn, op.thin), Index(tr.names, op.name)))
            ELSE Clause("C29.rejects", ~obs.ok)
      [] op.op = "index" ->
            LET tr == s.traces[op.of] IN
            IF op.index \in 0..Len(tr.names) - 1
            THEN Clause("C29.index", obs.ok /\ obs.values = Column(tr, op.index + 1))
            ELSE Clause("C29.rejects", ~obs.ok)
      [] op.op = "point" ->
            LET tr == s.traces[op.of] IN
            Clause("C29.point", obs.ok /\ Len(obs.point) = Len(tr.names) /\
                   Range(obs.point) = {<<tr.names[v], Draw(tr.draws, op.draw), v>> : v \in DOMAIN tr.names})
      [] op.op = "slice" ->
            LET tr == s.traces[op.of]
                places == Places(Len(tr.names), op.from, op.to, op.step)
                kept == Sliced(tr.names, op)
            IN Clause("C29.slice", obs.ok /\ obs.trace.chain = tr.chain /\ obs.trace.names = kept /\
                      obs.trace.columns = [v \in DOMAIN kept |-> Column(tr, places[v])])
      [] op.op = "multi" ->
            LET n == op.chains
                expected(c) == Trace(c - 1, Thinned(op.burnt, op.n, Keep(op)), IF op.names = <<>> THEN s.params ELSE op.names)
            IN IF ~obs.ok THEN {"C31.succeeds"} ELSE
               Clause("C31.one-call-per-chain", Len(obs.calls) = n)
               \cup Clause("C31.fresh-graphs", \A c \in DOMAIN obs.calls : obs.calls[c].fresh /\ obs.calls[c].own_session)
               \cup Clause("C31.undisturbed", \A c \in DOMAIN obs.calls : obs.calls[c].undisturbed)
               \cup Clause("C31.sessions-closed", \A c \in DOMAIN obs.calls : obs.calls[c].closed)
               \cup Clause("C31.chains", Len(obs.traces) = n /\ \A c \in 1..n : Shows(obs.traces[c], expected(c)))
               \cup Clause("C31.diagnostic", obs.asked = op.fun /\ obs.result_is_passed_on)
               \cup Clause("C31.position", \A c \in DOMAIN obs.calls : obs.calls[c].pos
                           \in op.burnt + (op.n - 1) * Keep(op) + 1 .. op.burnt + op.n * Keep(op))
      [] OTHER -> {}
===========================================================================
