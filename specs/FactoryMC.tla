----------------------------- MODULE FactoryMC -----------------------------
(* Callers assembling a request argument by argument; every reachable request *)
(* is checked against the documented rules and printed for replay.            *)
EXTENDS Factory, Json
CONSTANTS MaxFalsy, MaxStrange
VARIABLES method, given, hints
vars == <<method, given, hints>>

Falsifiable == AllArguments \ {"dtype", "params", "particles", "cost_fun", "stepsize_schedule"}
Init == /\ method \in Methods \cup {"name-string"} /\ given = <<>> /\ hints = 0
Count(P(_)) == Cardinality({a \in DOMAIN given : P(a)})
Falsy(a) == given[a] = "falsy"
Strange(a) == method \notin Methods \/ a \notin Takes(method)
Names == <<"params", "particles", "cost_fun", "batch_generator", "stepsize_schedule", "burn_in_steps", "mdecay", "A",
           "scale_grad", "mass", "speed_of_light", "D", "Bhat", "alpha", "fudge_factor", "session", "dtype", "seed",
           "unknown_argument", "self", "Seed">>
Give == /\ hints < Len(Names)
        /\ LET a == Names[hints + 1] IN
           \/ given' = given
           \/ (Strange(a) => Count(Strange) < MaxStrange) /\ given' = given @@ (a :> "given")
           \/ a \in Falsifiable /\ ~Strange(a) /\ Count(Falsy) < MaxFalsy /\ given' = given @@ (a :> "falsy")
        /\ hints' = hints + 1 /\ method' = method
\* a mandatory argument is left out only in requests without other oddities
Sensible == (method \in Methods /\ \E a \in Mandatory[method] : a \notin DOMAIN given) => Count(Strange) = 0
Submit == /\ hints = Len(Names) /\ hints' = hints + 1 /\ UNCHANGED <<method, given>>
          /\ Sensible
          /\ PrintT(ToJson([method |-> method, given |-> given,
                              valid |-> "error" \notin DOMAIN Outcome(method, given)]))
Next == Give \/ Submit
Spec == Init /\ [][Next]_vars

\* consequences of the rules that users rely on
GivenWins == LET o == Outcome(method, given)
             IN "error" \notin DOMAIN o => \A a \in DOMAIN given : o.arguments[a] = given[a]
Complete == LET o == Outcome(method, given)
            IN "error" \notin DOMAIN o => DOMAIN o.arguments = Takes(method)
Refused == (method \in Methods /\ DOMAIN given \subseteq Takes(method) /\ Mandatory[method] \subseteq DOMAIN given)
           <=> "error" \notin DOMAIN Outcome(method, given)
=============================================================================
