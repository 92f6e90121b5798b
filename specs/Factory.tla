------------------------------ MODULE Factory ------------------------------
(* How a sampler request is resolved (C16): which class is constructed with   *)
(* which arguments, and which requests are refused.                           *)
(* Values are named by tokens: "given" is the caller's ordinary value,        *)
(* "falsy" a value of the caller's that Python regards as false (0, None, {}).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

Methods == {"SGHMC", "SGLD", "RelativisticSGHMC", "SVGD"}
BurnInMethods == {"SGHMC", "SGLD"}
\* things callers pass as methods that are no members of the enumeration
Strangers == {"name-string", "value-string", "none", "zero", "true", "other-enum", "class", "lower-case", "object"}

ClassOf == [SGHMC |-> "SGHMCSampler", SGLD |-> "SGLDSampler",
            RelativisticSGHMC |-> "RelativisticSGHMCSampler", SVGD |-> "SVGDSampler"]

Common == [batch_generator |-> "None", session |-> "None", dtype |-> "float64", seed |-> "None"]
BurnIn == Common @@ [burn_in_steps |-> "3000", scale_grad |-> "1.0", stepsize_schedule |-> "constant 0.01"]
\* the documented default of every optional argument
Defaults == [SGHMC |-> BurnIn @@ [mdecay |-> "0.05"],
             SGLD |-> BurnIn @@ [A |-> "1.0"],
             RelativisticSGHMC |-> Common @@ [stepsize_schedule |-> "constant 0.001", mass |-> "1.0",
                                              speed_of_light |-> "1.0", D |-> "1.0", Bhat |-> "0.0"],
             SVGD |-> Common @@ [stepsize_schedule |-> "constant 0.1", alpha |-> "0.9", fudge_factor |-> "1e-06"]]
Mandatory == [SGHMC |-> {"params", "cost_fun"}, SGLD |-> {"params", "cost_fun"},
              RelativisticSGHMC |-> {"params", "cost_fun"}, SVGD |-> {"particles", "cost_fun"}]
Takes(m) == DOMAIN Defaults[m] \cup Mandatory[m]
AllArguments == UNION {Takes(m) : m \in Methods}
Nonsense == {"unknown_argument", "self", "Seed"}

(* A request: a method, the arguments given (a function from names to tokens). *)
Outcome(method, given) ==
    IF \/ method \notin Methods
       \/ \E a \in DOMAIN given : a \notin Takes(method)
       \/ \E a \in Mandatory[method] : a \notin DOMAIN given
    THEN [error |-> "ValueError"]
    ELSE [class |-> ClassOf[method],
          arguments |-> [a \in Takes(method) |->
              IF a \in DOMAIN given THEN given[a] ELSE Defaults[method][a]]]

Classified(method) == [burnIn |-> method \in BurnInMethods,
                       supported |-> IF method \in BurnInMethods THEN {TRUE}
                                     ELSE IF method \in Methods THEN {TRUE, FALSE} ELSE {FALSE}]

\* what the design rests on
ASSUME \A m \in Methods : DOMAIN Defaults[m] \cap Mandatory[m] = {}
ASSUME \A m \in Methods : Outcome(m, [a \in Mandatory[m] |-> "given"]).class = ClassOf[m]
ASSUME \A m, n \in Methods : m # n => ClassOf[m] # ClassOf[n]
=============================================================================
