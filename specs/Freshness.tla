---------------------------- MODULE Freshness ----------------------------
(* C11: the noise of a sampler.  Every step draws one number per element   *)
(* of every target parameter; no number is used twice.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* draws: sequence over steps of sequences over elements (all parameters, flattened) of tokens;
\* tokens are equal iff the absolute values of the draws are.
Draws(d) == {<<t, e>> : t \in 1..Len(d), e \in 1..Len(d[1])}
Repeated(d) == Cardinality(Draws(d)) - Cardinality({d[p[1]][p[2]] : p \in Draws(d)})
\* two independent draws agree to all compared digits with negligible probability; `slack` of them are forgiven
Fresh(d, slack) == Repeated(d) <= slack

\* Counts: of n independent standard normal draws the fraction below a point lies within a bound of its
\* probability except with probability 1e-9 (Hoeffding); all in 1/1000.
Abs(x) == IF x < 0 THEN -x ELSE x
Plausible(count, n, permille, bound) == Abs(1000 * count - n * permille) <= bound * n
==========================================================================
