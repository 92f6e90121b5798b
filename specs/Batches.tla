------------------------------ MODULE Batches ------------------------------
(* Minibatch streams over datasets (C17, C18, C19).                           *)
(* A stream has a configuration: the number of datapoints n, the batch size   *)
(* b, whether it shuffles, and a seed (0: none).  Datapoints and their labels *)
(* are named by their position in the dataset; a batch is observed as the     *)
(* positions of its rows and of its labels.  Several streams are drawn from   *)
(* in any order, next to uses of the global random generator.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Size(c) == Min(c.b, c.n)
Windows(c) == c.n - Size(c) + 1
Window(start, size) == [i \in 1..size |-> start + i - 1]
Range(s) == {s[i] : i \in DOMAIN s}
Lowest(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x <= y
\* a permutation of consecutive datapoints
IsBlock(s) == \/ Len(s) = 0
              \/ /\ Cardinality(Range(s)) = Len(s)
                 /\ Range(s) = Lowest(s)..(Lowest(s) + Len(s) - 1)
Relative(s) == [i \in DOMAIN s |-> s[i] - Lowest(s)]

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* what every batch of a stream satisfies
BatchClauses(c, o) ==
    LET id == IF c.shuffled THEN "C18." ELSE "C17." IN
    IF ~o.ok THEN {"ANY.draws"} ELSE
    Clause("C17.size", Len(o.rows) = Size(c) /\ Len(o.labels) = Size(c)) \cup
    Clause(id \o "pairs", o.labels = o.rows) \cup
    Clause(id \o "window", IF c.shuffled THEN IsBlock(o.rows)
                           ELSE Len(o.rows) > 0 => o.rows = Window(o.rows[1], Len(o.rows))) \cup
    Clause(id \o "within-data", \A i \in DOMAIN o.rows : o.rows[i] \in 0..(c.n - 1)) \cup
    Clause("C17.column", o.column) \cup
    Clause("C17.keyed-by-placeholders", o.keys) \cup
    Clause(id \o "dataset-unchanged", o.data) \cup
    Clause(id \o "earlier-batches-unchanged", o.old)

\* one stream's draws so far
SeedClauses(cfg, log, k, o, before, after) ==
    LET c == cfg[k]
        n == Len(log[k]) + 1
        twins == {j \in DOMAIN cfg \ {k} : cfg[j] = c /\ c.seed # "none" /\ Len(log[j]) >= n}
    IN Clause("C19.same-seed-same-batch", \A j \in twins : log[j][n] = o.rows) \cup
       Clause("C19.global-generator-untouched", c.seed = "none" \/ before = after)

\* what long enough streams satisfy, except with probability below 1e-9 each
StreamClauses(c, s) ==
    Clause("C17.every-window", Len(s) < 30 * Windows(c) \/
           {Lowest(s[i]) : i \in DOMAIN s} = 0..(Windows(c) - 1)) \cup
    \* large datasets: draws reach the first and the last twentieth of the windows
    Clause("C17.reaches-all-parts", Len(s) < 450 \/ Windows(c) < 40 \/
           (/\ \E i \in DOMAIN s : Lowest(s[i]) < Windows(c) \div 20 + 1
            /\ \E i \in DOMAIN s : Lowest(s[i]) >= Windows(c) - Windows(c) \div 20 - 1)) \cup
    Clause("C18.orders-vary",
           ~c.shuffled \/ Size(c) < 2 \/ Len(s) < (IF Size(c) = 2 THEN 40 ELSE 20) \/
           (/\ Cardinality({Relative(s[i]) : i \in DOMAIN s}) > 1
            /\ \E i \in DOMAIN s : Relative(s[i]) # Window(0, Len(s[i]))))

PairClauses(cfg, log) ==
    Clause("C19.different-seeds-differ",
           \A j, k \in DOMAIN cfg :
              (j < k /\ cfg[j].seed # "none" /\ cfg[k].seed # "none" /\ cfg[j].seed # cfg[k].seed /\
               [cfg[j] EXCEPT !.seed = ""] = [cfg[k] EXCEPT !.seed = ""] /\ Len(log[j]) >= 30 /\ Len(log[k]) >= 30 /\
               (Windows(cfg[j]) > 1 \/ (cfg[j].shuffled /\ Size(cfg[j]) > 1)))
              => \E i \in 1..30 : log[j][i] # log[k][i])

\* arguments a stream refuses before it produces anything
GoodSizes == {"1", "7", "1000000"}
BadSizes == {"zero", "negative", "float", "string", "none"}
GoodSeeds == {"none", "0", "1", "largest"}
BadSeeds == {"negative", "too-large", "float", "string"}
GoodLabels == {"one per point", "column"}
BadLabels == {"one less", "one more", "empty"}
Requests == [size : GoodSizes \cup BadSizes, seed : GoodSeeds \cup BadSeeds,
             labels : GoodLabels \cup BadLabels, shuffled : BOOLEAN]
Accepts(r) == r.size \in GoodSizes /\ r.seed \in GoodSeeds /\ r.labels \in GoodLabels
=============================================================================
