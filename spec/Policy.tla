------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* Which upstream of a resource a route uses (policy.go, mapURL in         *)
(* route.go). Weights are in hundredths. Outcomes are the number of the    *)
(* upstream that got the request, or 0 for a request answered 503.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES conf,    \* [policy : BOOLEAN, weights : <<[label, w]>>, ups : <<set of labels, as a sequence>>]
          hist,    \* outcome -> how often, after a request of the same kind
          noisy,   \* outcome -> how often, after other traffic
          pairs,   \* <<outcome, outcome>> -> how often in succession
          prev,    \* previous outcome, -1 at the beginning
          quiet    \* nothing happened since the previous outcome

vars == <<conf, hist, noisy, pairs, prev, quiet>>

Range(s) == {s[i] : i \in 1..Len(s)}
Outcomes == 0..Len(conf.ups)

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
RECURSIVE WeightOf(_, _)
WeightOf(l, i) == IF i = 0 THEN 0 ELSE WeightOf(l, i - 1) + (IF conf.weights[i].label = l THEN conf.weights[i].w ELSE 0)

Total == LET RECURSIVE T(_)
             T(i) == IF i = 0 THEN 0 ELSE T(i - 1) + conf.weights[i].w
         IN T(Len(conf.weights))
\* what the weights leave over belongs to the label default
Labels == {conf.weights[i].label : i \in 1..Len(conf.weights)} \cup (IF Total < 100 THEN {"default"} ELSE {})
Weight(l) == WeightOf(l, Len(conf.weights)) + (IF l = "default" /\ Total < 100 THEN 100 - Total ELSE 0)
Live == {l \in Labels : Weight(l) > 0}

\* outcomes that mean label l
Means(l) == LET u == {i \in 1..Len(conf.ups) : l \in Range(conf.ups[i])} IN IF u = {} THEN {0} ELSE u

Possible == IF ~conf.policy THEN (IF conf.ups = <<>> THEN {0} ELSE {1})
            ELSE UNION {Means(l) : l \in Live}

Zero == [o \in Outcomes |-> 0]
Started(c) == /\ conf = c
              /\ hist = [o \in 0..Len(c.ups) |-> 0]
              /\ noisy = [o \in 0..Len(c.ups) |-> 0]
              /\ pairs = [p \in (0..Len(c.ups)) \X (0..Len(c.ups)) |-> 0]
              /\ prev = -1 /\ quiet = TRUE

Choose(o) ==
  /\ o \in Possible
  /\ IF quiet THEN hist' = [hist EXCEPT ![o] = @ + 1] /\ UNCHANGED noisy
              ELSE noisy' = [noisy EXCEPT ![o] = @ + 1] /\ UNCHANGED hist
  /\ pairs' = IF prev >= 0 THEN [pairs EXCEPT ![<<prev, o>>] = @ + 1] ELSE pairs
  /\ prev' = o
  /\ quiet' = TRUE
  /\ UNCHANGED conf

\* any other request: errors, about, other routes
Other == quiet' = FALSE /\ UNCHANGED <<conf, hist, noisy, pairs, prev>>

----------------------------------------------------------------------------
(* Observed frequencies fit the weights. K standard deviations are granted *)
(* so that a fair choice is refused with a probability below 10^-11.       *)

K == 7
Isqrt(x) == LET RECURSIVE S(_, _)
                S(lo, hi) == IF hi - lo <= 1 THEN hi
                             ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN S(m, hi) ELSE S(lo, m)
            IN S(0, 46000)

\* h: a histogram. Every set of labels got at least its share
Fair(h) ==
  LET N == Sum(h, DOMAIN h)
  IN N > 0 =>
     \A L \in SUBSET Live :
        LET w == LET f == [l \in Live |-> Weight(l)] IN Sum(f, L)
            O == UNION {Means(l) : l \in L}
        IN 100 * Sum(h, O) >= N * w - K * Isqrt(N * w * (100 - w)) - 100

Distinct == \A l, m \in Live : l # m => Means(l) \cap Means(m) = {}
Independent ==
  Distinct => LET N == Sum(pairs, DOMAIN pairs)
              IN \A l, m \in Live :
                   Sum(pairs, Means(l) \X Means(m)) >= (((N * Weight(l)) \div 100) * Weight(m)) \div 100 - 6 * Isqrt(N) - 1

\* two servers (or the same one restarted) do not make the same choices. a, b: outcomes of two histories with
\* at least n choices between equally likely labels
Differ(a, b) == a # b

FairSoFar == conf.policy => Fair(hist) /\ Fair(noisy) /\ Independent
C09_ZeroNever == \A o \in Outcomes : (hist[o] + noisy[o] > 0) =>
                    ~conf.policy \/ \E l \in Live : o \in Means(l)
=============================================================================
