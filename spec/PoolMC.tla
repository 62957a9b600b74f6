------------------------------- MODULE PoolMC -------------------------------
(* Waves of parallel requests with short and long pauses between them,     *)
(* handled by a proxy as it should be.                                     *)
EXTENDS Pool, Json
CONSTANTS Sizes, Widths, Waves, Hold, Pauses, Dump
VARIABLES plan,    \* waves so far: [width, pause before it]
          settled, opened
mcvars == <<vars, plan, settled, opened>>

MCInit == \E s \in Sizes : Started(s, 1000) /\ plan = <<>> /\ settled = TRUE /\ opened = 0
Next(k) == {opened + i : i \in 1..k}
Pick(S, n) == CHOOSE x \in SUBSET S : Cardinality(x) = n
AWave == /\ settled /\ Len(plan) < Waves
         /\ \E w \in Widths, p \in Pauses :
              LET t == now + p  live == Surely(t)  k == IF w > Cardinality(live) THEN w - Cardinality(live) ELSE 0
              IN /\ Wave(t, t + Hold, w, Next(k) \cup Pick(live, w - k), Next(k))
                 /\ opened' = opened + k
                 /\ plan' = Append(plan, [width |-> w, pause |-> p])
         /\ settled' = FALSE
Rest == /\ ~settled
        /\ \E open \in SUBSET Held : Quiet(now, open)
        /\ settled' = TRUE /\ UNCHANGED <<plan, opened>>
MCNext == AWave \/ Rest
MCSpec == MCInit /\ [][MCNext]_mcvars
----------------------------------------------------------------------------
C24_Bounded == settled => Cardinality(Held) <= size
\* never more connections than requests, and none beyond the first wave as long as the pool is not outgrown or too old
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + plan[i].width
C24_Economy == opened <= Sum(Len(plan))
RECURSIVE Spent(_)
Spent(i) == IF i <= 1 THEN 0 ELSE Spent(i - 1) + Hold + plan[i].pause
C24_Reuse == (Spent(Len(plan)) < idle /\ \A i \in DOMAIN plan : plan[i].width <= size) =>
               (plan = <<>> \/ \E i \in DOMAIN plan : opened <= plan[i].width)
DumpPlans == (Dump /\ settled /\ Len(plan) = Waves) => PrintT("PLAN " \o ToJson([size |-> size, plan |-> plan]))
=============================================================================
