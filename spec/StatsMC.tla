------------------------------- MODULE StatsMC -------------------------------
(* Histories of every shape: started empty, part full or full, with and     *)
(* without placeholders, then filled with any mix of sizes.                 *)
EXTENDS Stats, Json
CONSTANTS Starts, Fills, Steps, Kinds, Dump
VARIABLES plan, all
mcvars == <<hist, plan, all>>

\* memory sizes around the doubling of 10
Rss(k) == CASE k = "base" -> 10 [] k = "less" -> 4 [] k = "near" -> 19 [] k = "double" -> 20 [] k = "over" -> 21 [] k = "huge" -> 90 [] OTHER -> 0
S(k, i) == [pid |-> IF k = "zero" THEN 0 ELSE 7, rss |-> Rss(k), tag |-> i]
Many(k, n, i) == [j \in 1..n |-> S(k, i + j)]
MCInit == \E n \in Starts, k \in {"zero", "base"} :
            /\ plan = <<[do |-> "start", n |-> n, k |-> k]>>
            /\ all = Many(k, n, 0) /\ Begin(all)
Fill == /\ Len(plan) <= Steps
        /\ \E n \in Fills, k \in Kinds :
             LET more == Many(k, n, Len(all)) IN
             /\ plan' = Append(plan, [do |-> "fill", n |-> n, k |-> k])
             /\ all' = all \o more
             /\ hist' = LastOf(hist \o more, Max)
MCNext == Fill
MCSpec == MCInit /\ [][MCNext]_mcvars
----------------------------------------------------------------------------
\* appending one by one or at once is the same: always the most recent, in order
C22_Recent == hist = LastOf(all, Max)
C22_Order == \A i \in 1..Len(hist) - 1 : hist[i].tag + 1 = hist[i + 1].tag
TheReport == [i \in 1..Len(hist) |-> IF Placeholders(hist) THEN [x |-> 0, high |-> FALSE]
                                     ELSE [x |-> hist[i].rss, high |-> hist[i].rss >= 2 * hist[1].rss]]
C22_Report == /\ GoodReport(hist, TheReport)
              /\ (Len(hist) > 0 /\ hist[1].rss > 0) => ~TheReport[1].high
              /\ Growing(hist) <=> \E i \in 1..Len(hist) : TheReport[i].high
DumpPlans == (Dump /\ Len(plan) = Steps + 1) => PrintT("PLAN " \o ToJson(plan))
=============================================================================
