----------------------------- MODULE TimeoutsMC -----------------------------
(* Plans of clients: gaps before requests and times to deliver them, on    *)
(* both sides of the limits, and a server that keeps to them exactly.      *)
EXTENDS Timeouts, Json
TheLimits == {<<1000, 4000>>, <<4000, 1000>>}
CONSTANTS Limits, Gaps, Durs, Parts, Requests, Dump
VARIABLES plan, cut   \* what the client does, and whether it was cut off
mcvars == <<vars, plan, cut>>

MCInit == \E l \in Limits : Opened(l[1], l[2], 0) /\ plan = <<>> /\ cut = FALSE
\* the first request may not wait: its limit is counted from the opening of the connection
GapsNow == IF st = "fresh" THEN {0} \cup {g \in Gaps : g < 1000} ELSE Gaps
Waits == /\ st \in {"fresh", "idle"} /\ Len(plan) < Requests /\ ~cut
         /\ \E g \in GapsNow, d \in Durs, p \in Parts :
              /\ plan' = Append(plan, [gap |-> g, dur |-> d, how |-> p])
              /\ IF st = "idle" /\ g > idle THEN Close(since + idle) /\ cut' = TRUE
                 ELSE Begin(now + g) /\ cut' = cut
Delivers == /\ st = "reading"
            /\ LET d == plan[Len(plan)].dur IN
               IF d > read THEN Close(since + read) /\ cut' = TRUE ELSE Whole(since + d) /\ cut' = cut
            /\ UNCHANGED plan
Serves == st = "served" /\ (IF upped THEN Answer(now, 200) ELSE Upstream(now)) /\ UNCHANGED <<plan, cut>>
\* a client that says nothing more
Leaves == /\ st \in {"fresh", "idle"} /\ (Len(plan) = Requests \/ st = "fresh") /\ Close(since + (IF st = "fresh" THEN read ELSE idle))
          /\ UNCHANGED <<plan, cut>>
MCNext == Waits \/ Delivers \/ Serves \/ Leaves
MCSpec == MCInit /\ [][MCNext]_mcvars
----------------------------------------------------------------------------
\* cut off exactly if too slow
TooSlow == \E i \in 1..Len(plan) : plan[i].dur > read \/ (i > 1 /\ plan[i].gap > idle)
C26_Exact == st = "gone" => (cut <=> TooSlow)
DumpPlans == (Dump /\ st = "gone") => PrintT("PLAN " \o ToJson([read |-> read, idle |-> idle, cut |-> cut, plan |-> plan]))
=============================================================================
