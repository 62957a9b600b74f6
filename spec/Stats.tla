-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* The history of resource samples (stats.go) and the report of memory     *)
(* growth made from it.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Max   \* samples kept

VARIABLE hist  \* of [pid, rss, tag]; pid 0 for a placeholder

LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Placeholders(h) == \E i \in 1..Len(h) : h[i].pid = 0

\* the report: one entry per sample, its memory relative to the oldest (here: times that of the oldest)
GoodReport(h, g) ==
  /\ Len(g) = Len(h)
  /\ IF Placeholders(h) THEN \A i \in 1..Len(g) : g[i].x = 0 /\ ~g[i].high
     ELSE \A i \in 1..Len(g) : g[i].x = h[i].rss /\ (g[i].high <=> h[i].rss >= 2 * h[1].rss)
Growing(h) == ~Placeholders(h) /\ \E i \in 1..Len(h) : h[i].rss >= 2 * h[1].rss

Begin(h)   == hist = h
Append1(s) == hist' = LastOf(Append(hist, s), Max)
Report(g)  == GoodReport(hist, g) /\ UNCHANGED hist
\* one hour of a running server: a sample, and growth is told or not; which of the two comes first is left open
Hour(s, told) == Append1(s) /\ (told = Growing(hist) \/ told = Growing(LastOf(Append(hist, s), Max)))

----------------------------------------------------------------------------
C22_Bounded == Len(hist) <= Max
=============================================================================
