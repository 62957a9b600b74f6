---- MODULE StatsTrace ----
EXTENDS Stats, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<hist, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

Held(h) == Len(h) = Len(hist) /\ \A i \in 1..Len(h) : h[i] = hist[i]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Begin(Tr.start)
TraceNext == \/ IsEvent("append") /\ Append1(Ev.v)
             \/ IsEvent("held")   /\ Held(Ev.v) /\ UNCHANGED hist
             \/ IsEvent("report") /\ Report(Ev.v)
             \/ IsEvent("hour")   /\ Hour(Ev.v, Ev.told)
Accepted == ~More
Progress == LET p == IF Accepted THEN l + 1 ELSE l
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup
Report0 == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
====
