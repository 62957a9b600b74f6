----------------------------- MODULE AuthTrace -----------------------------
EXTENDS Auth, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

Range(s) == {s[i] : i \in 1..Len(s)}
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Started(Tr.cfg, [j \in DOMAIN Tr.cfg |-> Range(Tr.held[j])])
TraceNext == \/ IsEvent("time")    /\ Advance(Ev.t)
             \/ IsEvent("req")     /\ Request(Ev.j, Ev.tok, Ev.status, Ev.ups)
             \/ IsEvent("fetch")   /\ Fetch(Ev.j)
             \/ IsEvent("fetched") /\ Fetched(Ev.j, Ev.whole, Ev.es)
Progress == LET p == IF More THEN l ELSE l + 1
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
