---- MODULE BootTrace ----
EXTENDS Boot, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Begin(Tr.src, Tr.conf)
TraceNext == \/ IsEvent("listen") /\ Listen
             \/ IsEvent("exit")   /\ Exit(Ev.code)
             \/ Load /\ UNCHANGED <<tid, l>>
Accepted == ~More
Progress == LET p == IF Accepted THEN l + 1 ELSE l
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup
Report_ == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
====
