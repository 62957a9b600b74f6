---- MODULE TimeoutsTrace ----
EXTENDS Timeouts, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Opened(Tr.read, Tr.idle, Tr.t)
TraceNext == \/ IsEvent("begin")  /\ Begin(Ev.t)
             \/ IsEvent("whole")  /\ Whole(Ev.t)
             \/ IsEvent("up")     /\ Upstream(Ev.t)
             \/ IsEvent("answer") /\ Answer(Ev.t, Ev.v)
             \/ IsEvent("close")  /\ Close(Ev.t)
             \/ IsEvent("end")    /\ Pass(Ev.t)
Accepted == ~More
Progress == LET p == IF Accepted THEN l + 1 ELSE l
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup
Report == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
====
