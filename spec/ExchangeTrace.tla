--------------------------- MODULE ExchangeTrace ---------------------------
(* Validates what was observed around a running server against Exchange.   *)
EXTENDS Exchange, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<vars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ Started(Tr.cfg)

TraceNext ==
  \/ IsEvent("req")  /\ Receive(Ev.v)
  \/ IsEvent("up")   /\ Forward(Ev.v)
  \/ IsEvent("ans")  /\ Answer(Ev.v)
  \/ IsEvent("resp") /\ Respond(Ev.v)
  \/ IsEvent("drop") /\ Drop
  \/ IsEvent("log")  /\ Log(Ev.v)

Accepted == ~More /\ phase \in {"idle", "done"} /\ (On("C25") /\ Tr.logs => todo = <<>>)

Progress == LET p == IF Accepted THEN l + 1 ELSE l
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup

Report == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
