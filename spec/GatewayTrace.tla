---------------------------- MODULE GatewayTrace ----------------------------
(* Validates recorded executions of the real proxy against Gateway. Each   *)
(* line of the file is one trace: its configuration, the observed events   *)
(* in order, and when the proxy cancelled each upstream request.           *)
EXTENDS Gateway, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
tvars == <<vars, tid, l>>

Tr == Traces[tid]
Ev == Tr.ev[l]
More == l <= Len(Tr.ev)
IsEvent(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tid
Silent == UNCHANGED <<tid, l>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ GwInit([rep |-> Tr.rep, M |-> Tr.M, R |-> Tr.R, T |-> Tr.T])

IsAttempt(i) == i = n

TraceNext ==
  \/ IsEvent("up")    /\ StartAttempt(Ev.t, Ev.same) /\ Ev.n = n + 1
  \/ IsEvent("hdr")   /\ IsAttempt(Ev.n) /\ Header(Ev.t, Ev.s)
  \/ IsEvent("err")   /\ IsAttempt(Ev.n) /\ ConnError(Ev.t)
  \/ IsEvent("eof")   /\ IsAttempt(Ev.n) /\ BodyEnd(Ev.t)
  \/ IsEvent("break") /\ IsAttempt(Ev.n) /\ BodyBreak(Ev.t)
  \/ IsEvent("resp")  /\ Respond(Ev.t, Ev.s, Ev.src)
  \* results of attempts that the proxy no longer waits for
  \/ /\ More /\ Ev.e \in {"hdr", "err", "eof", "break"}
     /\ l' = l + 1 /\ UNCHANGED tid
     /\ Late(Ev.n, Ev.t)
  \* timers are not observable themselves. C01 does not care about timers, but an attempt is
  \* over only if it was really cancelled, and what is cancelled at the round trip deadline was
  \* cancelled by it, unless its read timeout is due at the same time
  \/ /\ Silent /\ phase = "busy" /\ AttemptTimeout(IF Timed THEN cur.start + cfg.R ELSE Tr.cancel[n])
     /\ Timed \/ Tr.cancel[n] < cfg.T \/ cur.start + cfg.R = cfg.T
  \/ Silent /\ RoundTripTimeout(IF Timed THEN cfg.T ELSE now)

\* an attempt that was given up must have been cancelled at that very time
Cancelled == On("C04") =>
  \A i \in 1..n : att[i].st \in {"timeout", "deadline"} => Tr.cancel[i] = att[i].cancelAt

Accepted == ~More /\ phase = "done" /\ Cancelled

\* bookkeeping: longest matched prefix of every trace, Len + 1 only if accepted
Progress == LET p == IF Accepted THEN l + 1 ELSE l
            IN IF TLCGet(tid) < p THEN TLCSet(tid, p) ELSE TRUE
Setup == \A i \in 1..Len(Traces) : TLCSet(i, 0)
ASSUME Setup

Report == \A i \in 1..Len(Traces) :
            TLCGet(i) <= Len(Traces[i].ev) + 1 => PrintT("REJECT " \o ToString(i) \o " " \o ToString(TLCGet(i)))

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
