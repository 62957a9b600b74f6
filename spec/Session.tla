------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A client connection (server.go, proxyhandler.go, responses.go): every   *)
(* valid request gets exactly one well formed response, in order and in    *)
(* time, and the connection remains usable.                                *)
(*                                                                         *)
(* A request is                                                            *)
(*   [valid   it is a syntactically valid HTTP request                     *)
(*    head    its method is HEAD                                           *)
(*    ver     10 or 11 or 20                                               *)
(*    close   it asks for the connection to be closed                      *)
(*    expect  it has an Expect header                                      *)
(*    upgrade it asks for, or is a request for, another protocol           *)
(*    large   it declares or has a body above the limit                    *)
(*    len     length of the body sent                                      *)
(*    refuse  net/http itself refuses it (no Host, Expect, codings)        *)
(*    upclose an upstream answer to it may have asked for its connection   *)
(*            to be closed: hop by hop headers of upstreams are passed on] *)
(* A response is [status, head (whether it is to a HEAD request), cl, te   *)
(* (number of such header fields), close, ms].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Grace    \* ms beyond the round trip deadline

VARIABLES rt,     \* round trip deadline, ms
          queue,  \* requests sent and not answered, in order
          line,   \* open: usable; ending: the proxy may close it now; shut: nothing more comes
          sent, answered,
          murky   \* something that is not a valid request was sent: what follows it may be taken for anything

vars == <<rt, queue, line, sent, answered, murky>>

Started(t) == rt = t /\ queue = <<>> /\ line = "open" /\ sent = 0 /\ answered = 0 /\ murky = FALSE

Send(r) ==
  /\ queue' = Append(queue, r)
  /\ sent' = sent + 1
  /\ murky' = (murky \/ ~r.valid)
  /\ UNCHANGED <<rt, line, answered>>

\* what net/http reads of a body nobody wanted before it gives the connection up
Drain == 262144
Ends(r) == \/ r.close \/ r.ver = 10 \/ r.large \/ r.expect \/ r.upgrade \/ r.refuse \/ r.upclose \/ r.len > Drain
           \/ ~r.valid

Bodiless(r, a) == r.head \/ a.status \in {101, 204, 304}
WellFormed(r, a) ==
  /\ a.status \in 200..599 \/ (a.status = 101 /\ r.upgrade)
  /\ a.cl <= 1 /\ a.te <= 1 /\ ~(a.cl = 1 /\ a.te = 1)
  /\ (a.status = 204 /\ r.ver # 20) => (a.cl = 0 /\ a.te = 0)
  /\ r.ver = 10 => a.te = 0

Answer(a) ==
  /\ queue # <<>>
  /\ line \in {"open", "ending"}
  /\ LET r == Head(queue) IN
       /\ WellFormed(r, a)
       /\ a.ms <= rt + Grace
       /\ a.close => Ends(r)
       /\ line' = IF a.close THEN "shut" ELSE IF Ends(r) \/ line = "ending" THEN "ending" ELSE "open"
  /\ queue' = Tail(queue)
  /\ answered' = answered + 1
  /\ UNCHANGED <<rt, sent, murky>>

\* the connection is gone with requests unanswered
Drop ==
  /\ queue # <<>>
  /\ line \in {"ending", "shut"} \/ ~Head(queue).valid \/ Head(queue).refuse
  /\ line' = "shut"
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<rt, sent, answered, murky>>

\* the proxy closes an idle connection before its idle timeout
Close ==
  /\ queue = <<>>
  /\ line \in {"ending", "shut"}
  /\ line' = "shut"
  /\ UNCHANGED <<rt, queue, sent, answered, murky>>

\* the client is done: nothing it did not ask for has come
Finish(extra) ==
  /\ extra = 0 \/ murky
  /\ queue = <<>>
  /\ UNCHANGED vars

----------------------------------------------------------------------------
C06_NoneTwice == answered + Len(queue) <= sent
\* a connection on which nothing but valid, plain requests were made is open
C06_Usable == [][line' # "open" => \/ line # "open"
                                   \/ queue # <<>> /\ Ends(Head(queue))]_vars
\* none is lost while the connection is usable
C06_All == line = "open" => answered + Len(queue) = sent
=============================================================================
