------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Content of client exchanges: what the proxy receives, sends upstream,   *)
(* gets back, answers and logs (proxy.go, proxyhandler.go, server.go,      *)
(* responses.go, gzip.go, iprex.go). Timing and the number of attempts are *)
(* the business of Gateway, the choice of the route that of Route.         *)
(*                                                                         *)
(* One behaviour is the life of a server: any number of exchanges, one     *)
(* after the other. Bodies are represented by digests and lengths, headers *)
(* by sequences of <<lower case name, value>>.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Focus   \* "ALL", or the id of the one property that is being judged

VARIABLES cfg,    \* [max : body limit, M : max attempts, tls : BOOLEAN, hsts : STRING]
          phase,  \* idle, received, waiting (an upstream request is out), answered, done
          req,    \* the request of the current exchange
          ups,    \* requests sent upstream in the current exchange
          ans,    \* answers of the upstream in the current exchange
          resp,   \* <<>> or <<response>>
          ids,    \* request ids used by earlier exchanges
          todo    \* exchanges that still must show up in the access log

vars == <<cfg, phase, req, ups, ans, resp, ids, todo>>

On(p) == Focus \in {"ALL", p}
\* isolation (C23): every exchange, looked at on its own, is as if there were no others
Judged(ps) == Focus \in {"ALL", "C23"} \/ Focus \in ps

----------------------------------------------------------------------------
(* Headers *)

Vals(hs, k) == LET s == SelectSeq(hs, LAMBDA h : h[1] = k) IN [i \in 1..Len(s) |-> s[i][2]]
Names(hs)   == {hs[i][1] : i \in 1..Len(hs)}
Has(hs, k)  == k \in Names(hs)

Join(vs) == IF vs = <<>> THEN "" ELSE
            LET RECURSIVE J(_)
                J(i) == IF i = Len(vs) THEN vs[i] ELSE vs[i] \o ", " \o J(i + 1)
            IN J(1)

NeverCopied == {"date", "content-length", "transfer-encoding", "server"}
Owned       == {"content-encoding", "x-request-id"}
HopByHop    == {"connection", "keep-alive", "proxy-connection", "te", "trailer", "upgrade", "expect"}

----------------------------------------------------------------------------
(* Bodies and codings *)

Gzips      == {"gzip", "x-gzip", "GZIP", "Gzip", "X-GZIP"}
Identities == {"", "identity", "Identity"}

BodyVerdict(r) ==
  CASE r.declared > cfg.max -> "large"
    [] r.len > cfg.max      -> "large"
    [] r.broken             -> "broken"
    [] OTHER                -> "ok"

\* does the client accept gzip? r.ae: sequence of <<coding, weight in thousandths>>
GzipWish(r) ==
  LET g == {i \in 1..Len(r.ae) : r.ae[i][1] \in Gzips}
      s == {i \in 1..Len(r.ae) : r.ae[i][1] = "*"}
  IN CASE \E i \in g : r.ae[i][2] > 0 -> "yes"
       [] g # {}                      -> "no"
       [] \E i \in s : r.ae[i][2] > 0 -> "any"
       [] OTHER                       -> "no"

Label(a) == Join(Vals(a.hdrs, "content-encoding"))
Coding(a) == CASE Label(a) \in Identities         -> "identity"
               [] Label(a) \in Gzips /\ a.gzok    -> "gzip"
               [] OTHER                           -> "other"
\* digest of what the upstream means by its body
Meaning(a) == IF Coding(a) = "gzip" THEN a.gzsum ELSE a.sum

MayHaveBody(method, status) == method # "HEAD" /\ status \notin {204, 304}

----------------------------------------------------------------------------
(* The course of one exchange. kind says where the request belongs:        *)
(* proxy, about, nomatch, unmapped, unauth or badmethod                    *)

Started(c) == /\ cfg = c
              /\ phase = "idle"
              /\ req = <<>> /\ ups = <<>> /\ ans = <<>> /\ resp = <<>>
              /\ ids = {} /\ todo = <<>>

n == Len(ups)

Receive(r) ==
  /\ phase \in {"idle", "done"}
  /\ req' = r
  /\ ups' = <<>> /\ ans' = <<>> /\ resp' = <<>>
  /\ phase' = "received"
  /\ UNCHANGED <<cfg, ids, todo>>

\* the status the proxy gives without asking the upstream, 0 if it has to ask
Own(r) ==
  CASE r.kind = "about"             -> 200
    [] BodyVerdict(r) = "large"     -> 413
    [] BodyVerdict(r) = "broken"    -> 400
    [] r.kind = "badmethod"         -> 400
    [] r.kind = "nomatch"           -> 404
    [] r.kind = "unauth"            -> 401
    [] r.kind = "unmapped"          -> 503
    [] OTHER                        -> 0

ClientIds(r) == SelectSeq(Vals(r.hdrs, "x-request-id"), LAMBDA v : v # "")
\* is v an id this exchange may use?
IdFits(v) ==
  /\ v # ""
  /\ IF ClientIds(req) # <<>> THEN \E i \in 1..Len(ClientIds(req)) : ClientIds(req)[i] = v
                              ELSE v \notin ids
  /\ \A i \in 1..n : Vals(ups[i].hdrs, "x-request-id") = <<v>>

UpBody(u) == u.len = req.len /\ u.sum = req.sum /\ u.whole

\* no coding asked for: the proxy may ask for one on its own account
Unspoken == \A i \in 1..Len(Vals(req.hdrs, "accept-encoding")) : Vals(req.hdrs, "accept-encoding")[i] = ""
UpHeaders(u) ==
  /\ \A k \in Names(req.hdrs) \ (NeverCopied \cup Owned \cup HopByHop \cup {"host"} \cup (IF Unspoken THEN {"accept-encoding"} ELSE {})) :
        Vals(u.hdrs, k) = Vals(req.hdrs, k)
  /\ Has(req.hdrs, "content-encoding") => Vals(u.hdrs, "content-encoding") = Vals(req.hdrs, "content-encoding")
  /\ \A k \in {"date", "server"} : ~Has(u.hdrs, k)
  /\ Names(u.hdrs) \subseteq Names(req.hdrs) \cup HopByHop \cup
        {"host", "user-agent", "accept-encoding", "content-length", "transfer-encoding", "x-request-id"}
  /\ Unspoken => \/ Vals(u.hdrs, "accept-encoding") \in {<<>>, <<"gzip">>}
                 \/ \E x \in {<<>>, <<"gzip">>} : Vals(u.hdrs, "accept-encoding") = Vals(req.hdrs, "accept-encoding") \o x

Forward(u) ==
  /\ phase \in {"received", "answered"}
  /\ phase = "answered" => ~(ans[n].ok /\ ans[n].status < 500)
  /\ Judged({"C13"}) => BodyVerdict(req) = "ok" /\ UpBody(u)
  /\ Judged({}) => Own(req) = 0
  /\ Judged({"C15"}) => UpHeaders(u)
  /\ Judged({"C16"}) => /\ Len(Vals(u.hdrs, "x-request-id")) = 1
                     /\ IdFits(Vals(u.hdrs, "x-request-id")[1])
  /\ ups' = Append(ups, u)
  /\ phase' = "waiting"
  /\ UNCHANGED <<cfg, req, ans, resp, ids, todo>>

\* a: the upstream's answer. ok: it was a complete response
Answer(a) ==
  /\ phase = "waiting"
  /\ ans' = Append(ans, a)
  /\ phase' = "answered"
  /\ UNCHANGED <<cfg, req, ups, resp, ids, todo>>

Last == ans[Len(ans)]
Proxied == n > 0 /\ Len(ans) = n /\ Last.ok /\ Last.status < 500
\* the upstream's content is to be passed on
Passed == Proxied /\ Last.status < 400
PassedOn(r) == Passed /\ r.status < 400

Expected == CASE n = 0   -> Own(req)
              [] Proxied -> Last.status
              [] OTHER   -> IF Last.late THEN 504 ELSE 502

RespEncoding(r) ==
  LET ce   == Vals(r.hdrs, "content-encoding")
      wish == GzipWish(req)
      asGzip(s)  == ce = <<"gzip">> /\ r.gzok /\ r.gzsum = s
      asPlain(s) == ce \in {<<>>, <<"identity">>} /\ r.sum = s
      wished(s)  == CASE wish = "yes" -> asGzip(s)
                      [] wish = "no"  -> asPlain(s)
                      [] OTHER        -> asGzip(s) \/ asPlain(s)
  IN IF PassedOn(r)
     THEN IF ~MayHaveBody(req.method, Last.status) \/ Last.len = 0 THEN r.len = 0
          ELSE IF Coding(Last) = "other" THEN Join(ce) = Label(Last) /\ r.sum = Last.sum /\ r.len = Last.len
          ELSE IF Meaning(Last) = "" THEN r.len = 0 \/ (wish # "no" /\ asGzip(""))   \* nothing can be mislabelled
          ELSE wished(Meaning(Last))
     ELSE MayHaveBody(req.method, r.status) =>
             /\ r.json.obj
             /\ (ce = <<"gzip">>) = r.gzok
             /\ ce \in {<<>>, <<"gzip">>, <<"identity">>}
             /\ wish = "yes" => r.gzok
             /\ wish = "no" => ~r.gzok

Hsts(r) == cfg.tls => \E i \in 1..Len(Vals(r.hdrs, "strict-transport-security")) :
                         Vals(r.hdrs, "strict-transport-security")[i] # ""
Identifies(r) == LET s == Vals(r.hdrs, "server")
                 IN Len(s) = 1 /\ Len(s[1]) > 4 /\ SubSeq(s[1], 1, 4) = "j8a "

RespHeaders(r) ==
  /\ Identifies(r)
  /\ Hsts(r)
  /\ (~cfg.tls /\ Has(r.hdrs, "strict-transport-security")) =>
        (PassedOn(r) /\ Has(Last.hdrs, "strict-transport-security"))
  /\ PassedOn(r) =>
     /\ \A k \in Names(Last.hdrs) \ (NeverCopied \cup Owned \cup HopByHop \cup (IF cfg.tls THEN {"strict-transport-security"} ELSE {})) :
           Vals(r.hdrs, k) = Vals(Last.hdrs, k)
     /\ \A i \in 1..Len(Vals(Last.hdrs, "date")) : \A j \in 1..Len(Vals(r.hdrs, "date")) :
           Vals(Last.hdrs, "date")[i] # Vals(r.hdrs, "date")[j]
     /\ Len(Vals(r.hdrs, "date")) <= 1
     /\ Names(r.hdrs) \subseteq Names(Last.hdrs) \cup NeverCopied \cup Owned \cup HopByHop
           \cup {"content-type"} \cup (IF cfg.tls THEN {"strict-transport-security"} ELSE {})

RespJson(r) ==
  LET own == req.kind = "about" \/ ~PassedOn(r)
  IN own =>
     /\ Vals(r.hdrs, "content-type") = <<"application/json">>
     /\ Names(r.hdrs) \subseteq NeverCopied \cup Owned \cup HopByHop \cup {"content-type"}
           \cup (IF cfg.tls THEN {"strict-transport-security"} ELSE {})
     /\ MayHaveBody(req.method, r.status) =>
           /\ r.json.obj /\ r.json.j8a # "" /\ r.json.serverid # "" /\ r.json.version # ""
           /\ Vals(r.hdrs, "server") = <<"j8a " \o r.json.version \o " " \o r.json.serverid>>
           /\ IF req.kind = "about" THEN r.json.keys = 3
              ELSE r.json.ok /\ r.json.code = r.status /\ r.json.msg # "" /\ r.json.keys = 5

RespId(r) == /\ Len(Vals(r.hdrs, "x-request-id")) = 1
             /\ IdFits(Vals(r.hdrs, "x-request-id")[1])

\* the statuses that answer a request whose body cannot be accepted
BodyStatus(r) ==
  (BodyVerdict(req) # "ok" /\ req.kind # "about") =>
     /\ n = 0
     /\ r.status \in (IF BodyVerdict(req) = "large" /\ ~req.broken THEN {413} ELSE {400, 413})

Respond(r) ==
  /\ phase \in {"received", "answered"}
  /\ Judged({"C13"}) => BodyStatus(r) /\ (BodyVerdict(req) = "ok" => r.status # 413 \/ (n > 0 /\ Last.status = 413))
  /\ Judged({}) => r.status = Expected \/ (req.broken /\ r.status \in {400, 413})
  /\ Judged({"C14"}) => RespEncoding(r)
  /\ Judged({"C15"}) => RespHeaders(r)
  /\ Judged({"C16"}) => RespId(r)
  /\ Judged({"C17"}) => RespJson(r)
  /\ resp' = <<r>>
  /\ ids' = ids \cup {Vals(r.hdrs, "x-request-id")[i] : i \in 1..Len(Vals(r.hdrs, "x-request-id"))}
  /\ todo' = Append(todo, [status |-> r.status, method |-> req.method, path |-> req.path, addr |-> req.addr,
                           id |-> Join(Vals(r.hdrs, "x-request-id")), attempts |-> n,
                           answered |-> n > 0 /\ Last.status > 0])
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, req, ups, ans>>

\* the connection is closed without a response: only if the client did not finish its request
Drop ==
  /\ phase = "received"
  /\ req.broken
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, req, ups, ans, resp, ids, todo>>

\* l: a record of the access log
Fits(l, t) ==
  /\ l.status = t.status /\ l.method = t.method /\ l.path = t.path
  /\ l.addr = t.addr /\ l.id = t.id
  /\ l.level = IF t.status >= 400 THEN "warn" ELSE "info"
  /\ t.answered => l.attempts = t.attempts /\ l.of = cfg.M
  /\ t.attempts = 0 => l.attempts = 0

Log(l) ==
  /\ \E i \in 1..Len(todo) :
        /\ On("C25") => Fits(l, todo[i])
        /\ \A j \in 1..(i - 1) : ~Fits(l, todo[j])
        /\ todo' = SubSeq(todo, 1, i - 1) \o SubSeq(todo, i + 1, Len(todo))
  /\ UNCHANGED <<cfg, phase, req, ups, ans, resp, ids>>

----------------------------------------------------------------------------
(* Properties, stated independently of the guards above *)

Responded == phase = "done" /\ resp # <<>>

C13_NothingRefusedIsSent == BodyVerdict(req) # "ok" => n = 0
C13_SameBytes == \A i \in 1..n : ups[i].sum = req.sum /\ ups[i].len = req.len
C14_NoGzipToRefuser == Responded /\ Passed /\ Coding(Last) # "other" /\ GzipWish(req) = "no" =>
                          Vals(resp[1].hdrs, "content-encoding") \in {<<>>, <<"identity">>}
C14_SameMeaning == Responded /\ Passed /\ resp[1].len > 0 =>
                      LET r == [resp[1] EXCEPT !.status = 0] IN Meaning(r) = Meaning(Last) /\ (Coding(Last) = "other" => r.sum = Last.sum)
C16_OneId == Responded => /\ Cardinality({Vals(ups[i].hdrs, "x-request-id") : i \in 1..n}) <= 1
                          /\ Len(Vals(resp[1].hdrs, "x-request-id")) = 1
C17_ErrorsAreJson == Responded /\ resp[1].status >= 400 /\ req.method # "HEAD" => resp[1].json.ok
C25_NoMoreThanOne == Len(todo) <= Cardinality(ids) + 100
=============================================================================
