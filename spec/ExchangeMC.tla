---------------------------- MODULE ExchangeMC ----------------------------
(* Exploration of Exchange with a proxy that behaves as intended, and the  *)
(* source of the abstract cases that are played against the real server.   *)
EXTENDS Exchange, Json

CONSTANTS Methods, Kinds, Framings, Sizes, Aes, IdModes, ReqHdrs,
          Statuses, Codings, AnsSizes, AnsHdrs, Faults,
          MaxLimit, Attempts, MaxExchanges, TlsModes, Dump

VARIABLES script   \* what was chosen so far: <<[req, ans]>>, one entry per exchange

mcvars == <<vars, script>>

\* ------------------------------------------------ requests
AeOf(a) == CASE a = "none"     -> <<>>
             [] a = "gzip"     -> << <<"gzip", 1000>> >>
             [] a = "browser"  -> << <<"gzip", 1000>>, <<"deflate", 1000>>, <<"br", 1000>> >>
             [] a = "weighted" -> << <<"br", 1000>>, <<"gzip", 1>> >>
             [] a = "upper"    -> << <<"GZIP", 1000>> >>
             [] a = "xgzip"    -> << <<"x-gzip", 500>> >>
             [] a = "identity" -> << <<"identity", 1000>> >>
             [] a = "refuse"   -> << <<"gzip", 0>>, <<"identity", 1000>> >>
             [] a = "refuse3"  -> << <<"br", 1000>>, <<"gzip", 0>> >>
             [] a = "star"     -> << <<"*", 1000>> >>
             [] a = "br"       -> << <<"br", 1000>>, <<"deflate", 500>> >>

IdHdrs(m) == CASE m = "none"  -> <<>>
               [] m = "one"   -> << <<"x-request-id", "client-1">> >>
               [] m = "empty" -> << <<"x-request-id", "">> >>
               [] m = "two"   -> << <<"x-request-id", "client-1">>, <<"x-request-id", "client-2">> >>

HdrsOf(h) == CASE h = "plain" -> << <<"host", "h">>, <<"x-a", "1">> >>
               [] h = "multi" -> << <<"host", "h">>, <<"x-a", "1">>, <<"cookie", "b">>, <<"x-a", "2">>, <<"x-a", "">> >>
               [] h = "never" -> << <<"host", "h">>, <<"date", "then">>, <<"server", "me">>, <<"x-b", "2">> >>

NewReq(m, k, f, s, ae, id, h) ==
  [method |-> m, kind |-> k, path |-> "/p", addr |-> "127.0.0.1",
   hdrs |-> HdrsOf(h) \o IdHdrs(id),
   ae |-> AeOf(ae), declared |-> IF f \in {"cl", "clshort"} THEN s ELSE -1,
   broken |-> f \in {"clshort", "badchunk"}, len |-> IF f = "none" THEN 0 ELSE s,
   sum |-> IF f = "none" \/ s = 0 THEN "" ELSE "body" \o ToString(s)]

\* ------------------------------------------------ answers
CeOf(c) == CASE c = "none"     -> <<>>
             [] c = "gzip"     -> << <<"content-encoding", "gzip">> >>
             [] c = "GZIP"     -> << <<"content-encoding", "GZIP">> >>
             [] c = "xgzip"    -> << <<"content-encoding", "x-gzip">> >>
             [] c = "identity" -> << <<"content-encoding", "identity">> >>
             [] c = "br"       -> << <<"content-encoding", "br">> >>
             [] c = "deflate"  -> << <<"content-encoding", "deflate">> >>
             [] c = "custom"   -> << <<"content-encoding", "x-enc">> >>
             [] c = "gzipbr"   -> << <<"content-encoding", "gzip, br">> >>
             [] c = "two"      -> << <<"content-encoding", "br">>, <<"content-encoding", "x-enc">> >>
             [] c = "magic"    -> <<>>       \* a gzip file as such, no content coding
             [] c = "magicid"  -> << <<"content-encoding", "identity">> >>

AHdrsOf(h) == CASE h = "plain" -> << <<"x-u", "1">> >>
                [] h = "multi" -> << <<"set-cookie", "a">>, <<"x-u", "1">>, <<"set-cookie", "b">>, <<"x-u", "">> >>
                [] h = "never" -> << <<"date", "then">>, <<"server", "up">>, <<"x-request-id", "up-1">>, <<"x-v", "2">> >>

GzCoded == {"gzip", "GZIP", "xgzip", "magic", "magicid"}
NewAns(s, c, z, h, f) ==
  [status |-> IF f \in {"refused", "mute"} THEN 0 ELSE s, ok |-> f = "none", late |-> f = "mute",
   hdrs |-> AHdrsOf(h) \o CeOf(c),
   len |-> IF c \in GzCoded THEN z + 20 ELSE z,
   sum |-> IF c \in GzCoded THEN "gz(" \o ToString(z) \o ")" ELSE IF z = 0 THEN "" ELSE "up" \o ToString(z),
   gzok |-> c \in GzCoded,
   gzsum |-> IF c \in GzCoded /\ z > 0 THEN "up" \o ToString(z) ELSE ""]

\* ------------------------------------------------ the intended proxy
OwnId == "generated-" \o ToString(Cardinality(ids))
TheId == IF ClientIds(req) # <<>> THEN ClientIds(req)[1] ELSE OwnId

NominalUp ==
  [method |-> req.method, len |-> req.len, sum |-> req.sum, whole |-> TRUE,
   hdrs |-> SelectSeq(req.hdrs, LAMBDA h : h[1] \notin NeverCopied \cup {"x-request-id"})
              \o << <<"x-request-id", TheId>> >>]

StdHdrs == << <<"server", "j8a v1 id">>, <<"x-request-id", TheId>> >>
             \o (IF cfg.tls THEN << <<"strict-transport-security", "max-age=1">> >> ELSE <<>>)
NoJson == [obj |-> FALSE, ok |-> FALSE, code |-> 0, msg |-> "", j8a |-> "", serverid |-> "", version |-> "", keys |-> 0]

\* a response with content s: gzipped, plain or opaque under the upstream's label
Resp(status, hdrs, how, s, json) ==
  LET empty == s = "" \/ ~MayHaveBody(req.method, status)
  IN [status |-> status, json |-> json,
      hdrs |-> hdrs \o (IF how = "plain" \/ empty THEN <<>> ELSE << <<"content-encoding", how>> >>),
      len  |-> IF empty THEN 0 ELSE 7,
      sum  |-> IF empty THEN "" ELSE IF how = "gzip" THEN "gz(" \o s \o ")" ELSE s,
      gzok |-> how = "gzip" /\ ~empty, gzsum |-> IF how = "gzip" /\ ~empty THEN s ELSE ""]

OwnResp(status) ==
  Resp(status, StdHdrs \o << <<"content-type", "application/json">> >>, IF GzipWish(req) = "yes" THEN "gzip" ELSE "plain", "json",
       [obj |-> TRUE, ok |-> status # 200, code |-> status, msg |-> "m", j8a |-> "a", serverid |-> "id", version |-> "v1",
        keys |-> IF status = 200 THEN 3 ELSE 5])

PassResp ==
  LET h == StdHdrs \o SelectSeq(Last.hdrs, LAMBDA x : x[1] \notin NeverCopied \cup Owned)
      how == CASE Coding(Last) = "other" -> Label(Last)
               [] GzipWish(req) = "yes"  -> "gzip"
               [] OTHER                  -> "plain"
      r == Resp(Last.status, h, how, IF Coding(Last) = "other" THEN Last.sum ELSE Meaning(Last), NoJson)
  IN IF Coding(Last) = "other" /\ r.len > 0 THEN [r EXCEPT !.len = Last.len] ELSE r

\* ------------------------------------------------ behaviours
MCInit == /\ \E t \in TlsModes : Started([max |-> MaxLimit, M |-> Attempts, tls |-> t])
          /\ script = <<>>

Retries(r) == r.method # "POST" /\ n < cfg.M

MCNext ==
  \/ /\ Len(script) < MaxExchanges
     /\ \E m \in Methods, k \in Kinds, f \in Framings, s \in Sizes, ae \in Aes, id \in IdModes, h \in ReqHdrs :
          /\ f = "none" => s = 0
          /\ f \in {"clshort", "badchunk"} => s > 0
          /\ f # "none" => m \in {"POST", "PUT", "DELETE"}
          /\ Receive(NewReq(m, k, f, s, ae, id, h))
          /\ script' = Append(script, [req |-> [method |-> m, kind |-> k, framing |-> f, size |-> s, ae |-> ae, id |-> id, hdrs |-> h],
                                       ans |-> <<>>])
  \/ /\ phase = "received" \/ (phase = "answered" /\ ~Proxied /\ Retries(req))
     /\ Own(req) = 0
     /\ Forward(NominalUp)
     /\ UNCHANGED script
  \/ \E s \in Statuses, c \in Codings, z \in AnsSizes, h \in AnsHdrs, f \in Faults :
       /\ phase = "waiting"
       /\ f # "none" => s = 200 /\ c = "none" /\ h = "plain" /\ z = (CHOOSE x \in AnsSizes : \A y \in AnsSizes : x >= y)
       /\ s \in {204, 304} => z = 0 /\ c \notin GzCoded
       /\ Answer(NewAns(s, c, z, h, f))
       /\ script' = [script EXCEPT ![Len(script)].ans = Append(@, [status |-> s, coding |-> c, size |-> z, hdrs |-> h, fault |-> f])]
  \/ /\ \/ phase = "received" /\ Own(req) # 0
        \/ phase = "answered" /\ (Proxied \/ ~Retries(req))
     /\ Respond(IF Passed THEN PassResp ELSE OwnResp(Expected))
     /\ UNCHANGED script
  \/ phase = "received" /\ Drop /\ UNCHANGED script
  \/ \E i \in 1..Len(todo) :
       /\ Log([status |-> todo[i].status, method |-> todo[i].method, path |-> todo[i].path, addr |-> todo[i].addr, id |-> todo[i].id,
               level |-> IF todo[i].status >= 400 THEN "warn" ELSE "info",
               attempts |-> IF todo[i].answered THEN todo[i].attempts ELSE 0, of |-> cfg.M])
       /\ UNCHANGED script

MCSpec == MCInit /\ [][MCNext]_mcvars

Inv(P) == req # <<>> => P
I13a == Inv(C13_NothingRefusedIsSent)
I13b == Inv(C13_SameBytes)
I14a == Inv(C14_NoGzipToRefuser)
I14b == Inv(C14_SameMeaning)
I16 == Inv(C16_OneId)
I17 == Inv(C17_ErrorsAreJson)
\* the intended proxy is never stuck: whatever it is asked, the guards let it answer
Answerable == phase = "received" /\ Own(req) = 0 => ENABLED Forward(NominalUp)
Finishes == phase \in {"received", "answered"} /\ Own(req) # 0 => ENABLED Respond(OwnResp(Own(req)))
Passes == phase = "answered" /\ Passed => ENABLED Respond(PassResp)
Fails == phase = "answered" /\ ~Passed => ENABLED Respond(OwnResp(Expected))

DumpCases == (Dump /\ phase = "done" /\ Len(script) = MaxExchanges /\ todo # <<>>) =>
               PrintT("CASE " \o ToJson([tls |-> cfg.tls, script |-> script]))
=============================================================================
