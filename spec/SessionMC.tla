----------------------------- MODULE SessionMC -----------------------------
(* Part "line": every connection of up to MaxSent requests of every kind   *)
(* the connection rules tell apart. Part "cases": the requests and         *)
(* upstream answers that are made concrete and played against the server.  *)
EXTENDS Session, Json

CONSTANTS Part, MaxSent
VARIABLE case
mcvars == <<vars, case>>

Plain == [valid |-> TRUE, head |-> FALSE, ver |-> 11, close |-> FALSE, expect |-> FALSE, upgrade |-> FALSE,
          large |-> FALSE, len |-> 0, refuse |-> FALSE, upclose |-> FALSE]
Kinds == {Plain, [Plain EXCEPT !.head = TRUE], [Plain EXCEPT !.ver = 10], [Plain EXCEPT !.close = TRUE],
          [Plain EXCEPT !.large = TRUE, !.len = 1001], [Plain EXCEPT !.len = 300000], [Plain EXCEPT !.refuse = TRUE],
          [Plain EXCEPT !.upgrade = TRUE], [Plain EXCEPT !.upclose = TRUE], [Plain EXCEPT !.valid = FALSE]}
Answers == {[status |-> s, cl |-> c, te |-> t, close |-> x, ms |-> m] :
              s \in {42, 101, 200, 204, 404, 1000}, c \in {0, 1, 2}, t \in {0, 1}, x \in BOOLEAN, m \in {0, 5000, 50000}}

----------------------------------------------------------------------------
Routes   == {"proxy", "dead", "unmapped", "hs", "rs", "es", "about", "nomatch"}
Methods  == {"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST", "PATCH", "BREW", "get"}
Framings == {"none", "cl0", "cl", "chunked", "trailers", "extension", "large", "largechunked", "huge"}
Odds     == {"none", "http10", "keep10", "close", "upgrade", "absolute", "star", "connect", "nohost", "twohosts", "badhost", "many", "long",
             "longtarget", "expect", "otherexpect", "tegzip", "te", "empties", "crlf", "fold", "twolengths", "bothlengths", "range", "query",
             "fragment", "percent", "colons", "ids", "aes", "badtarget", "spaces", "noversion", "http2preface", "junk", "nul", "badlength",
             "badchunk", "short", "priority", "ipv6host", "debug", "twoauth", "underscores", "userinfo"}
Creds    == {"none", "empty", "scheme", "basic", "lower", "one", "two", "three", "four", "five", "dots", "b64", "notjson", "array", "null",
             "nohdr", "nosig", "algnone", "algnum", "algother", "kidnum", "kidlong", "kidpath", "crit", "claimsarray", "claimsnull", "expstring",
             "expfloat", "expneg", "exphuge", "expobject", "expnull", "iatfuture", "nbffuture", "dup", "long", "bytes", "valid", "validkid", "zeros",
             "sigshort", "siglong", "comma", "spaces", "jwkhdr", "x5c", "zip", "ctrl"}
Ups      == {"ok", "empty", "one", "two", "gzip", "gzipbad", "gzipcut", "gzipempty", "gzipone", "nolength", "chunked", "trailers", "badchunk", "cutchunk",
             "short", "twolengths", "neglength", "badlength", "bothlengths", "hugelength", "interim", "manyinterim", "endlessinterim", "onlyinterim",
             "s101", "s000", "s042", "s099", "s100", "s199", "s204", "s204body", "s205", "s206", "s304", "s304body", "s300", "s399", "s400", "s401", "s407", "s426",
             "s499", "s500", "s599", "s600", "s999", "s1000", "sneg", "stext", "garbage", "html", "nothing", "reset", "resetmid", "hang", "hanghead",
             "hangbody", "drip", "longhead", "manyheads", "badheader", "nulheader", "emptyname", "unicode", "tegzip", "http10", "http20", "http3", "preface",
             "badlocation", "location", "upgrade", "cookies", "surplus", "close", "keepalive", "ownheaders", "encodings", "types", "lf", "noreason", "date"}
\* answers that ask for the connection to be closed, or may be taken for it
Closers  == {"close", "upgrade", "s101", "s426", "ownheaders"}
Slow     == {"hang", "hanghead", "hangbody", "drip", "hugelength", "onlyinterim", "s100", "s199", "endlessinterim"}

NeverValid == {"junk", "nul", "spaces", "noversion", "badtarget", "http2preface"}
Broken     == {"badchunk", "short", "badlength", "twolengths", "bothlengths"}
Refused    == {"nohost", "twohosts", "badhost", "otherexpect", "tegzip", "fold", "crlf", "empties", "long", "connect", "userinfo", "star"}

Shape(c) == [valid   |-> /\ c.odd \notin NeverValid \cup Broken
                         /\ ~(c.odd \in {"http10", "keep10"} /\ c.framing \in {"chunked", "trailers", "extension", "largechunked"}),
             head    |-> c.method = "HEAD",
             ver     |-> IF c.odd \in {"http10", "keep10"} THEN 10 ELSE 11,
             close   |-> c.odd = "close",
             expect  |-> c.odd \in {"expect", "otherexpect"},
             upgrade |-> c.odd = "upgrade" \/ \E i \in 1..Len(c.ups) : c.ups[i] \in {"s101"},
             large   |-> c.framing \in {"large", "largechunked", "huge"},
             len     |-> CASE c.framing \in {"large", "largechunked"} -> 1500 [] c.framing = "huge" -> 400000
                           [] c.framing \in {"none", "cl0"} -> 0 [] OTHER -> 20,
             refuse  |-> c.odd \in Refused \/ c.cred = "ctrl",
             upclose |-> \E i \in 1..Len(c.ups) : c.ups[i] \in Closers]

C(r, m, f, o, cr, u) == [route |-> r, method |-> m, framing |-> f, odd |-> o, cred |-> cr, ups |-> u]
Cases == {C("proxy", m, f, "none", "none", <<u>>) : m \in {"GET", "HEAD", "POST"}, f \in {"none", "chunked"}, u \in Ups}
   \cup  {C(r, m, f, "none", "none", <<u>>) : r \in Routes, m \in Methods, f \in Framings, u \in {"ok", "s204", "s404", "nothing"} \cap Ups}
   \cup  {C(r, m, f, o, "none", <<u>>) : r \in {"proxy", "hs", "nomatch", "about"}, m \in {"GET", "POST"}, f \in {"none", "cl", "chunked"}, o \in Odds,
                                         u \in {"ok", "gzip", "s304"}}
   \cup  {C(r, "GET", "none", "none", cr, <<u>>) : r \in {"hs", "rs", "es", "proxy"}, cr \in Creds, u \in {"ok", "s401"}}
   \cup  {C("proxy", m, "none", "none", "none", <<u, v>>) : m \in {"GET", "HEAD", "PUT"}, u \in Ups, v \in Ups}
   \cup  {C(r, "HEAD", f, o, cr, <<"empty">>) : r \in {"hs", "unmapped", "dead"}, f \in {"none", "cl"}, o \in {"none", "http10", "close"}, cr \in {"none", "three"}}

IsSlow(c) == \E i \in 1..Len(c.ups) : c.ups[i] \in Slow

MCInit == IF Part = "line" THEN Started(2000) /\ case = 0
          ELSE \E c \in Cases : Started(2000) /\ case = c

MCNext ==
  /\ Part = "line" /\ UNCHANGED case
  /\ \/ sent < MaxSent /\ \E r \in Kinds : Send(r)
     \/ \E a \in Answers : Answer(a)
     \/ Drop \/ Close
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)

\* whatever is asked, there is an answer
Answerable == (queue # <<>> /\ line = "open") => \E a \in Answers : ENABLED Answer(a)
\* every request is answered unless the connection had to go
Served == <>[](queue = <<>>)
DumpCases == Part = "cases" => PrintT("CASE " \o ToJson([c |-> case, shape |-> Shape(case), slow |-> IsSlow(case)]))
=============================================================================
