------------------------------- MODULE Route -------------------------------
(***************************************************************************)
(* Which route handles a request, and what is sent where (config.go,       *)
(* route.go, proxyhandler.go, server.go, resolveUpstreamURI in proxy.go).  *)
(*                                                                         *)
(* A route has the text of its path as configured and the pattern the text *)
(* stands for: a sequence of items                                         *)
(*   lit s      the characters s         any      one character            *)
(*   star       any characters           digits   one digit or more        *)
(*   alt a      one of the strings a     opt s    s or nothing             *)
(*   end        the end of the target                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Focus

VARIABLES routes,   \* as configured: [text, pat, transform ("" for none), dest, about]
                    \* dest: number of the upstream that is the route's resource, 0 if its resource has none
          phase,    \* idle, received, waiting, answered, done
          req,      \* [method, target, plain (decoded path), canonical]
          sent,     \* upstream requests of this exchange
          last      \* status of the last upstream answer, 0: none

vars == <<routes, phase, req, sent, last>>

On(p) == Focus \in {"ALL", p}

Legal == {"GET", "HEAD", "OPTIONS", "TRACE", "PUT", "DELETE", "POST"}

At(t, i) == SubSeq(t, i, i)
HasAt(t, i, s) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
StartsWith(t, s) == HasAt(t, 1, s)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

\* positions after a match of pattern p from position i of t
RECURSIVE Ends(_, _, _)
Ends(p, t, i) ==
  IF p = <<>> THEN {i}
  ELSE LET h == Head(p)
           next == CASE h.k = "lit"    -> IF HasAt(t, i, h.s) THEN {i + Len(h.s)} ELSE {}
                     [] h.k = "any"    -> IF i <= Len(t) THEN {i + 1} ELSE {}
                     [] h.k = "star"   -> i..(Len(t) + 1)
                     [] h.k = "digits" -> {j \in (i + 1)..(Len(t) + 1) : \A k \in i..(j - 1) : At(t, k) \in Digits}
                     [] h.k = "alt"    -> {i + Len(h.a[j]) : j \in {j \in 1..Len(h.a) : HasAt(t, i, h.a[j])}}
                     [] h.k = "opt"    -> {i} \cup (IF HasAt(t, i, h.s) THEN {i + Len(h.s)} ELSE {})
                     [] h.k = "end"    -> IF i = Len(t) + 1 THEN {i} ELSE {}
       IN UNION {Ends(Tail(p), t, j) : j \in next}

Literal(r) == Len(r.pat) = 1 /\ r.pat[1].k = "lit"
\* the path as it counts: with a leading slash
Text(r) == IF StartsWith(r.text, "/") THEN r.text ELSE "/" \o r.text
Pat(r)  == IF StartsWith(r.text, "/") THEN r.pat ELSE << [k |-> "lit", s |-> "/"] >> \o r.pat

Matches(t) == {i \in 1..Len(routes) : Ends(Pat(routes[i]), t, 1) # {}}
Longest(t) == {i \in Matches(t) : \A j \in Matches(t) : Len(Text(routes[j])) <= Len(Text(routes[i]))}

AboutFor(r) == {i \in 1..Len(routes) : routes[i].about /\ Text(routes[i]) = r.plain}

----------------------------------------------------------------------------
(* Where the path goes *)

Slash(u) == IF StartsWith(u, "/") THEN u ELSE "/" \o u
New(r) == IF r.transform = "/" THEN "" ELSE r.transform
\* u with characters i..j-1 replaced
Put(u, i, j, s) == SubSeq(u, 1, i - 1) \o s \o SubSeq(u, j, Len(u))

\* what may be sent for target u by route r: exactly one thing if the target starts with the very text of the
\* path. What is replaced of a target that only matches a pattern is left open, see DESIGN.md
Uris(r, u) ==
  IF r.transform = "" THEN {u}
  ELSE IF StartsWith(u, Text(r)) THEN {Slash(Put(u, 1, Len(Text(r)) + 1, New(r)))}
  ELSE {u} \cup {Slash(Put(u, 1, j, New(r))) : j \in Ends(Pat(r), u, 1)}
           \cup {Slash(Put(u, i, i + Len(Text(r)), New(r))) : i \in {i \in 1..Len(u) : HasAt(u, i, Text(r))}}

----------------------------------------------------------------------------
Started(rs) == /\ routes = rs /\ phase = "idle" /\ req = <<>> /\ sent = <<>> /\ last = 0

Receive(r) ==
  /\ phase \in {"idle", "done"}
  /\ phase' = "received" /\ req' = r /\ sent' = <<>> /\ last' = 0
  /\ UNCHANGED routes

\* routes that may handle the request
Handlers == Longest(req.target)
Proxying == {i \in Handlers : routes[i].dest > 0 /\ ~routes[i].about}

\* u: [dest, target]
Forward(u) ==
  /\ phase \in {"received", "answered"}
  /\ On("C07") => /\ req.method \in Legal
                  /\ \E i \in Proxying : routes[i].dest = u.dest
  /\ On("C08") => \E i \in Matches(req.target) : /\ routes[i].dest = u.dest
                                                 /\ u.target \in Uris(routes[i], req.target)
  /\ (On("C08") /\ sent # <<>>) => u = sent[1]
  /\ sent' = Append(sent, u)
  /\ phase' = "waiting"
  /\ UNCHANGED <<routes, req, last>>

Answer(status) ==
  /\ phase = "waiting"
  /\ last' = status
  /\ phase' = "answered"
  /\ UNCHANGED <<routes, req, sent>>

\* the statuses of answers the proxy may give itself, without asking an upstream
Own == (IF AboutFor(req) # {} THEN {200} ELSE {})
       \cup (IF ~req.canonical THEN {301, 307, 308} ELSE {})
       \cup (IF AboutFor(req) # {} THEN {}
             ELSE CASE req.method \notin Legal      -> {400}
                    [] Handlers = {}                -> {404}
                    [] Handlers \ Proxying # {}     -> {503}
                    [] OTHER                        -> {})

Respond(status) ==
  /\ phase \in {"received", "answered"}
  /\ On("C07") => IF sent = <<>> THEN status \in Own
                  ELSE IF last < 500 THEN status = last ELSE status = 502
  /\ phase' = "done"
  /\ UNCHANGED <<routes, req, sent, last>>

----------------------------------------------------------------------------
(* Properties *)
C07_NothingForUnmatched == req # <<>> /\ (Matches(req.target) = {} \/ req.method \notin Legal) => sent = <<>>
C07_NoLongerMatch == req # <<>> => \A i \in 1..Len(sent) : \E h \in Matches(req.target) :
                        /\ routes[h].dest = sent[i].dest
                        /\ \A m \in Matches(req.target) : Len(Text(routes[m])) <= Len(Text(routes[h]))
C08_Slash == \A i \in 1..Len(sent) : StartsWith(sent[i].target, "/")
C08_OnlyConfigured == \A i \in 1..Len(sent) : \E h \in 1..Len(routes) : routes[h].dest = sent[i].dest
\* without transform, the target is the client's
C08_Untouched == req # <<>> => \A i \in 1..Len(sent) :
                    (\A h \in 1..Len(routes) : routes[h].transform = "") => sent[i].target = req.target
\* for a path without pattern characters, what follows the path arrives unchanged
C08_Tail == req # <<>> => \A i \in 1..Len(sent) : \A h \in Longest(req.target) :
               (Literal(routes[h]) /\ routes[h].dest = sent[i].dest) =>
                  LET tail == SubSeq(req.target, Len(Text(routes[h])) + 1, Len(req.target))
                      s == sent[i].target
                  IN Len(s) >= Len(tail) /\ SubSeq(s, Len(s) - Len(tail) + 1, Len(s)) = tail
=============================================================================
