------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* From the configuration that is written down to the one that is in force *)
(* (config.go, server.go). All values are strings, "" stands for absent.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Defaults == [dread |-> "120", rtt |-> "240", didle |-> "120", body |-> "2097152",
             sock |-> "3", uread |-> "120", uidle |-> "120", pool |-> "32768", attempts |-> "1"]
Numbers == DOMAIN Defaults
Modes == [x \in {"", "http", "HTTP", "Http", "tls", "TLS", "Tls"} |-> IF x \in {"tls", "TLS", "Tls"} THEN "TLS" ELSE "HTTP"]
Schemes == [x \in {"", "http", "http://", "https", "https://"} |-> IF x \in {"https", "https://"} THEN "https" ELSE "http"]

VARIABLES files,  \* what is written down where: [arg, env, dflt]: "none" or an index into texts
          texts,  \* configurations: [num, port, mode, skip, cert, policies, routes, resources]
          st      \* start, up
vars == <<files, texts, st>>

Chosen == IF files.arg # 0 THEN files.arg ELSE IF files.env # 0 THEN files.env ELSE files.dflt
Text == texts[Chosen]

Absent(v) == v = "" \/ v = "0"
Number(t, f) == IF Absent(t.num[f]) THEN Defaults[f] ELSE t.num[f]
Port(t) == IF ~Absent(t.port) THEN t.port ELSE IF Modes[t.mode] = "TLS" THEN "443" ELSE "8080"
\* one label with all the weight
ThePolicy == <<[label |-> "default", weight |-> "1"]>>
PolicyNames(t) == {t.policies[i].name : i \in DOMAIN t.policies}
GoodPolicies(t, ps) ==
  /\ {ps[i].name : i \in DOMAIN ps} = PolicyNames(t) \cup {"default"}
  /\ Len(ps) = Cardinality(PolicyNames(t) \cup {"default"})
  /\ \A i \in DOMAIN ps : IF ps[i].name \in PolicyNames(t) THEN \E j \in DOMAIN t.policies : t.policies[j] = ps[i]
                          ELSE ps[i].weights = ThePolicy
\* routes with their leading slash, the longest path first
Route(r) == [r EXCEPT !.path = IF r.slash THEN r.path ELSE "/" \o r.path, !.len = IF r.slash THEN r.len ELSE r.len + 1, !.slash = TRUE]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
GoodRoutes(t, rs) ==
  LET want == [i \in DOMAIN t.routes |-> Route(t.routes[i])] IN
  /\ Len(rs) = Len(want)
  /\ \A i \in DOMAIN want : Count(rs, want[i]) = Count(want, want[i])
  /\ \A i \in 1..Len(rs) - 1 : rs[i].len >= rs[i + 1].len
\* resources by name, each url with a scheme
Resource(r) == [name |-> r.name, urls |-> [i \in DOMAIN r.urls |-> [r.urls[i] EXCEPT !.scheme = Schemes[r.urls[i].scheme], !.name = r.name]]]
GoodResources(t, rs) == Len(rs) = Len(t.resources) /\ \A i \in DOMAIN t.resources : Count(rs, Resource(t.resources[i])) = 1

InForce(t, c) ==
  /\ \A f \in Numbers : c.num[f] = Number(t, f)
  /\ c.port = Port(t) /\ c.mode = Modes[t.mode] /\ c.skip = (IF t.skip = "true" THEN "true" ELSE "false") /\ c.cert = t.cert
  /\ GoodPolicies(t, c.policies) /\ GoodRoutes(t, c.routes) /\ GoodResources(t, c.resources)

Begin(f, t) == files = f /\ texts = t /\ st = "start"
Up(c) == st = "start" /\ InForce(Text, c) /\ st' = "up" /\ UNCHANGED <<files, texts>>
\* what routes answer: exactly those of the chosen configuration (each of the texts has a route of its own)
Serves(answers) == st = "start" /\ \A i \in DOMAIN texts : answers[i] = (i = Chosen) /\ st' = "up" /\ UNCHANGED <<files, texts>>
=============================================================================
