------------------------------ MODULE RouteMC ------------------------------
(* Small configurations and targets, all of them. *)
EXTENDS Route, Json

CONSTANTS MaxRoutes, MaxExchanges, Transforms, Dump
VARIABLE script
mcvars == <<vars, script>>

L(s) == [k |-> "lit", s |-> s]
K(k) == [k |-> k]
Pool == << [text |-> "/", pat |-> <<L("/")>>], [text |-> "/a", pat |-> <<L("/a")>>], [text |-> "a", pat |-> <<L("a")>>],
           [text |-> "/a/", pat |-> <<L("/a/")>>], [text |-> "/ab", pat |-> <<L("/ab")>>], [text |-> "/a/b", pat |-> <<L("/a/b")>>],
           [text |-> "/a.", pat |-> <<L("/a"), K("any")>>], [text |-> "a.*b", pat |-> <<L("a"), K("star"), L("b")>>],
           [text |-> "/[0-9]+/", pat |-> <<L("/"), K("digits"), L("/")>>],
           [text |-> "/(a|b)/", pat |-> <<L("/"), [k |-> "alt", a |-> <<"a", "b">>], L("/")>>],
           [text |-> "/a$", pat |-> <<L("/a"), K("end")>>] >>
Targets == {"/", "/a", "/ab", "/a/b", "/a/", "/b/a/", "/7/a", "/77", "/a?x=/a", "/a/a/a", "/c", "/axb", "/acb/a"}
Methods == {"GET", "POST", "PATCH"}

NoAbout == [about |-> FALSE]
Configs == UNION {[1..k -> 1..Len(Pool)] : k \in 1..MaxRoutes}
RouteSeq(c, tr) == [i \in 1..Len(c) |-> [text |-> Pool[c[i]].text, pat |-> Pool[c[i]].pat, transform |-> tr[i], dest |-> i, about |-> FALSE]]

MCInit == \E c \in Configs : \E t \in Transforms, k \in 1..Len(c) :
            /\ \A i, j \in 1..Len(c) : i # j => c[i] # c[j]
            /\ LET rs == RouteSeq(c, [i \in 1..Len(c) |-> IF i = k THEN t ELSE ""]) IN
               Started(rs) /\ script = [pool |-> c, transforms |-> [i \in 1..Len(c) |-> IF i = k THEN t ELSE ""]]

n0 == 0
MCNext ==
  /\ UNCHANGED script
  /\ \/ /\ phase = "idle"
        /\ \E m \in Methods, t \in Targets : Receive([method |-> m, target |-> t, plain |-> t, canonical |-> TRUE])
     \/ /\ phase = "received" /\ req.method \in Legal
        /\ \E i \in Proxying : \E u \in Uris(routes[i], req.target) : Forward([dest |-> routes[i].dest, target |-> u])
     \/ Answer(200)
     \/ phase = "received" /\ \E s \in Own : Respond(s)
     \/ phase = "answered" /\ Respond(last)

MCSpec == MCInit /\ [][MCNext]_mcvars
\* every request can be handled, and in one way unless paths of the same length compete
Handled == phase = "received" => Own # {} \/ Proxying # {}
Unique == phase = "received" /\ req.method \in Legal =>
            \A i, j \in Handlers : i # j => Len(Text(routes[i])) = Len(Text(routes[j]))
DumpCases == (Dump /\ phase = "idle") => PrintT("CASE " \o ToJson([routes |-> routes]))
=============================================================================
