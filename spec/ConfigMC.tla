------------------------------ MODULE ConfigMC ------------------------------
(* Every subset of values that are set, and shapes of the rest.            *)
EXTENDS Config, Json
CONSTANTS Part, Dump
VARIABLES eff
mcvars == <<vars, eff>>
Url(s) == [scheme |-> s, host |-> "h", port |-> "1", labels |-> <<>>, name |-> ""]
R(p, l, s) == [path |-> p, len |-> l, slash |-> s, transform |-> "", resource |-> "r", policy |-> "", jwt |-> ""]
RouteShapes == { <<R("/a", 2, TRUE)>>, <<R("a", 1, FALSE)>>, <<R("/a", 2, TRUE), R("/abc", 4, TRUE)>>, <<R("/abc", 4, TRUE), R("/a", 2, TRUE)>>,
                 <<R("b", 1, FALSE), R("/abc", 4, TRUE), R("cd", 2, FALSE)>>, <<R("", 0, FALSE), R("/ab", 3, TRUE), R("abc", 3, FALSE), R("/a", 2, TRUE)>> }
PolicyShapes == { <<>>, <<[name |-> "default", weights |-> <<[label |-> "x", weight |-> "1"]>>]>>, <<[name |-> "p", weights |-> <<[label |-> "x", weight |-> "1"]>>]>>,
                  <<[name |-> "p", weights |-> ThePolicy], [name |-> "default", weights |-> <<[label |-> "x", weight |-> "1"], [label |-> "y", weight |-> "2"]>>]>> }
ResourceShapes == {<<[name |-> "r", urls |-> <<Url(a), Url(b)>>]>> : a \in DOMAIN Schemes, b \in DOMAIN Schemes}
Plain == [num |-> [f \in Numbers |-> ""], port |-> "7", mode |-> "", skip |-> "", cert |-> "", policies |-> <<>>, routes |-> <<R("/a", 2, TRUE)>>, resources |-> <<>>]
Sets == [Numbers -> {"", "7"}]
One(t) == Begin([arg |-> 0, env |-> 1, dflt |-> 0], <<t>>)
MCInit ==
  /\ \/ Part = "numbers" /\ \E n \in Sets, m \in DOMAIN Modes, p \in {"", "7"}, k \in {"", "true", "false"} :
          One([Plain EXCEPT !.num = n, !.mode = m, !.port = p, !.skip = k])
     \/ Part = "shapes" /\ \E rs \in RouteShapes, ps \in PolicyShapes, us \in ResourceShapes, m \in DOMAIN Modes, z \in {"", "0"} :
          One([Plain EXCEPT !.routes = rs, !.policies = ps, !.resources = us, !.mode = m, !.num = [f \in Numbers |-> z], !.port = z])
     \/ Part = "sources" /\ \E a, e, d \in BOOLEAN : (a \/ e \/ d) /\
          Begin([arg |-> IF a THEN 1 ELSE 0, env |-> IF e THEN 2 ELSE 0, dflt |-> IF d THEN 3 ELSE 0], <<Plain, Plain, Plain>>)
  /\ eff = <<>>
\* a reference: exactly what should be in force
Longer(a, b) == a.len >= b.len
Sorted(rs) == CHOOSE s \in [DOMAIN rs -> {rs[i] : i \in DOMAIN rs}] :
                 (\A i \in DOMAIN rs : Count(s, rs[i]) = Count(rs, rs[i])) /\ \A i \in 1..Len(rs) - 1 : s[i].len >= s[i + 1].len
Boots == LET t == Text
             c == [num |-> [f \in Numbers |-> Number(t, f)], port |-> Port(t), mode |-> Modes[t.mode], skip |-> IF t.skip = "true" THEN "true" ELSE "false", cert |-> t.cert,
                   policies |-> IF "default" \in PolicyNames(t) THEN t.policies ELSE Append(t.policies, [name |-> "default", weights |-> ThePolicy]),
                   routes |-> Sorted([i \in DOMAIN t.routes |-> Route(t.routes[i])]), resources |-> [i \in DOMAIN t.resources |-> Resource(t.resources[i])]]
         IN Up(c) /\ eff' = <<c>>
MCSpec == MCInit /\ [][Boots]_mcvars
----------------------------------------------------------------------------
C18_Complete == eff # <<>> =>
  /\ \A f \in Numbers : ~Absent(eff[1].num[f])
  /\ ~Absent(eff[1].port) /\ eff[1].mode \in {"HTTP", "TLS"}
  /\ \A i \in DOMAIN eff[1].routes : eff[1].routes[i].slash
  /\ \A i \in DOMAIN eff[1].resources : \A j \in DOMAIN eff[1].resources[i].urls : eff[1].resources[i].urls[j].scheme \in {"http", "https"}
C18_AsGiven == eff # <<>> => \A f \in Numbers : Absent(Text.num[f]) \/ eff[1].num[f] = Text.num[f]
C18_Boots == st = "start" => ENABLED Boots
\* a configuration that says what is in force anyway changes nothing
C18_Stable == eff # <<>> => InForce([Text EXCEPT !.num = eff[1].num, !.port = eff[1].port, !.mode = eff[1].mode, !.skip = eff[1].skip, !.policies = eff[1].policies, !.routes = eff[1].routes], eff[1])
DumpPlans == (Dump /\ st = "start") => PrintT("CONF " \o ToJson([files |-> files, text |-> Text]))
=============================================================================
