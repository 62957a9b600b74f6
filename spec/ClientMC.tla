------------------------------ MODULE ClientMC ------------------------------
EXTENDS Client, Json
VARIABLE n
mcvars == <<vars, n>>
Ups == [mode : {"up", "closed", "blackhole", "mute"}, tls : BOOLEAN, trusted : BOOLEAN, named : BOOLEAN, timely : BOOLEAN]
Sane(u) == /\ (~u.tls \/ u.mode \in {"closed", "blackhole", "mute"}) => (u.trusted /\ u.named /\ u.timely)
           /\ u.mode = "mute" => u.tls
Statuses == {200, 300, 301, 302, 303, 304, 305, 307, 308, 399}
Locs == {<<>>, <<"/again">>, <<"http://other/">>, <<"http://[::1">>, <<"">>, <<"/a", "/b">>}
MCInit == \E v \in BOOLEAN, s \in {1000}, a \in {1, 2}, u \in {u \in Ups : Sane(u)} :
             Started([verify |-> v, sock |-> s, attempts |-> a], u) /\ n = 0
MCNext == \/ n < 2 /\ Receive /\ n' = n + 1
          \/ UNCHANGED n /\ \/ Reach(1, "/") \/ Reach(2, "/")
                            \/ \E s \in Statuses, l \in Locs : Answer([status |-> s, loc |-> l])
                            \/ \E s \in Statuses \cup {502}, l \in Locs, m \in {0, 500, 1000, 2000, 9000} : Respond([status |-> s, loc |-> l, ms |-> m])
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
\* everything gets a response
Answered == <>[](phase \in {"idle", "done"})
\* an upstream that may be talked to is
Talked == (phase = "done" /\ Reachable) => Len(sent) = 1
DumpCases == (n = 0 /\ phase = "idle") => PrintT("CASE " \o ToJson([cfg |-> cfg, up |-> up]))
=============================================================================
