------------------------------ MODULE PolicyMC ------------------------------
EXTENDS Policy, Json
CONSTANTS MaxChoices, Dump

W(l, w) == [label |-> l, w |-> w]
WeightSets == { <<W("green", 100)>>, <<W("green", 80), W("blue", 20)>>, <<W("blue", 20), W("green", 80)>>,
                <<W("green", 50), W("blue", 50)>>, <<W("green", 0), W("blue", 100)>>, <<W("blue", 100), W("green", 0)>>,
                <<W("green", 30), W("blue", 30), W("red", 40)>>, <<W("red", 5), W("green", 90), W("blue", 5)>>,
                <<W("green", 40), W("blue", 30)>>, <<W("a", 10), W("b", 20), W("c", 30), W("green", 40)>>,
                <<W("green", 20), W("blue", 30), W("green", 50)>>, <<>>, <<W("default", 100)>> }
UpSets == { <<>>, << <<"green">> >>, << <<"green">>, <<"blue">> >>, << <<"blue">>, <<"green">> >>, << <<"blue", "green">> >>,
            << <<"red">>, <<"blue">>, <<"green">> >>, << <<>>, <<"blue">> >>, << <<"default">>, <<"green">> >>,
            << <<"green">>, <<"blue">>, <<"green">> >>, << <<"a">>, <<"c", "b">>, <<"green", "red">> >> }
MCInit == \E p \in BOOLEAN, w \in WeightSets, u \in UpSets :
             /\ ~p => w = <<>>
             /\ Started([policy |-> p, weights |-> w, ups |-> u])
Made == Sum(hist, DOMAIN hist) + Sum(noisy, DOMAIN noisy)
MCNext == Made < MaxChoices /\ ((\E o \in Outcomes : Choose(o)) \/ (Other /\ quiet))
MCSpec == MCInit /\ [][MCNext]_vars
Mapped == Possible # {}
\* short histories are never refused
ShortFair == Made <= 4 => FairSoFar
DumpCases == (Dump /\ Made = 0 /\ quiet) => PrintT("CASE " \o ToJson(conf))
=============================================================================
