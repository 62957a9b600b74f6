----------------------------- MODULE TlsServeMC -----------------------------
(* Clients with every range of versions and up to a few suites, or all.    *)
EXTENDS TlsServe, Json, FiniteSetsExt
CONSTANTS Few, Dump
Offers == (UNION {kSubset(n, Offerable) : n \in 1..Few}) \cup {Offerable, Old, Offerable \ Old, NoSecrecy, NoAead}
MCInit == \E k \in {"rsa", "ec"}, l \in 10..13, h \in 10..13, s \in Offers : l <= h /\ (l = 13 => s = Offerable) /\ Hello(k, l, h, s)
MCSpec == MCInit /\ [][Next]_vars
\* nobody is left without an answer
C21_Answered == st = "hello" => ENABLED Next
DumpHellos == (Dump /\ st = "hello") => PrintT("HELLO " \o ToJson([key |-> key, lo |-> lo, hi |-> hi, offered |-> offered]))
=============================================================================
