------------------------------- MODULE BootMC -------------------------------
(* All combinations of sources, and all combinations of up to a number of  *)
(* departures from a plain configuration.                                  *)
EXTENDS Boot, Json
CONSTANTS Departures, Dump
Plain == [path |-> "plain", transform |-> "none", ref |-> "none", jwt |-> "none", mode |-> "absent", cert |-> "neither"]
Off(c) == Cardinality({f \in {"path", "transform", "ref", "jwt"} : c[f] # Plain[f]}) + (IF c.mode # "absent" \/ c.cert # "neither" THEN 1 ELSE 0)
Confs == [path : GoodPaths \cup BadPaths, transform : GoodTransforms \cup BadTransforms, ref : GoodRefs \cup BadRefs,
          jwt : GoodJwts \cup BadJwts, mode : TLSModes \cup HTTPModes, cert : GoodCerts \cup BadCerts]
Sources == [arg : Args, env : Envs, dflt : Dflts]
MCInit == \/ \E c \in Confs, a \in {"arg", "env", "dflt"} :
               Off(c) <= Departures /\ Begin([x \in {"arg", "env", "dflt"} |-> IF x = a THEN "good" ELSE "none"], c)
          \/ \E s \in Sources : Begin(s, Plain)
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
C19_Ends == <>(ph \in {"listening", "exited"})
DumpCases == (Dump /\ ph = "start") => PrintT("BOOT " \o ToJson([src |-> src, conf |-> conf, good |-> Loads /\ Sound]))
=============================================================================
