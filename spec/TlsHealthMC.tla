---------------------------- MODULE TlsHealthMC ----------------------------
(* Chains up to a length whose links expire at the given times, and the    *)
(* other certificates that a configuration holds, some of them irrelevant. *)
EXTENDS TlsHealth, Json
CONSTANTS Ends, Length, Horizon, Extras, Dump
VARIABLE extra, self
mcvars == <<vars, extra, self>>

Chains == UNION {[1..n -> Ends] : n \in 1..Length}
MCInit == \E c \in Chains, x \in Extras : Watched(c) /\ extra = x
            /\ self = (Len(c) = 1)   \* a chain of one is self signed
\* the reference: exactly one report a day
Links(t) == LET f == CHOOSE k \in DOMAIN chain : chain[k] = FirstEnd
            IN [k \in DOMAIN chain |-> [link |-> k, i |-> k, of |-> Len(chain), lo |-> chain[k] - t, hi |-> chain[k] - t + 1, first |-> k = f]]
MCNext == /\ now < Horizon /\ now <= FirstEnd
          /\ LET t == IF level = "none" THEN 0 ELSE last + Day IN
             IF t <= FirstEnd THEN Report(t, Level(t), Links(t)) ELSE Pass(FirstEnd + 1)
          /\ UNCHANGED <<extra, self>>
MCSpec == MCInit /\ [][MCNext]_mcvars
DumpChains == (Dump /\ level = "none" /\ now = 0) => PrintT("CHAIN " \o ToJson([ends |-> chain, extra |-> extra]))
=============================================================================
