----------------------------- MODULE TlsHealth -----------------------------
(***************************************************************************)
(* The daily check of the certificate chain (tls.go). Time in minutes. A   *)
(* chain is the sequence of the expiry times of its links, the server's    *)
(* own certificate first. What is reported after the first link of the     *)
(* chain expired is left open.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Day == 24 * 60
Month == 30 * Day

VARIABLES chain, now, last,  \* when it was last reported, or the start
          level              \* of the last report
vars == <<chain, now, last, level>>

Watched(c) == chain = c /\ now = 0 /\ last = 0 /\ level = "none"
FirstEnd == CHOOSE e \in {chain[i] : i \in DOMAIN chain} : \A i \in DOMAIN chain : e <= chain[i]

\* no day without a report, as long as the whole chain is valid
InTime(t) == t >= now /\ (t > last + Day => last + Day > FirstEnd)
Right(t, links) ==
  /\ Len(links) = Len(chain)
  /\ \A k \in DOMAIN links :
       /\ links[k].link = k /\ links[k].i = k /\ links[k].of = Len(chain)
       /\ links[k].lo <= chain[k] - t /\ chain[k] - t <= links[k].hi
       /\ links[k].first => chain[k] = FirstEnd
  /\ Cardinality({k \in DOMAIN links : links[k].first}) = 1
Level(t) == IF FirstEnd - t < Month THEN "warn" ELSE "debug"
Report(t, lvl, links) ==
  /\ InTime(t)
  /\ t <= FirstEnd => Right(t, links) /\ lvl = Level(t)
  /\ now' = t /\ last' = t /\ level' = lvl /\ UNCHANGED chain
Pass(t) == InTime(t) /\ now' = t /\ UNCHANGED <<chain, last, level>>

----------------------------------------------------------------------------
\* whoever watches the log for warnings knows a month minus a day ahead
C21_WarnedAhead == (now > Day /\ FirstEnd - now < Month - Day /\ now <= FirstEnd) => level = "warn"
C21_NotTooEarly == (now <= FirstEnd /\ FirstEnd - now >= Month) => level # "warn"
C21_Daily == now <= FirstEnd => now - last <= Day
=============================================================================
