------------------------------ MODULE Timeouts ------------------------------
(***************************************************************************)
(* One connection of a client and the time it may take (server.go): a      *)
(* request, header and body, has to be delivered within the read timeout,  *)
(* and between requests a connection may be idle for the idle timeout.     *)
(* Times in ms, as a client sees them, with a tolerance.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Early, Late

VARIABLES read, idle,  \* limits
          st,          \* fresh: opened, nothing sent; reading: a request has begun; served: all of it is there; idle: it was answered
                       \* dying: it was refused, gone: closed
          since, now,
          from,        \* what the lower bound is counted from: for a first request possibly the opening of the connection
          upped        \* the request under way was sent upstream
vars == <<read, idle, st, since, now, from, upped>>

Opened(r, i, t) == read = r /\ idle = i /\ st = "fresh" /\ since = t /\ now = t /\ from = t /\ upped = FALSE
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* the latest time a connection can be seen in its state. Whether the wait for a first request counts as idle or as reading is left open.
Latest == CASE st = "fresh"   -> since + Max(read, idle) + Late
            [] st = "reading" -> since + read + Late
            [] st = "idle"    -> since + idle + Late
            [] OTHER          -> since + 3 * Late
Earliest == CASE st = "fresh"   -> since + Min(read, idle) - Early
              [] st = "reading" -> from + read - Early
              [] st = "idle"    -> since + idle - Early
              [] OTHER          -> since
At(t) == t >= now /\ (st # "gone" => t <= Latest) /\ now' = t /\ UNCHANGED <<read, idle>>

Begin(t) == /\ At(t) /\ st \in {"fresh", "idle"} /\ st' = "reading" /\ since' = t /\ upped' = FALSE
            /\ from' = IF st = "fresh" THEN from ELSE t
Whole(t) == At(t) /\ st = "reading" /\ st' = "served" /\ since' = t /\ UNCHANGED <<from, upped>>
\* only complete requests reach an upstream
Upstream(t) == At(t) /\ st = "served" /\ ~upped /\ upped' = TRUE /\ UNCHANGED <<st, since, from>>
Answer(t, status) ==
  /\ At(t)
  /\ \/ st = "served" /\ upped /\ status = 200 /\ st' = "idle" /\ since' = t
     \/ st = "reading" /\ status >= 400 /\ t >= Earliest /\ st' = "dying" /\ since' = t
  /\ UNCHANGED <<from, upped>>
Close(t) ==
  /\ At(t) /\ st # "gone" /\ st # "served" /\ t >= Earliest
  /\ st' = "gone" /\ since' = t /\ UNCHANGED <<from, upped>>
Pass(t) == At(t) /\ UNCHANGED <<st, since, from, upped>>

----------------------------------------------------------------------------
C26_NotForever == st \in {"fresh", "reading", "idle"} => now <= since + Max(read, idle) + Late
C26_OnlyWhole == upped => st \in {"served", "idle", "dying", "gone"}
=============================================================================
