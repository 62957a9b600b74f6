------------------------------ MODULE Gateway ------------------------------
(***************************************************************************)
(* Life of one proxied client request (proxyhandler.go handle,             *)
(* performUpstreamRequest, parseUpstreamResponse; proxy.go                 *)
(* parseIncoming, shouldRetryUpstreamAttempt, nextAttempt).                *)
(*                                                                         *)
(* Time is a dense clock in ms: every action carries the time t at which   *)
(* it happens, may not happen before `now` and not after `Urgent`, the     *)
(* time by which the proxy itself is obliged to act (maximal progress).    *)
(* The upstream (environment) picks its actions and their times freely.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Focus      \* "ALL", or the id of the one property a trace is judged for

VARIABLES cfg,      \* [rep : BOOLEAN, M : max attempts, R : read timeout, T : round trip timeout]
          now,
          phase,    \* ready, busy, failed, won, expired, done
          att,      \* attempts made, see NewAtt
          resp      \* the response given, see NoResp

vars == <<cfg, now, phase, att, resp>>

On(p)   == Focus \in {"ALL", p}
\* C01 is about counts only: there the proxy may give up on attempts at any time
Timed   == Focus # "C01"
Min(a, b) == IF a < b THEN a ELSE b
Forever == 1000000000

NoResp    == [s |-> 0, src |-> 0, at |-> -1]
NewAtt(t) == [start |-> t, st |-> "hdr", status |-> 0, hdrAt |-> -1, endAt |-> -1, cancelAt |-> -1]

n   == Len(att)
cur == att[n]

Urgent == CASE ~Timed -> Forever
            [] phase \in {"ready", "failed", "won", "expired"} -> now
            [] phase = "busy" -> Min(cur.start + cfg.R, cfg.T)
            [] OTHER -> Forever

At(t) == /\ t >= now
         /\ t <= Urgent
         /\ now' = t

GwInit(c) == /\ cfg = c
             /\ now = 0
             /\ phase = "ready"
             /\ att = <<>>
             /\ resp = NoResp

CanRetry == cfg.rep /\ n < cfg.M

----------------------------------------------------------------------------
(* The proxy *)

\* one upstream request leaves the proxy. same: it is identical to the client's request
StartAttempt(t, same) ==
  /\ phase \in {"ready", "failed"}
  /\ At(t)
  /\ On("C01") => /\ phase = "failed" => CanRetry
                   /\ t <= cfg.T
  /\ On("C02") => same
  /\ att' = Append(att, NewAtt(t))
  /\ phase' = "busy"
  /\ UNCHANGED <<cfg, resp>>

\* the read timeout of the current attempt fires
AttemptTimeout(t) ==
  /\ phase = "busy"
  /\ At(t)
  /\ Timed => t = cur.start + cfg.R
  /\ att' = [att EXCEPT ![n].st = "timeout", ![n].endAt = t, ![n].cancelAt = t]
  /\ phase' = "failed"
  /\ UNCHANGED <<cfg, resp>>

\* the round trip timeout fires; everything outstanding is given up
RoundTripTimeout(t) ==
  /\ phase \in {"ready", "busy", "failed", "won"}
  /\ At(t)
  /\ Timed => t = cfg.T
  /\ att' = IF phase = "busy"
            THEN [att EXCEPT ![n].st = "deadline", ![n].endAt = t, ![n].cancelAt = t]
            ELSE att
  /\ phase' = "expired"
  /\ UNCHANGED <<cfg, resp>>

\* status of the response and the attempt whose content it carries (0: the proxy's own JSON)
Verdict == CASE phase = "won" /\ cur.status < 400  -> [s |-> cur.status, src |-> n]
             [] phase = "won" /\ cur.status >= 400 -> [s |-> cur.status, src |-> 0]
             [] phase = "failed" /\ cur.st = "timeout" -> [s |-> 504, src |-> 0]
             [] phase = "failed" /\ cur.st = "error"   -> [s |-> 502, src |-> 0]
             [] phase = "expired" -> [s |-> 504, src |-> 0]

Respond(t, s, src) ==
  /\ phase \in {"won", "failed", "expired"}
  /\ At(t)
  /\ (On("C02") /\ phase = "failed") => ~CanRetry
  /\ (On("C03") \/ (On("C04") /\ phase = "expired") \/ (On("C02") /\ phase = "won")) => s = Verdict.s
  /\ (On("C02") \/ On("C05")) => src = Verdict.src
  /\ resp' = [s |-> s, src |-> src, at |-> t]
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, att>>

----------------------------------------------------------------------------
(* The upstream: what happens to the attempt that is being waited for *)

Header(t, s) ==
  /\ phase = "busy" /\ cur.st = "hdr"
  /\ At(t)
  /\ att' = [att EXCEPT ![n].st = "body", ![n].status = s, ![n].hdrAt = t]
  /\ UNCHANGED <<cfg, phase, resp>>

ConnError(t) ==
  /\ phase = "busy" /\ cur.st = "hdr"
  /\ At(t)
  /\ att' = [att EXCEPT ![n].st = "error", ![n].endAt = t]
  /\ phase' = "failed"
  /\ UNCHANGED <<cfg, resp>>

BodyEnd(t) ==
  /\ phase = "busy" /\ cur.st = "body"
  /\ At(t)
  /\ att' = [att EXCEPT ![n].st = IF @ = "body" /\ cur.status < 500 THEN "won" ELSE "error", ![n].endAt = t]
  /\ phase' = IF cur.status < 500 THEN "won" ELSE "failed"
  /\ UNCHANGED <<cfg, resp>>

BodyBreak(t) ==
  /\ phase = "busy" /\ cur.st = "body"
  /\ At(t)
  /\ att' = [att EXCEPT ![n].st = "error", ![n].endAt = t]
  /\ phase' = "failed"
  /\ UNCHANGED <<cfg, resp>>

\* anything an attempt that was given up still produces: no effect whatsoever (C05)
Late(i, t) ==
  /\ i \in 1..n
  /\ att[i].st \in {"timeout", "deadline"}
  /\ t >= now
  /\ UNCHANGED vars

----------------------------------------------------------------------------
(* Properties *)

TypeOK == /\ phase \in {"ready", "busy", "failed", "won", "expired", "done"}
          /\ \A i \in 1..n : att[i].st \in {"hdr", "body", "timeout", "deadline", "error", "won"}

C01_Bounded == /\ n <= cfg.M
               /\ ~cfg.rep => n <= 1
               /\ \A i \in 1..(n - 1) : att[i].st \in {"error", "timeout"}
               /\ \A i \in 1..(n - 1) : att[i].endAt <= att[i + 1].start
               /\ \A i \in 1..n : att[i].start <= cfg.T

C02_Recovered == phase = "done" =>
   /\ resp.src # 0 => /\ resp.src = n
                      /\ att[n].st = "won"
                      /\ resp.s = att[n].status
   /\ resp.s \in {502, 504} /\ resp.at < cfg.T => ~cfg.rep \/ n = cfg.M
   /\ \A i \in 1..(n - 1) : att[i].endAt = att[i + 1].start

C03_Status == phase = "done" =>
   \/ att[n].st = "won" /\ resp.s = att[n].status
   \/ att[n].st = "error" /\ resp.s = 502
   \/ att[n].st = "timeout" /\ resp.s = 504
   \/ resp.at = cfg.T /\ resp.s = 504

C04_Deadlines ==
   /\ \A i \in 1..n : /\ att[i].endAt # -1 => att[i].endAt - att[i].start <= cfg.R
                      /\ att[i].st = "timeout" => att[i].cancelAt = att[i].start + cfg.R
                      /\ att[i].st = "deadline" => att[i].cancelAt = cfg.T
   /\ now <= cfg.T
   /\ phase = "done" => resp.at <= cfg.T

C05_OneSource == phase = "done" =>
   /\ resp.src # 0 => att[resp.src].st = "won"
   /\ resp.src = 0 => resp.s >= 400
   /\ Cardinality({i \in 1..n : att[i].st = "won"}) <= 1

=============================================================================
