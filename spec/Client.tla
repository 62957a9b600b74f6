------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The upstream side of the proxy (httpclient.go): whether an upstream may *)
(* be talked to, how long it is tried, and that its answer is passed on    *)
(* and not followed. Times in ms.                                          *)
(*                                                                         *)
(* cfg: [verify, sock, attempts]                                           *)
(* up:  [mode (up, closed, blackhole: connections are never established,   *)
(*       mute: never says a word), tls, trusted, named, timely]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Early, Late      \* tolerance of time measurements

VARIABLES cfg, up,
          phase,    \* idle, tried, answered, done
          sent,     \* requests that reached an upstream
          ans       \* its answer: [status, loc]
vars == <<cfg, up, phase, sent, ans>>

Started(c, u) == cfg = c /\ up = u /\ phase = "idle" /\ sent = <<>> /\ ans = <<>>

Receive == /\ phase \in {"idle", "done"}
           /\ phase' = "tried" /\ sent' = <<>> /\ ans' = <<>>
           /\ UNCHANGED <<cfg, up>>

Reachable == /\ up.mode = "up"
             /\ (up.tls /\ cfg.verify) => (up.trusted /\ up.named /\ up.timely)
\* the connection can be tried for as long as is allowed
Hangs == up.mode = "blackhole" \/ (up.mode = "mute" /\ up.tls)

\* dest: number of the upstream. The configured one is 1. target: what is asked for
Reach(dest, target) ==
  /\ phase = "tried"
  /\ dest = 1 /\ Reachable
  /\ sent' = Append(sent, target)
  /\ phase' = "asked"
  /\ UNCHANGED <<cfg, up, ans>>

Answer(a) ==
  /\ phase = "asked"
  /\ ans' = <<a>>
  /\ phase' = "answered"
  /\ UNCHANGED <<cfg, up, sent>>

\* v: [status, loc (values of Location), ms]
Respond(v) ==
  /\ \/ phase = "answered" /\ v.status = ans[1].status /\ v.loc = ans[1].loc
     \/ /\ phase = "tried" /\ ~Reachable
        /\ v.status = 502
        /\ Hangs => (v.ms >= cfg.attempts * cfg.sock - Early /\ v.ms <= cfg.attempts * cfg.sock + Late)
        /\ ~Hangs => v.ms <= cfg.attempts * cfg.sock + Late
  /\ phase' = "done"
  /\ UNCHANGED <<cfg, up, sent, ans>>

----------------------------------------------------------------------------
C24_NotFollowed == Len(sent) <= 1
C24_Verified == sent # <<>> => (up.tls /\ cfg.verify => up.trusted /\ up.named /\ up.timely)
=============================================================================
