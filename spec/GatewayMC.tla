----------------------------- MODULE GatewayMC -----------------------------
(* Exhaustive exploration of Gateway, and source of the upstream scripts   *)
(* that the conformance driver replays against the real code.              *)
EXTENDS Gateway, Json

CONSTANTS Ms, Rs, Ts, Delays, Statuses, Dump

MCInit == \E rep \in BOOLEAN, m \in Ms, r \in Rs, t \in Ts :
            GwInit([rep |-> rep, M |-> m, R |-> r, T |-> t])

\* the environment's actions happen some delay after the previous step of the attempt
EnvAt(d) == IF cur.st = "hdr" THEN cur.start + d ELSE cur.hdrAt + d

MCNext ==
  \/ \E t \in {now} : StartAttempt(t, TRUE) /\ (phase = "failed" => CanRetry)
  \/ phase = "busy" /\ AttemptTimeout(cur.start + cfg.R)
  \/ RoundTripTimeout(cfg.T)
  \/ phase \in {"won", "failed", "expired"} /\ Respond(now, Verdict.s, Verdict.src)
  \/ phase = "busy" /\ \E d \in Delays :
        \/ \E s \in Statuses : Header(EnvAt(d), s)
        \/ ConnError(EnvAt(d))
        \/ BodyEnd(EnvAt(d))
        \/ BodyBreak(EnvAt(d))
  \/ \E i \in 1..n : Late(i, now)

MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)

EventuallyAnswered == <>(phase = "done")

\* C01, C05 as action properties: attempts that ended never change, answers are final
HistoryFinal == [][/\ Len(att') >= Len(att)
                   /\ \A i \in 1..Len(att) : att[i].endAt # -1 => att'[i] = att[i]
                   /\ phase = "done" => UNCHANGED <<resp, att>>]_vars

Script == [cfg |-> cfg, att |-> att, resp |-> resp]
DumpScripts == (Dump /\ phase = "done") => PrintT("SCRIPT " \o ToJson(Script))
=============================================================================
