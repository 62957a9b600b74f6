------------------------------- MODULE Keymat -------------------------------
(***************************************************************************)
(* Which jwt configurations are accepted at startup and what keys they     *)
(* leave behind (jwt.go Validate, parseKey, LoadJwks).                     *)
(*                                                                         *)
(* A configuration is [name, alg, skew, form, lead, trail, blocks, set,    *)
(* whole]:                                                                 *)
(*   name   "" or not                                                      *)
(*   alg    text                                                           *)
(*   skew   class of the text: absent, number, odd (left open), bad        *)
(*   form   of the static key: none, text, pem                             *)
(*   lead, trail  what surrounds the blocks: none, space, junk             *)
(*   blocks sequence of [label, body, key], what the PEM block calls itself*)
(*          and what is in it: spki, cert, pkcs1 (rsa public), private,    *)
(*          garbage, empty, broken (not even base64), mangled (open)       *)
(*   set    the key set url: none, or given, then                          *)
(*   whole  yes (a key set), no (error, something else), open              *)
(*   entries sequence of [kid, alg, key]                                   *)
(* keys are [fam, id]: fam rsa, p224, p256, p384, p521, ed, oct            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RSAs == {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
ECs  == {"ES256", "ES384", "ES512"}
HSs  == {"HS256", "HS384", "HS512"}
Known == RSAs \cup ECs \cup HSs \cup {"none"}

VARIABLES cfg, phase, held   \* phase: new, accepted, refused. held: number of keys
vars == <<cfg, phase, held>>

Fits(alg, key) == \/ alg \in RSAs /\ key.fam = "rsa"
                  \/ alg = "ES256" /\ key.fam = "p256"
                  \/ alg = "ES384" /\ key.fam = "p384"
                  \/ alg = "ES512" /\ key.fam = "p521"

\* verdicts: accept, refuse, open
Min(s) == IF "refuse" \in s THEN "refuse" ELSE IF "open" \in s THEN "open" ELSE "accept"

BlockVerdict(alg, b) ==
  IF b.body \in {"private", "garbage", "empty", "broken"} THEN "refuse"
  ELSE IF b.body = "mangled" THEN "open"
  ELSE IF ~Fits(alg, b.key) THEN "refuse"
  ELSE IF (b.label = "PUBLIC KEY" /\ b.body = "spki") \/ (b.label = "CERTIFICATE" /\ b.body = "cert") THEN "accept"
  ELSE IF b.label \in {"PUBLIC KEY", "RSA PUBLIC KEY", "CERTIFICATE"} THEN "open"
  ELSE "refuse"

PemVerdict(c) ==
  IF Len(c.blocks) = 0 THEN "refuse"
  \* something that is no block before the block is not ruled out
  ELSE IF Len(c.blocks) = 2 /\ c.blocks[1].body = "broken" /\ c.trail = "none" THEN Min({"open", BlockVerdict(c.alg, c.blocks[2])})
  ELSE IF Len(c.blocks) > 1 \/ c.trail = "junk" THEN "refuse"
  ELSE Min({BlockVerdict(c.alg, c.blocks[1])} \cup (IF c.lead # "none" \/ c.trail # "none" THEN {"open"} ELSE {}))

Usable(c, e) == e.alg = c.alg /\ Fits(c.alg, e.key)
SetVerdict(c) ==
  LET usable == {i \in 1..Len(c.entries) : Usable(c, c.entries[i])}
  IN IF c.whole = "no" \/ (usable = {} /\ c.alg \notin HSs) THEN "refuse"
     ELSE IF c.whole = "open" \/ Cardinality(usable) < Len(c.entries) THEN "open"
     ELSE "accept"

KeyVerdict(c) ==
  IF c.alg = "none" THEN (IF c.form # "none" THEN "refuse" ELSE IF c.set # "none" THEN "open" ELSE "accept")
  ELSE IF c.form = "none" THEN (IF c.set = "none" THEN "refuse" ELSE SetVerdict(c))
  ELSE IF c.alg \in HSs THEN "accept"
  ELSE IF c.form = "text" THEN "refuse"
  ELSE PemVerdict(c)

Verdict(c) == IF c.name = "" \/ c.alg \notin Known \/ c.skew = "bad" THEN "refuse"
              ELSE Min({KeyVerdict(c)} \cup (IF c.skew = "odd" THEN {"open"} ELSE {}))

----------------------------------------------------------------------------
Start(c) == cfg = c /\ phase = "new" /\ held = 0

Static == cfg.form # "none"

Validate(ok, n) ==
  /\ phase = "new"
  /\ ok => Verdict(cfg) # "refuse"
  /\ ~ok => Verdict(cfg) # "accept"
  /\ (~ok /\ (Static \/ cfg.set = "none")) => n = 0
  /\ ok => CASE cfg.alg = "none" -> TRUE
             [] cfg.alg # "none" /\ Static -> n = 1
             [] OTHER -> n \in 1..Len(cfg.entries)
  /\ phase' = (IF ok THEN "accepted" ELSE "refused") /\ held' = n /\ UNCHANGED cfg

\* the keys an accepted configuration holds for sure, and those it may hold
BlockKeys == {cfg.blocks[i].key : i \in 1..Len(cfg.blocks)}
Sure == IF cfg.form = "pem" /\ cfg.alg \notin HSs THEN (IF Len(cfg.blocks) = 1 /\ cfg.blocks[1].body # "mangled" THEN BlockKeys ELSE {})
        ELSE IF Static THEN {cfg.secret}
        ELSE IF SetVerdict(cfg) = "accept" /\ Cardinality({cfg.entries[i].kid : i \in 1..Len(cfg.entries)}) = Len(cfg.entries)
             THEN {cfg.entries[i].key : i \in 1..Len(cfg.entries)} ELSE {}
May == IF Static THEN (IF cfg.alg \in HSs THEN {cfg.secret} ELSE BlockKeys)
       ELSE {e.key : e \in {cfg.entries[i] : i \in {k \in 1..Len(cfg.entries) : Usable(cfg, cfg.entries[k])}}}

\* a token signed with a key and the configured algorithm, and nothing else of interest
Token(key, admitted) ==
  /\ phase = "accepted" /\ cfg.alg # "none"
  /\ admitted => key \in May
  /\ ~admitted => key \notin Sure
  /\ UNCHANGED vars
=============================================================================
