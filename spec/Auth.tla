-------------------------------- MODULE Auth --------------------------------
(***************************************************************************)
(* Who may pass a route with a jwt configuration (proxy.go validateJwt,    *)
(* verifySignature, verifyDateClaims) and how the keys of a configuration  *)
(* change (jwt.go LoadJwks).                                               *)
(*                                                                         *)
(* A configuration j is [alg, skew (seconds), jwks (has a key set url)].   *)
(* It holds pairs [kid, key]: sure ones, and maybe ones where the          *)
(* properties leave open whether they are held (key set responses with     *)
(* unusable entries, duplicated or missing kids).                          *)
(* Time is in milliseconds, claims in seconds.                             *)
(*                                                                         *)
(* A token has                                                             *)
(*   parse    it is a token at all: yes, no, open                          *)
(*   signAlg, key, intact   how it was signed, and whether that still is   *)
(*            the signature of its contents                                *)
(*   plain    nothing unusual about it: names the configured algorithm, is *)
(*            in compact form, in a single Bearer header. Others may be    *)
(*            refused, but not be admitted more easily                     *)
(*   kid      the key id it names, "" for none                             *)
(*   exp, nbf, iat  [has, v]                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Focus

VARIABLES cfg,      \* j -> configuration
          now,
          sure, maybe,
          running,  \* j -> a fetch is in progress
          loads,    \* j -> number of fetches so far, the first one belongs to the start of the server
          began, ended,   \* j -> time the last fetch began and ended
          due,      \* j -> a fetch has to begin now
          asked     \* j -> a request may have asked for a fetch now

vars == <<cfg, now, sure, maybe, running, loads, began, ended, due, asked>>
On(p) == Focus \in {"ALL", p}
J == DOMAIN cfg

Gap == 10000     \* between refreshes
Patience == 60000   \* within which a fetch is given up

Started(c, held) ==
  /\ cfg = c /\ now = 0
  /\ sure = held /\ maybe = [j \in DOMAIN c |-> {}]
  /\ running = [j \in DOMAIN c |-> FALSE]
  /\ loads = [j \in DOMAIN c |-> 0]
  /\ began = [j \in DOMAIN c |-> 0] /\ ended = [j \in DOMAIN c |-> 0]
  /\ due = [j \in DOMAIN c |-> FALSE] /\ asked = [j \in DOMAIN c |-> FALSE]

Keys(s) == {p.key : p \in s}
Kids(s) == {p.kid : p \in s}

\* time passes, but not while something has to happen
Advance(t) ==
  /\ t >= now
  /\ (On("C12") /\ t > now) => \A j \in J : ~due[j]
  /\ On("C12") => \A j \in J : running[j] => t <= began[j] + Patience
  /\ now' = t
  /\ due' = IF t > now THEN [j \in J |-> FALSE] ELSE due
  /\ asked' = IF t > now THEN [j \in J |-> FALSE] ELSE asked
  /\ UNCHANGED <<cfg, sure, maybe, running, loads, began, ended>>

----------------------------------------------------------------------------
(* Admission *)
Sec == now \div 1000
Skew(j) == cfg[j].skew

SignedBy(j, tok, keys) == cfg[j].alg = "none" \/ (tok.intact /\ tok.signAlg = cfg[j].alg /\ tok.key \in keys)

\* within the bounds the properties state, the second at which nbf is reached counts for both sides
Timely(j, tok) == /\ tok.exp.has => Sec < tok.exp.v + Skew(j)
                  /\ tok.nbf.has => tok.nbf.v - Skew(j) <= Sec
                  /\ tok.iat.has => tok.iat.v - Skew(j) <= Sec
SurelyTimely(j, tok) == Timely(j, tok) /\ (tok.nbf.has => tok.nbf.v - Skew(j) < Sec)

MayPass(j, tok) == tok.parse # "no" /\ SignedBy(j, tok, Keys(sure[j] \cup maybe[j])) /\ Timely(j, tok)
MustPass(j, tok) == tok.parse = "yes" /\ tok.plain /\ SignedBy(j, tok, Keys(sure[j])) /\ SurelyTimely(j, tok)

Unknown(j, tok) == cfg[j].jwks /\ cfg[j].alg # "none" /\ tok.kid # "" /\ tok.kid \notin Kids(sure[j] \cup maybe[j])
\* a refresh that is asked for may and has to begin
Free(j) == /\ ~running[j]
           /\ loads[j] >= 2 => now > ended[j] + Gap

Ask(j, tok) ==
  /\ due' = [due EXCEPT ![j] = @ \/ (tok.parse = "yes" /\ tok.plain /\ Unknown(j, tok) /\ Free(j))]
  /\ asked' = [asked EXCEPT ![j] = @ \/ tok.kid # ""]

\* j = "" for a route without jwt configuration
Request(j, tok, status, ups) ==
  /\ status \in {200, 401} /\ ups = (IF status = 200 THEN 1 ELSE 0)
  /\ UNCHANGED <<cfg, now, sure, maybe, running, loads, began, ended>>
  /\ IF j = "" THEN (On("C10") => status = 200) /\ UNCHANGED <<due, asked>>
     ELSE /\ Ask(j, tok)
          /\ (On("C10") \/ On("C12")) => (status = 200 => tok.parse # "no" /\ SignedBy(j, tok, Keys(sure[j] \cup maybe[j])))
          /\ On("C11") => (status = 200 => Timely(j, tok))
          /\ (On("C10") \/ On("C11") \/ On("C12")) => (MustPass(j, tok) => status = 200)

----------------------------------------------------------------------------
(* Keys *)
Fetch(j) ==
  /\ cfg[j].jwks
  /\ On("C12") => /\ ~running[j]
                  /\ loads[j] >= 1 => asked[j]
                  /\ loads[j] >= 2 => now >= began[j] + Gap
  /\ running' = [running EXCEPT ![j] = TRUE]
  /\ loads' = [loads EXCEPT ![j] = @ + 1]
  /\ began' = [began EXCEPT ![j] = now]
  /\ due' = [due EXCEPT ![j] = FALSE]
  /\ UNCHANGED <<cfg, now, sure, maybe, ended, asked>>

\* entries of a key set: [kid, key, alg, class]; class fit: key and curve suit alg, unfit: they do not,
\* odd: left open. The first entry that is not usable may end the processing of the set.
Usable(j, e) == e.alg = cfg[j].alg /\ e.class = "fit"
Pair(e) == [kid |-> e.kid, key |-> e.key]
WithKid(s, kid) == {p \in s : p.kid = kid}

RECURSIVE Publish(_, _, _, _, _)
\* [s, m] after the entries es from index i; open: an entry before was not usable
Publish(j, es, i, st, open) ==
  IF i > Len(es) THEN st
  ELSE LET e == es[i]
           old == WithKid(st.s, e.kid)
           twice == \E k \in 1..Len(es) : k # i /\ es[k].kid = e.kid
           set  == [s |-> (st.s \ old) \cup {Pair(e)}, m |-> st.m \ WithKid(st.m, e.kid)]
           perhaps == [s |-> st.s \ old, m |-> st.m \cup old \cup {Pair(e)}]
       IN IF e.alg # cfg[j].alg \/ e.class = "unfit" THEN Publish(j, es, i + 1, st, TRUE)
          ELSE IF open \/ e.class = "odd" \/ twice \/ e.kid = "" THEN Publish(j, es, i + 1, perhaps, open \/ e.class = "odd")
          ELSE Publish(j, es, i + 1, set, open)

\* whole: it is a well formed key set. whole = "open": parts of it are not.
Fetched(j, whole, es) ==
  /\ running[j]
  /\ running' = [running EXCEPT ![j] = FALSE]
  /\ ended' = [ended EXCEPT ![j] = now]
  /\ LET st == IF whole = "no" THEN [s |-> sure[j], m |-> maybe[j]]
               ELSE Publish(j, es, 1, [s |-> sure[j], m |-> maybe[j]], whole = "open")
     IN sure' = [sure EXCEPT ![j] = st.s] /\ maybe' = [maybe EXCEPT ![j] = st.m]
  /\ UNCHANGED <<cfg, now, loads, began, due, asked>>
=============================================================================
