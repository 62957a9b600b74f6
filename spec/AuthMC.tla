------------------------------- MODULE AuthMC -------------------------------
(* One configuration with a key set url, and its endpoint. Keys 1 to 3 are published at times, key 4 never is. *)
EXTENDS Auth, Json, Randomization

CONSTANTS MaxSteps, Ticks, Delays, Tokens, Dump
VARIABLES offer,   \* what the endpoint responds, index into Offers
          got,     \* what it responded to the fetch in progress, and when that ends
          last,    \* the last request and its outcome
          steps, script
mcvars == <<vars, offer, got, last, steps, script>>

Ent(kid, key, alg, class) == [kid |-> kid, key |-> key, alg |-> alg, class |-> class]
E(kid, key) == Ent(kid, key, "A", "fit")
Offers == << [whole |-> "yes", es |-> <<E("a", 1)>>], [whole |-> "yes", es |-> <<E("a", 1), E("b", 2)>>],
             [whole |-> "yes", es |-> <<E("a", 3)>>], [whole |-> "yes", es |-> <<E("c", 3), E("b", 2), E("a", 1)>>],
             [whole |-> "yes", es |-> <<E("a", 1), Ent("b", 2, "B", "fit")>>], [whole |-> "yes", es |-> <<Ent("b", 2, "B", "fit"), E("c", 3)>>],
             [whole |-> "yes", es |-> <<E("b", 2), Ent("c", 3, "A", "unfit")>>], [whole |-> "yes", es |-> <<E("", 2)>>],
             [whole |-> "yes", es |-> <<E("b", 1)>>], [whole |-> "yes", es |-> <<E("b", 2), E("b", 3)>>],
             [whole |-> "yes", es |-> <<Ent("c", 3, "A", "odd")>>],
             [whole |-> "no", es |-> <<>>], [whole |-> "open", es |-> <<E("a", 1), E("c", 3)>>] >>

Tok(key, kid, signAlg, intact, time) ==
  [parse |-> "yes", plain |-> TRUE, key |-> key, kid |-> kid, signAlg |-> signAlg, intact |-> intact,
   exp |-> [has |-> time \in {"late", "valid"}, v |-> IF time = "late" THEN -500 ELSE 5000],
   nbf |-> [has |-> time = "early", v |-> 5000], iat |-> [has |-> FALSE, v |-> 0]]
SmallTokens == {Tok(k, kid, "A", TRUE, "none") : k \in 1..4, kid \in {"", "a", "b", "c", "x"}}
               \cup {Tok(1, "a", "B", TRUE, "none"), Tok(1, "a", "A", FALSE, "valid"), Tok(1, "a", "A", TRUE, "late"), Tok(2, "", "A", TRUE, "early")}
AllTokens == {Tok(k, kid, a, i, t) : k \in 1..4, kid \in {"", "a", "b", "c", "x"}, a \in {"A", "B"}, i \in BOOLEAN, t \in {"none", "valid", "late", "early"}}

\* walks choose among a few tokens and offers at each state
SomeTokens(n) == IF ~Dump THEN Tokens
                 ELSE {Tok(p.key, kid, "A", TRUE, "none") : p \in RandomSubset(1, sure["j"] \cup maybe["j"] \cup {[key |-> 4]}), kid \in {"a", "b", "x", ""}}
                      \cup RandomSubset(5, Tokens)
SomeOffers(n) == IF Dump THEN RandomSubset(3, 1..Len(Offers)) ELSE 1..Len(Offers)
Note(x) == script' = IF Dump THEN Append(script, x) ELSE script
NoReq == [status |-> 0]

MCInit == /\ Started([j |-> [alg |-> "A", skew |-> 120, jwks |-> TRUE]], [j |-> {}])
          /\ offer \in {1, 2, 4} /\ got = [i |-> 0, end |-> 0] /\ last = NoReq /\ steps = 0
          /\ script = <<[a |-> "offer", i |-> offer, d |-> 0]>>

Booted == loads["j"] >= 1 /\ (loads["j"] > 1 \/ ~running["j"])
Busy == running["j"]
Quiet == ~due["j"]

MCNext ==
  \/ /\ loads["j"] = 0 \/ due["j"]
     /\ Fetch("j")
     /\ \E d \in Delays :
          /\ got' = [i |-> offer, end |-> now + d]
          /\ Note([a |-> "delay", i |-> offer, d |-> d])
     /\ UNCHANGED <<offer, last, steps>>
  \/ /\ Busy /\ now = got.end
     /\ Fetched("j", Offers[got.i].whole, Offers[got.i].es)
     /\ UNCHANGED <<offer, got, last, steps, script>>
  \/ /\ Quiet /\ (Busy => got.end > now) /\ steps < MaxSteps
     /\ \E d \in Ticks \cup (IF Busy THEN {got.end - now} ELSE {}) :
          /\ Busy => now + d <= got.end
          /\ Advance(now + d)
          /\ Note([a |-> "tick", i |-> 0, d |-> d])
     /\ last' = NoReq
     /\ steps' = steps + 1 /\ UNCHANGED <<offer, got>>
  \/ /\ Booted /\ Quiet /\ (Busy => got.end > now) /\ (Busy => now > began["j"]) /\ steps < MaxSteps
     /\ ~Busy => now > ended["j"]
     /\ offer' \in SomeOffers(steps) \ {offer}
     /\ Note([a |-> "offer", i |-> offer', d |-> 0])
     /\ steps' = steps + 1 /\ UNCHANGED <<vars, got, last>>
  \/ /\ Booted /\ Quiet /\ (~Busy => now > ended["j"]) /\ (Busy => now < got.end) /\ steps < MaxSteps
     /\ \E tok \in SomeTokens(steps), status \in {200, 401} :
          /\ Request("j", tok, status, IF status = 200 THEN 1 ELSE 0)
          /\ last' = [status |-> status, tok |-> tok, s |-> sure["j"], m |-> maybe["j"]]
          /\ Note([a |-> "req", i |-> 0, d |-> 0, tok |-> tok])
     /\ steps' = steps + 1 /\ UNCHANGED <<offer, got>>

MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<vars, offer, got, last, steps>>

TypeOK == \A p \in sure["j"] \cup maybe["j"] : p.key \in 1..3
C10_OnlyHeldKeys == last.status = 200 => last.tok.key \in Keys(last.s \cup last.m) /\ last.tok.signAlg = "A" /\ last.tok.intact
C10_NeverTheAttacker == last.status = 200 => last.tok.key # 4
C10_AnyHeldKey == (last.status = 401 /\ last.tok.key \in Keys(last.s) /\ last.tok.signAlg = "A" /\ last.tok.intact) =>
                     (last.tok.exp.has /\ last.tok.exp.v < 0) \/ last.tok.nbf.has
C11_NotLateNotEarly == last.status = 200 => (last.tok.exp.has => Sec < last.tok.exp.v + 120) /\ (last.tok.nbf.has => Sec >= last.tok.nbf.v - 120)
C12_OneAtATime == running["j"] => began["j"] >= ended["j"] /\ got.end >= now
C12_Rate == [][(loads["j"] >= 2 /\ loads'["j"] > loads["j"]) => now >= began["j"] + Gap /\ ~running["j"]]_mcvars
\* what is held can become something else under the same key id, but never goes away
C12_NothingLost == [][Kids(sure["j"] \cup maybe["j"]) \subseteq Kids(sure'["j"] \cup maybe'["j"])]_mcvars
C12_FailuresChangeNothing == [][(running["j"] /\ ~running'["j"] /\ Offers[got.i].whole = "no") => sure' = sure /\ maybe' = maybe]_mcvars
C12_NoForeignKeys == \A p \in sure["j"] \cup maybe["j"] : \E o \in 1..Len(Offers), k \in 1..4 :
                       k <= Len(Offers[o].es) /\ Pair(Offers[o].es[k]) = p /\ Offers[o].es[k].alg = "A" /\ Offers[o].es[k].class # "unfit"
DumpScripts == (Dump /\ steps = MaxSteps /\ Quiet) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
