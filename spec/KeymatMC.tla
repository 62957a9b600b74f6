------------------------------ MODULE KeymatMC ------------------------------
(* All configurations of a domain. The implementation is given every one of them. *)
EXTENDS Keymat, Json
CONSTANTS Part, Dump
VARIABLE last
mcvars == <<vars, last>>

Algs == Known \cup {"", "rs256", "RSA-OAEP", "EdDSA", "ES256K", "NONE", "HS2"}
Fams == {"rsa", "p224", "p256", "p384", "p521", "ed"}
K(f, i) == [fam |-> f, id |-> i]
Labels == {"PUBLIC KEY", "RSA PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "RSA PRIVATE KEY", "EC PRIVATE KEY", "EC PUBLIC KEY", "TRUSTED CERTIFICATE", "public key", ""}
Bodies == {"spki", "cert", "pkcs1", "private", "garbage", "empty", "broken"}
B(l, b, k) == [label |-> l, body |-> b, key |-> k]
Secret == K("oct", 1)

Base(alg) == [name |-> "j", alg |-> alg, skew |-> "absent", form |-> "none", lead |-> "none", trail |-> "none", blocks |-> <<>>,
              set |-> "none", whole |-> "no", entries |-> <<>>, secret |-> Secret]
Single(alg, b) == [Base(alg) EXCEPT !.form = "pem", !.blocks = <<b>>]
Singles == {Single(a, B(l, b, K(f, 1))) : a \in Algs, l \in Labels, b \in Bodies, f \in Fams}
Good(alg) == CASE alg = "ES256" -> K("p256", 1) [] alg = "ES384" -> K("p384", 1) [] alg = "ES512" -> K("p521", 1) [] OTHER -> K("rsa", 1)
Simple == {B("PUBLIC KEY", "spki", K(f, 1)) : f \in {"rsa", "p256", "p384", "p521"}} \cup {B("CERTIFICATE", "cert", K(f, 2)) : f \in {"rsa", "p256", "p384", "p521"}}
          \cup {B("PUBLIC KEY", "broken", K("rsa", 1)), B("PRIVATE KEY", "private", K("rsa", 1))}
Doubles == {[Single(a, b1) EXCEPT !.blocks = <<b1, b2>>] : a \in Known, b1 \in Simple, b2 \in Simple}
Around == UNION {{[Single(a, b) EXCEPT !.lead = x, !.trail = y] : b \in {B("PUBLIC KEY", "spki", Good(a)), B("CERTIFICATE", "cert", Good(a))},
             x \in {"none", "space", "junk"}, y \in {"none", "space", "junk"}} : a \in Known}
Mangled == {Single(a, B(l, "mangled", Good(a))) : a \in Known \ {"none"}, l \in {"PUBLIC KEY", "CERTIFICATE"}}
Texts == {[Base(a) EXCEPT !.form = f] : a \in Algs, f \in {"none", "text"}}
\* names and skews with good and bad keys
Heads == {[c EXCEPT !.name = n, !.skew = s] : n \in {"", "j"}, s \in {"absent", "number", "odd", "bad"},
            c \in Texts \cup {Single(a, B("PUBLIC KEY", "spki", Good(a))) : a \in Algs} \cup {Single("ES256", B("PUBLIC KEY", "spki", K("p384", 1)))}
                  \cup {[Base(a) EXCEPT !.set = "url", !.whole = "yes", !.entries = <<[kid |-> "a", alg |-> a, key |-> Good(a)]>>] : a \in Algs}}
Entry(kid, alg, k) == [kid |-> kid, alg |-> alg, key |-> k]
EntryKinds(a) == {Entry("a", a, Good(a)), Entry("b", a, [Good(a) EXCEPT !.id = 2]), Entry("b", a, K("rsa", 3)), Entry("c", a, K("p256", 3)), Entry("c", a, K("p384", 3)),
                  Entry("c", a, K("oct", 3)), Entry("", a, [Good(a) EXCEPT !.id = 2])}
                 \cup {Entry("c", x, [Good(a) EXCEPT !.id = 3]) : x \in {"", "RS256", "PS384", "ES256", "ES384", "HS256", "none", "xx"}}
Sets == {[Base(a) EXCEPT !.set = "url", !.whole = w, !.entries = <<e>>] : a \in {"RS256"}, e \in EntryKinds("RS256"), w \in {"yes", "no", "open"}}
        \cup UNION {{[Base(a) EXCEPT !.set = "url", !.whole = "yes", !.entries = <<e>>] : e \in EntryKinds(a)} : a \in Known}
        \cup UNION {{[Base(a) EXCEPT !.set = "url", !.whole = "yes", !.entries = <<e1, e2>>] : e1 \in EntryKinds(a), e2 \in EntryKinds(a)} : a \in {"RS384", "PS256", "ES256", "ES512"}}
        \cup {[Single(a, b) EXCEPT !.set = "url", !.whole = w, !.entries = <<Entry("a", a, [Good(a) EXCEPT !.id = 2])>>] : a \in Known, b \in Simple, w \in {"yes", "no"}}
Domain == CASE Part = 1 -> Singles
            [] Part = 2 -> Doubles \cup Around \cup Mangled
            [] Part = 3 -> Heads \cup Sets

MCInit == \E c \in Domain : Start(c) /\ last = <<>>
MCNext == \/ \E ok \in BOOLEAN, n \in 0..2 : Validate(ok, n) /\ last' = <<>>
          \/ \E f \in {"rsa", "p256", "p384", "p521", "oct"}, i \in 1..3, adm \in BOOLEAN : Token(K(f, i), adm) /\ last' = <<K(f, i), adm>>
MCSpec == MCInit /\ [][MCNext]_mcvars

\* the specification leaves something to do for every configuration, in every order of its actions
Total == phase = "new" => \E ok \in BOOLEAN, n \in 0..2 : ENABLED Validate(ok, n)
C20_OnlyWhatFits == phase = "accepted" => /\ cfg.name # "" /\ cfg.alg \in Known /\ cfg.skew # "bad"
                                          /\ (cfg.alg = "none" => cfg.form = "none")
                                          /\ ((cfg.alg # "none" /\ cfg.alg \notin HSs) => (May # {} /\ (~Static => \A k \in May : Fits(cfg.alg, k))))
C20_OneBlock == (phase = "accepted" /\ cfg.form = "pem" /\ cfg.alg \notin HSs) =>
                  /\ Cardinality({i \in 1..Len(cfg.blocks) : cfg.blocks[i].body # "broken"}) = 1
                  /\ \A i \in 1..Len(cfg.blocks) : cfg.blocks[i].body \notin {"private", "garbage", "empty"}
C20_RefusedLeavesNothing == (phase = "refused" /\ Static) => held = 0
C20_AcceptedVerifies == (last # <<>> /\ Static /\ last[2]) => last[1] \in BlockKeys \cup {Secret}
DumpCfg == (Dump /\ phase = "new") => PrintT("CFG " \o ToJson(cfg))
=============================================================================
