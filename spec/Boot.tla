-------------------------------- MODULE Boot --------------------------------
(***************************************************************************)
(* The start of the server (server.go, config.go, tls.go): a configuration *)
(* comes from one of three places, is checked, and either the server       *)
(* listens or it exits with an error and never listens.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES src,   \* what there is: [arg, env, dflt], each "none" or a kind of content
          conf,  \* what a good content says: [path, transform, ref, jwt, mode, cert]
          ph     \* start, loaded, listening, exited
vars == <<src, conf, ph>>

Args  == {"none", "good", "missing", "dir", "empty", "garbage", "noroutes", "emptyroutes", "nullroutes", "unclosed"}
Envs  == {"none", "good", "garbage", "noroutes", "emptyroutes", "unclosed", "scalar"}
Dflts == {"none", "good", "dir", "empty", "garbage", "noroutes"}

GoodPaths == {"plain", "noslash", "regex"}
BadPaths == {"bad", "bad2", "bad3"}
GoodTransforms == {"none", "slash"}
BadTransforms == {"bad", "bad2", "relative"}
GoodRefs == {"none", "known"}
BadRefs == {"unknown", "unknown2", "othercase"}
GoodJwts == {"none", "hs", "rs", "es", "none-alg", "set", "setlater"}
BadJwts == {"badalg", "noalg", "nokey", "badpem", "wrongtype", "badskew", "nonewithkey", "badcert", "curve",
            "setdown", "setskew", "setnoalg", "setunfit", "setcurve", "setnone", "seterror"}
GoodCerts == {"self", "root", "inter", "shuffled", "extra"}
BadCerts == {"neither", "nocert", "nokey", "garbage", "keygarbage", "mismatch", "expired", "notyet", "expiredinter", "expiredroot", "noroot",
             "nointer", "forged", "onlykeys"}
TLSModes == {"TLS", "tls", "Tls"}
HTTPModes == {"absent", "HTTP", "http"}

Chosen == IF src.arg # "none" THEN src.arg ELSE IF src.env # "none" THEN src.env ELSE src.dflt
Loads == Chosen = "good"
Sound == /\ conf.path \in GoodPaths /\ conf.transform \in GoodTransforms /\ conf.ref \in GoodRefs /\ conf.jwt \in GoodJwts
         /\ (conf.mode \in TLSModes => conf.cert \in GoodCerts)

Begin(s, c) == src = s /\ conf = c /\ ph = "start"
Load == ph = "start" /\ Loads /\ ph' = "loaded" /\ UNCHANGED <<src, conf>>
Listen == ph = "loaded" /\ Sound /\ ph' = "listening" /\ UNCHANGED <<src, conf>>
Exit(code) == /\ \/ ph = "start" /\ ~Loads
                 \/ ph = "loaded" /\ ~Sound
              /\ code # 0
              /\ ph' = "exited" /\ UNCHANGED <<src, conf>>
Next == Load \/ Listen \/ Exit(1)
----------------------------------------------------------------------------
C19_OnlyUsable == ph = "listening" => Loads /\ Sound
C19_Refused == ph = "exited" => ~(Loads /\ Sound)
C19_Decides == ph \notin {"listening", "exited"} => ENABLED Next
=============================================================================
