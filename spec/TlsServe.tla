------------------------------ MODULE TlsServe ------------------------------
(***************************************************************************)
(* Handshakes in TLS mode (server.go): which protocol version and suite a  *)
(* client and the server may agree on, and what certificate is shown.      *)
(* Versions: 10, 11, 12, 13 for TLS 1.0 to 1.3.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Suites13 == {"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256"}
\* ephemeral keys and authenticated encryption
ModernRsa == {"TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"}
ModernEcdsa == {"TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256"}
NoSecrecy == {"TLS_RSA_WITH_AES_128_GCM_SHA256", "TLS_RSA_WITH_AES_256_GCM_SHA384"}
NoAead == {"TLS_RSA_WITH_RC4_128_SHA", "TLS_RSA_WITH_3DES_EDE_CBC_SHA", "TLS_RSA_WITH_AES_128_CBC_SHA", "TLS_RSA_WITH_AES_256_CBC_SHA",
           "TLS_RSA_WITH_AES_128_CBC_SHA256", "TLS_ECDHE_ECDSA_WITH_RC4_128_SHA", "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA",
           "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA", "TLS_ECDHE_RSA_WITH_RC4_128_SHA", "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA",
           "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA", "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA", "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256",
           "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256"}
Old == NoSecrecy \cup NoAead
Offerable == ModernRsa \cup ModernEcdsa \cup Old

VARIABLES key,              \* of the certificate: rsa or ec
          lo, hi, offered,  \* of the client
          st,               \* hello, agreed, refused
          version, suite
vars == <<key, lo, hi, offered, st, version, suite>>

Hello(k, l, h, s) == key = k /\ lo = l /\ hi = h /\ offered = s /\ st = "hello" /\ version = 0 /\ suite = "none"

Fits(v, s) == v \in lo..hi /\ (IF v = 13 THEN s \in Suites13 ELSE s \in offered /\ (IF key = "rsa" THEN s \notin ModernEcdsa ELSE s \notin ModernRsa))
Modern(v, s) == v \in {12, 13} /\ s \in Suites13 \cup ModernRsa \cup ModernEcdsa
\* every client with TLS 1.3 gets in, and so does one with TLS 1.2 and the suites documented for RSA certificates
Welcome == hi = 13 \/ (12 \in lo..hi /\ key = "rsa" /\ offered \cap (ModernRsa \ {"TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256"}) # {})

Agree(v, s, shown) == /\ st = "hello" /\ Fits(v, s) /\ Modern(v, s) /\ shown
                      /\ st' = "agreed" /\ version' = v /\ suite' = s /\ UNCHANGED <<key, lo, hi, offered>>
Refuse == st = "hello" /\ ~Welcome /\ st' = "refused" /\ UNCHANGED <<key, lo, hi, offered, version, suite>>
Next == (\E v \in 10..13, s \in Suites13 \cup Offerable : Agree(v, s, TRUE)) \/ Refuse

C21_Modern == st = "agreed" => version >= 12 /\ suite \notin Old
C21_NoOldClient == (hi < 12 \/ (hi = 12 /\ offered \subseteq Old)) => st # "agreed"
=============================================================================
