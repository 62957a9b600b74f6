-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Connections to one upstream (httpclient.go). The proxy answers waves of *)
(* parallel requests, with quiet times between them. Idle connections are  *)
(* used again before new ones are opened; as many as the pool size are     *)
(* kept, no more, and none for longer than the idle timeout. Times in ms;  *)
(* what an upstream sees may lag.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Early, Late  \* how far off an idle timeout may seem

VARIABLES size, idle,  \* configuration
          now,
          pool,        \* idle connections the proxy may hold: connection -> idle since
          seen         \* all connections there have ever been
vars == <<size, idle, now, pool, seen>>

Started(s, i) == size = s /\ idle = i /\ now = 0 /\ pool = <<>> /\ seen = {}
Held == DOMAIN pool
Min(a, b) == IF a < b THEN a ELSE b
Surely(t) == {c \in Held : pool[c] + idle - Early > t}  \* not yet given up
Maybe(t)  == {c \in Held : pool[c] + idle + Late > t}   \* possibly not given up

\* n requests at once, from t to end: those in fresh were opened for them, those in used carried them
Wave(t, end, n, used, fresh) ==
  /\ t >= now /\ end >= t
  /\ fresh \cap seen = {}
  /\ used \subseteq Maybe(t) \cup fresh
  /\ used # {} /\ Cardinality(used) <= n
  /\ LET have == Cardinality(Surely(t)) IN Cardinality(fresh) <= (IF n > have THEN n - have ELSE 0)
  /\ seen' = seen \cup fresh /\ now' = end
  /\ pool' = [c \in Held \cup fresh |-> IF c \in used \cup fresh THEN end ELSE pool[c]]
  /\ UNCHANGED <<size, idle>>
\* no request under way for a while: which connections are open
Quiet(t, open) ==
  /\ t >= now
  /\ open \subseteq Maybe(t)
  /\ Cardinality(open) <= size
  /\ Cardinality(open) >= Min(size, Cardinality(Surely(t)))
  /\ pool' = [c \in open |-> pool[c]]
  /\ now' = t /\ UNCHANGED <<size, idle, seen>>
=============================================================================
