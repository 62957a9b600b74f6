----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Concurrent requests and the configuration they share (proxyhandler.go,  *)
(* proxy.go, policy.go, route.go, gzip.go).                                *)
(*                                                                         *)
(* Every request r carries its own path, id, token, body and verdict (what *)
(* becomes of it: proxy, or the status the proxy answers itself), every    *)
(* upstream answer its own mark. Whatever is observed of r may only have   *)
(* to do with r, in any interleaving, and the configuration stays as it is.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES conf,   \* the configuration, as text
          own,    \* r -> what it asked
          ups,    \* r -> number of upstream requests
          ans,    \* r -> upstream answers so far: [status, sum, mark]
          done,   \* requests answered
          ids     \* request ids that are taken: pairs <<r, id>>

vars == <<conf, own, ups, ans, done, ids>>
R == DOMAIN own

Started(c) == conf = c /\ own = <<>> /\ ups = <<>> /\ ans = <<>> /\ done = {} /\ ids = {}

\* requests are numbered in the order in which they arrive
Arrive(r, q) ==
  /\ r \notin R
  /\ own' = [x \in R \cup {r} |-> IF x = r THEN q ELSE own[x]]
  /\ ups' = [x \in R \cup {r} |-> IF x = r THEN 0 ELSE ups[x]]
  /\ ans' = [x \in R \cup {r} |-> IF x = r THEN <<>> ELSE ans[x]]
  /\ UNCHANGED <<conf, done, ids>>

\* id is r's: the one the client sent, or one that nobody else has
Mine(r, id) == /\ own[r].id # "" => id = own[r].id
               /\ id # ""
               /\ \A p \in ids : (p[1] = r) <=> (p[2] = id)

OnlyOf(r, marks) == \A i \in 1..Len(marks) : marks[i] = r

\* u: [path, id, token, sum, marks]
Forward(r, u) ==
  /\ r \in R /\ r \notin done
  /\ own[r].verdict = 0
  /\ ups[r] = Len(ans[r])
  /\ u.path = own[r].path /\ u.token = own[r].token /\ u.sum = own[r].sum
  /\ OnlyOf(r, u.marks)
  /\ Mine(r, u.id) /\ ids' = ids \cup {<<r, u.id>>}
  /\ ups' = [ups EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<conf, own, ans, done>>

Answer(r, a) ==
  /\ r \in R /\ ups[r] = Len(ans[r]) + 1
  /\ ans' = [ans EXCEPT ![r] = Append(@, a)]
  /\ UNCHANGED <<conf, own, ups, done, ids>>

\* v: [status, id, sum (of the decoded body), mark (of the upstream headers, 0 for none), marks]
Respond(r, v) ==
  /\ r \in R /\ r \notin done
  /\ OnlyOf(r, v.marks)
  /\ Mine(r, v.id) /\ ids' = ids \cup {<<r, v.id>>}
  /\ IF own[r].verdict # 0 THEN v.status = own[r].verdict /\ v.mark = 0
     ELSE /\ ans[r] # <<>>
          /\ LET a == ans[r][Len(ans[r])] IN
               CASE a.status < 400 -> v.status = a.status /\ v.mark = a.mark /\ v.sum = a.sum
                 [] a.status \in 400..499 -> v.status = a.status /\ v.mark = 0
                 [] OTHER -> v.status = 502 /\ v.mark = 0
  /\ done' = done \cup {r}
  /\ UNCHANGED <<conf, own, ups, ans>>

Look(c) == c = conf /\ UNCHANGED vars

----------------------------------------------------------------------------
C23_Config == [][UNCHANGED conf]_vars
C23_Own    == \A r \in R : \A i \in 1..Len(ans[r]) : ans[r][i].mark = r
C23_Ids    == \A p, q \in ids : (p[1] = q[1]) <=> (p[2] = q[2])
C23_NothingForRefused == \A r \in R : own[r].verdict # 0 => ups[r] = 0
=============================================================================
