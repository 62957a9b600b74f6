---------------------------- MODULE IsolationMC ----------------------------
(* All interleavings of the observable steps of a few requests. The order  *)
(* of the steps is what the driver plays in virtual time.                  *)
EXTENDS Isolation, Json

CONSTANTS N, Fails, Dump
VARIABLES order,   \* steps so far: <<what, r>>
          part     \* r -> parts of the current upstream answer seen: 0, 1 (header)
mcvars == <<vars, order, part>>

Q(r) == [path |-> "/" \o ToString(r), id |-> IF r = 1 THEN "" ELSE "id" \o ToString(r), token |-> "t", sum |-> "s", verdict |-> IF r > N THEN 404 ELSE 0]
All == 1..N
LastIs(r, s) == IF ans[r] = <<>> THEN 0 \in s ELSE ans[r][Len(ans[r])].status \in s
Step(w, r) == order' = Append(order, <<w, r>>)

MCInit == Started("c") /\ order = <<>> /\ part = [r \in All |-> 0]
\* requests are alike: let them arrive in order
Come(r) == /\ (r = 1 \/ r - 1 \in R) /\ r \notin R
           /\ Arrive(r, Q(r)) /\ Step("come", r) /\ UNCHANGED part
Sent(r) == /\ r \in R /\ LastIs(r, {0, 500})
           /\ Forward(r, [path |-> own[r].path, id |-> IF r = 1 THEN "gen" ELSE own[r].id, token |-> "t", sum |-> "s", marks |-> <<r>>])
           /\ UNCHANGED <<order, part>>
Head1(r) == /\ r \in R /\ ups[r] = Len(ans[r]) + 1 /\ part[r] = 0
            /\ part' = [part EXCEPT ![r] = 1] /\ Step("head", r) /\ UNCHANGED vars
Body(r, s) == /\ part[r] = 1
              /\ s = 500 => Len(ans[r]) < Fails
              /\ Answer(r, [status |-> s, sum |-> "b" \o ToString(r), mark |-> r])
              /\ part' = [part EXCEPT ![r] = 0] /\ Step(IF s = 500 THEN "fail" ELSE "body", r)
Reply(r) == /\ r \in R /\ LastIs(r, {200})
            /\ Respond(r, [status |-> 200, id |-> IF r = 1 THEN "gen" ELSE own[r].id, sum |-> "b" \o ToString(r), mark |-> r, marks |-> <<r>>])
            /\ UNCHANGED <<order, part>>
\* sending and replying is the proxy's part and immediate
Urgent == \E r \in All : ENABLED Sent(r) \/ ENABLED Reply(r)
MCNext == \/ \E r \in All : Sent(r) \/ Reply(r)
          \/ ~Urgent /\ \E r \in All : Come(r) \/ Head1(r) \/ Body(r, 200) \/ Body(r, 500)
          \/ Look("c") /\ UNCHANGED <<order, part>>
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
AllDone == <>(done = All)
DumpOrders == (Dump /\ done = All) => PrintT("ORDER " \o ToJson(order))
=============================================================================
