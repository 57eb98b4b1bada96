-------------------------------- MODULE MCRetry -------------------------------
(* The queue, a server that changes objects, a process function that fails.  *)
EXTENDS Retry, TLC
CONSTANTS Keys, MaxV, MaxFail, RetryOn
VARIABLES v, cur, done, pend, queue, wait, m, fails, said
vars == <<v, cur, done, pend, queue, wait, m, fails, said>>
Ks == Keys
NoV == [k \in Ks |-> 0]
Init == /\ v = 0 /\ cur = NoV /\ done = NoV /\ pend = [k \in Ks |-> NoBatch] /\ queue = << >>
        /\ wait = << >> /\ m = RetryInit /\ fails = 0 /\ said = ""
Put(q, p, k, b) == [q |-> IF p[k] = NoBatch THEN Append(q, k) ELSE q,
                    p |-> [p EXCEPT ![k] = @ \o b]]
(* the queue is held while a batch is processed: one writer may be waiting *)
Change(k) == /\ v < MaxV /\ wait = << >> /\ v' = v + 1 /\ cur' = [cur EXCEPT ![k] = v + 1]
             /\ IF m.busy # ""
                THEN wait' = <<[key |-> k, b |-> <<[op |-> "Updated", v |-> v + 1]>>]>> /\ UNCHANGED <<pend, queue>>
                ELSE LET r == Put(queue, pend, k, <<[op |-> "Updated", v |-> v + 1]>>)
                     IN queue' = r.q /\ pend' = r.p /\ wait' = wait
             /\ UNCHANGED <<done, m, fails, said>>
Take == /\ m.busy = "" /\ wait = << >> /\ queue # << >>
        /\ LET k == Head(queue) IN
           /\ said' = HandOk(m, k, pend[k])
           /\ m' = Hand(m, k, pend[k])
           /\ pend' = [pend EXCEPT ![k] = NoBatch]
        /\ queue' = Tail(queue) /\ UNCHANGED <<v, cur, done, wait, fails>>
End(r) == /\ m.busy # ""
          /\ LET k == m.busy  b == m.batch
                 \* the queue puts a failed batch back before it lets the waiting writer in
                 q1 == IF r = "requeue" \/ (r = "fail" /\ RetryOn) THEN Put(queue, pend, k, b) ELSE [q |-> queue, p |-> pend]
                 q2 == IF wait = << >> THEN q1 ELSE Put(q1.q, q1.p, wait[1].key, wait[1].b)
             IN /\ queue' = q2.q /\ pend' = q2.p
                /\ done' = IF r = "ok" THEN [done EXCEPT ![k] = LastV(b)] ELSE done
          /\ wait' = << >>
          /\ m' = Finish(m, r, RetryOn, {queue[i] : i \in 1..Len(queue)})
          /\ fails' = IF r = "ok" THEN fails ELSE fails + 1
          /\ UNCHANGED <<v, cur, said>>
Succeed == End("ok")
Fail == fails < MaxFail /\ End("fail")
Requeue == fails < MaxFail /\ End("requeue")
Next == (\E k \in Ks : Change(k)) \/ Take \/ Succeed \/ Fail \/ Requeue
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Succeed)
(* the clauses of the trace checker hold of the model *)
Quiet == said = ""
(* a batch is only ever away from the queue while it is processed *)
Kept == \A i \in 1..Len(m.owed) : pend[m.owed[i].key] # NoBatch
OneEach == \A i, j \in 1..Len(m.owed) : i # j => m.owed[i].key # m.owed[j].key
InOrder == \A i, j \in 1..Len(m.owed) : i < j =>
   \E a, b \in 1..Len(queue) : a < b /\ queue[a] = m.owed[i].key /\ queue[b] = m.owed[j].key
Ahead == \A i \in 1..Len(m.owed) : \A k \in m.owed[i].ahead :
   \E a, b \in 1..Len(queue) : a < b /\ queue[a] = k /\ queue[b] = m.owed[i].key
NothingLost == (RetryOn /\ queue = << >> /\ m.busy = "" /\ m.owed = << >>) => done = cur
(* nothing waits for ever, and a failed change is not lost *)
Settles == <>[](queue = << >> /\ m.busy = "" /\ m.owed = << >>)
===============================================================================
