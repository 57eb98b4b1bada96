---------------------------- MODULE MCDelayQueue ----------------------------
(***************************************************************************)
(* Delayed adds: accepted adds travel through a buffer to a waiting set    *)
(* and are moved to the queue when due.  due[i] is the promise made to the *)
(* callers: the earliest time at which i must become available.            *)
(***************************************************************************)
EXTENDS WorkQueue
CONSTANTS Items, Delays, MaxTime, MaxOps
VARIABLES q, due, ops, ready
vars == <<q, due, ops, ready>>
None == 1000

\* earliest delayed add of i accepted but not parked yet
InChan(z, i) == LET c == {z.chan[k].due : k \in {n \in 1..Len(z.chan) : z.chan[n].x = i}}
                IN IF c = {} THEN None ELSE CHOOSE d \in c : \A e \in c : d <= e

Init == q = QInit /\ due = [i \in Items |-> None] /\ ops = 0 /\ ready = <<>>

After(i, d) == /\ ops < MaxOps /\ ops' = ops + 1
               /\ q' = Delay(q, i, q.now, d)
               /\ due' = IF q.down \/ d <= 0 THEN due
                         ELSE [due EXCEPT ![i] = Min(@, q.now + d)]
               /\ ready' = ready
Step == /\ \E n \in QInternal(q) : q' = n
        /\ LET fired == DOMAIN q.wait \ DOMAIN q'.wait IN
           /\ due' = [i \in Items |-> IF i \in fired THEN InChan(q, i) ELSE due[i]]
           /\ ready' = ready \o (IF fired = {} THEN <<>>
                                 ELSE LET i == CHOOSE x \in fired : TRUE
                                      IN <<[at |-> q.now, promised |-> due[i], parked |-> q.wait[i]]>>)
        /\ UNCHANGED ops
Tick == /\ q.now < MaxTime /\ QQuiet(q)
        /\ q' = [q EXCEPT !.now = @ + 1]
        /\ UNCHANGED <<due, ops, ready>>
Use == /\ q.queue # <<>> /\ q' = Finish(Take(q), Head(q.queue))
       /\ UNCHANGED <<due, ops, ready>>
Down == /\ ~q.down /\ q' = Shut(q) /\ due' = [i \in Items |-> None] /\ UNCHANGED <<ops, ready>>

Next == (\E i \in Items, d \in Delays : After(i, d)) \/ Step \/ Tick \/ Use \/ Down
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Tick)

Inv == QInv(q)
\* became available at a time not earlier than promised, and not later
Prompt == \A k \in 1..Len(ready) : ready[k].at = ready[k].promised
\* due-time order
Ordered == \A k \in 1..Len(ready) - 1 : ready[k].parked <= ready[k+1].parked
NotLost == \A i \in Items : (due[i] # None) =>
             \/ i \in DOMAIN q.wait \/ \E k \in 1..Len(q.chan) : q.chan[k].x = i
OnePending == QQuiet(q) => \A i \in DOMAIN q.wait : q.wait[i] = due[i]
Eventually == \A i \in Items : (due[i] < MaxTime) ~> (due[i] >= MaxTime)
=============================================================================
