----------------------------- MODULE MCWorkQueue -----------------------------
(***************************************************************************)
(* Concurrent design of the work queue: workers blocked on a condition     *)
(* variable with FIFO wake-ups, cancellation at every point, and shutdown. *)
(* The data part is the WorkQueue spec that traces are checked against.    *)
(* ws[w]: "out" (not in get), "wait", "woken" (notified, not yet resumed), *)
(*        "gone" (saw shutdown), or the item it holds.                     *)
(***************************************************************************)
EXTENDS WorkQueue
CONSTANTS Items, Workers, MaxAdd, MaxCancel, Renotify
VARIABLES q, ws, waiters, adds, cancels, handed, owed

vars == <<q, ws, waiters, adds, cancels, handed, owed>>

\* owed[i]: number of times i must still be handed out (0 or 1): the abstract
\* obligation an accepted add creates
Init == /\ q = QInit
        /\ ws = [w \in Workers |-> "out"]
        /\ waiters = <<>>
        /\ adds = 0 /\ cancels = 0
        /\ handed = [i \in Items |-> 0]
        /\ owed = [i \in Items |-> 0]

FirstWaiting(wsx) == LET c == {k \in 1..Len(waiters) : wsx[waiters[k]] = "wait"}
                     IN IF c = {} THEN 0 ELSE CHOOSE k \in c : \A j \in c : k <= j
Notify(wsx) == LET k == FirstWaiting(wsx) IN
               IF k = 0 THEN wsx ELSE [wsx EXCEPT ![waiters[k]] = "woken"]

Holding(w) == ws[w] \in Items

Add(i) == /\ adds < MaxAdd
          /\ adds' = adds + 1
          /\ q' = Enq(q, i)
          /\ ws' = IF Len(q'.queue) > Len(q.queue) THEN Notify(ws) ELSE ws
          /\ owed' = IF q.down THEN owed ELSE [owed EXCEPT ![i] = 1]
          /\ UNCHANGED <<waiters, cancels, handed>>

\* a worker that has the lock either takes an item, sees shutdown, or waits
Grab(w, wsx, wtx) ==
   IF q.queue # <<>>
   THEN /\ q' = Take(q)
        /\ ws' = [wsx EXCEPT ![w] = Head(q.queue)]
        /\ handed' = [handed EXCEPT ![Head(q.queue)] = @ + 1]
        /\ owed' = [owed EXCEPT ![Head(q.queue)] = 0]
        /\ waiters' = wtx
   ELSE IF q.down
   THEN /\ ws' = [wsx EXCEPT ![w] = "gone"]
        /\ waiters' = wtx
        /\ UNCHANGED <<q, handed, owed>>
   ELSE /\ ws' = [wsx EXCEPT ![w] = "wait"]
        /\ waiters' = Append(wtx, w)
        /\ UNCHANGED <<q, handed, owed>>

Without(w) == SelectSeq(waiters, LAMBDA x : x # w)

Get(w) == ws[w] = "out" /\ Grab(w, ws, waiters) /\ UNCHANGED <<adds, cancels>>
Resume(w) == ws[w] = "woken" /\ Grab(w, ws, Without(w)) /\ UNCHANGED <<adds, cancels>>

Cancel(w) == /\ cancels < MaxCancel
             /\ ws[w] \in {"wait", "woken"}
             /\ cancels' = cancels + 1
             /\ waiters' = Without(w)
             /\ LET wsx == [ws EXCEPT ![w] = "out"] IN
                ws' = IF Renotify /\ q.queue # <<>>
                      THEN LET c == {k \in 1..Len(waiters) : waiters[k] # w /\ ws[waiters[k]] = "wait"}
                           IN IF c = {} THEN wsx
                              ELSE [wsx EXCEPT ![waiters[CHOOSE k \in c : \A j \in c : k <= j]] = "woken"]
                      ELSE wsx
             /\ UNCHANGED <<q, adds, handed, owed>>

Done(w) == /\ Holding(w)
           /\ q' = Finish(q, ws[w])
           /\ LET wsx == [ws EXCEPT ![w] = "out"] IN
              ws' = IF Len(q'.queue) > Len(q.queue) THEN Notify(wsx) ELSE wsx
           /\ UNCHANGED <<waiters, adds, cancels, handed, owed>>

ShutDown == /\ ~q.down
            /\ q' = Shut(q)
            /\ ws' = [w \in Workers |-> IF ws[w] = "wait" THEN "woken" ELSE ws[w]]
            /\ UNCHANGED <<waiters, adds, cancels, handed, owed>>

Next == \/ \E i \in Items : Add(i)
        \/ \E w \in Workers : Get(w) \/ Resume(w) \/ Cancel(w) \/ Done(w)
        \/ ShutDown

Fair == \A w \in Workers : WF_vars(Get(w)) /\ WF_vars(Resume(w)) /\ WF_vars(Done(w))
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
Inv == QInv(q)
\* an item held by one worker is held by no other
OneHolder == \A v, w \in Workers : (v # w /\ Holding(v) /\ Holding(w)) => ws[v] # ws[w]
HeldIsProc == q.proc = {ws[w] : w \in {x \in Workers : Holding(x)}}
\* the queue still owes exactly the accepted adds not yet handed out
OwedKept == \A i \in Items : (owed[i] = 1) <=> (i \in q.dirty)
\* a wake-up is in flight for every ready item somebody waits for
NoLostWakeup == (\E w \in Workers : ws[w] = "wait")
                  => Len(q.queue) <= Cardinality({w \in Workers : ws[w] = "woken"})
NoGoneWithWork == (\E w \in Workers : ws[w] = "gone") => q.down
\* nothing accepted is ever abandoned; everybody is released after shutdown
Delivered == \A i \in Items : (owed[i] = 1) ~> (owed[i] = 0 \/ \A w \in Workers : ws[w] = "gone")
Released == \A w \in Workers : (q.down /\ ws[w] = "wait") ~> (ws[w] # "wait")
AllGone == [](q.down => <>(\A w \in Workers : ws[w] = "gone"))
=============================================================================
