------------------------------ MODULE WorkQueue ------------------------------
(***************************************************************************)
(* The work queue family: plain queue, delaying queue, rate-limiting queue. *)
(*   queue  items ready to be handed out, in order                         *)
(*   dirty  items that need processing (queued, or re-added while held)    *)
(*   proc   items currently held by workers                                *)
(*   down   shutdown was requested                                         *)
(*   chan   delayed adds accepted but not yet seen by the waiting loop     *)
(*   wait   item -> due time, for items parked by the waiting loop         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

QInit == [queue |-> <<>>, dirty |-> {}, proc |-> {}, down |-> FALSE,
          chan |-> <<>>, wait |-> << >>, now |-> 0]

Enq(q, i) == IF q.down \/ i \in q.dirty THEN q
             ELSE [q EXCEPT !.dirty = @ \cup {i},
                            !.queue = IF i \in q.proc THEN @ ELSE Append(@, i)]

\* hand out the head of the queue
Take(q) == LET i == Head(q.queue) IN
           [q EXCEPT !.queue = Tail(@), !.dirty = @ \ {i}, !.proc = @ \cup {i}]

Finish(q, i) == [q EXCEPT !.proc = @ \ {i},
                          !.queue = IF i \in q.dirty THEN Append(@, i) ELSE @]

Shut(q) == [q EXCEPT !.down = TRUE, !.chan = <<>>, !.wait = << >>]

\* a delayed add accepted at time t
Delay(q, i, t, d) == IF q.down THEN q
                     ELSE IF d <= 0 THEN Enq(q, i)
                     ELSE [q EXCEPT !.chan = Append(@, [x |-> i, due |-> t + d])]

Min(a, b) == IF a < b THEN a ELSE b

\* the waiting loop parks the next accepted delayed add: earliest time wins
Park(q) == LET e == Head(q.chan)
               d == IF e.x \in DOMAIN q.wait THEN Min(q.wait[e.x], e.due) ELSE e.due
           IN [q EXCEPT !.chan = Tail(@), !.wait = (e.x :> d) @@ @]

FireSet(q) == {i \in DOMAIN q.wait :
                 /\ q.wait[i] <= q.now
                 /\ \A j \in DOMAIN q.wait : q.wait[i] <= q.wait[j]}

Fire(q, i) == Enq([q EXCEPT !.wait = [j \in DOMAIN q.wait \ {i} |-> q.wait[j]]], i)

QDue(q) == {q.wait[i] : i \in DOMAIN q.wait} \cup {q.chan[k].due : k \in 1..Len(q.chan)}

QInternal(q) == IF q.down THEN {}
                ELSE (IF q.chan # <<>> THEN {Park(q)} ELSE {})
                     \cup {Fire(q, i) : i \in FireSet(q)}

QQuiet(q) == q.down \/ (q.chan = <<>> /\ FireSet(q) = {})

\* the effect of a call, when it may have one now
TQApply(q, c) ==
  CASE c.op = "add"   -> {[st |-> Enq(q, c.x), res |-> "ok"]}
    [] c.op = "get"   -> IF q.queue # <<>>
                         THEN {[st |-> Take(q), res |-> Head(q.queue)]}
                         ELSE IF q.down THEN {[st |-> q, res |-> "SHUTDOWN"]}
                         ELSE {}
    [] c.op = "done"  -> {[st |-> Finish(q, c.x), res |-> "ok"]}
    [] c.op = "shut"  -> {[st |-> Shut(q), res |-> "ok"]}
    [] c.op = "after" -> {[st |-> Delay(q, c.x, c.t, c.d), res |-> "ok"]}
    [] OTHER -> {}

----------------------------------------------------------------------------
(* Properties of a queue state *)
Range(f) == {f[i] : i \in DOMAIN f}
NoDup(q)      == \A a, b \in 1..Len(q.queue) : q.queue[a] = q.queue[b] => a = b
Exclusive(q)  == Range(q.queue) \cap q.proc = {}
NothingLost(q) == q.dirty = Range(q.queue) \cup (q.dirty \cap q.proc)
WaitSane(q)   == q.down => (q.chan = <<>> /\ DOMAIN q.wait = {})
QInv(q) == NoDup(q) /\ Exclusive(q) /\ NothingLost(q) /\ WaitSane(q)
=============================================================================
