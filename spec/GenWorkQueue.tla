----------------------------- MODULE GenWorkQueue ----------------------------
(* Scripts for the work queues: "advance" lets time pass. *)
EXTENDS WorkQueue, GenLin
CONSTANTS GItems,
          Delays   \* delays to ask for, {} for the plain queue

QGInit == QInit
QGApply(q, c) ==
  CASE c.op = "after" -> {[st |-> Delay(q, c.x, q.now, c.d), res |-> ""]}
    [] c.op = "advance" -> {[st |-> [q EXCEPT !.now = @ + c.d], res |-> ""]}
    [] OTHER -> TQApply(q, c)
QGInternal(q) == QInternal(q)
QGCalls(q, n) ==
  {[op |-> "add", x |-> i] : i \in GItems}
  \cup {[op |-> "done", x |-> i] : i \in q.proc}
  \cup {[op |-> "get"]}
  \cup {[op |-> "shut"]}
  \cup {[op |-> "after", x |-> i, d |-> d] : i \in GItems, d \in Delays}
  \cup (IF Delays = {} THEN {} ELSE {[op |-> "advance", d |-> d] : d \in {1, 3}})
QGWaits(c) == c.op = "get"
QGAbs(q) == <<q.queue, q.dirty, q.proc, q.down, [i \in DOMAIN q.wait |-> q.wait[i] - q.now]>>
QGOp(c) == IF c.op = "after" THEN <<c.op, c.x, c.d>> ELSE IF c.op = "advance" THEN <<c.op, c.d>>
           ELSE IF "x" \in DOMAIN c THEN <<c.op, c.x>> ELSE <<c.op>>
=============================================================================
