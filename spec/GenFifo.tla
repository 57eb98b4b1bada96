------------------------------- MODULE GenFifo -------------------------------
(* Scripts for the FIFO queue. *)
EXTENDS Fifo, GenLin
CONSTANT GKeys

PGInit == FifoInit
PGApply(f, c) == TFApply(f, c)
PGInternal(f) == TFInternal(f)
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
PGLists(n) ==
  UNION {{[i \in 1..Cardinality(S) |-> [key |-> p[i], o |-> 10 * n + i]] : p \in Orders(S)} : S \in SUBSET GKeys}
  \* a key listed twice
  \cup {<<[key |-> k, o |-> 10 * n + 1], [key |-> k, o |-> 10 * n + 2]>> : k \in GKeys}
PGCalls(f, n) ==
  {[op |-> o, key |-> k, o |-> 10 * n] : o \in {"add", "addif"}, k \in GKeys}
  \cup {[op |-> "delete", key |-> k] : k \in GKeys}
  \cup (IF Len(f.queue) < 5 THEN {[op |-> "replace", l |-> l] : l \in PGLists(n)} ELSE {})
  \cup {[op |-> "pop", how |-> h] : h \in {"ok", "raise", "requeue", "requeue+raise"}}
  \cup (IF f.closed THEN {} ELSE {[op |-> "close"]})
  \cup {[op |-> "resync"]}
PGWaits(c) == c.op = "pop"
PGAbs(f) == <<f.queue, DOMAIN f.items, f.populated, IF f.init > 2 THEN 2 ELSE f.init, f.closed>>
PGOp(c) == IF "key" \in DOMAIN c THEN <<c.op, c.key>>
           ELSE IF c.op = "replace" THEN <<c.op, [i \in 1..Len(c.l) |-> c.l[i].key]>>
           ELSE IF c.op = "pop" THEN <<c.op, c.how>> ELSE <<c.op>>
=============================================================================
