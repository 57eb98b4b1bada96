--------------------------- MODULE WorkQueueTrace ---------------------------
EXTENDS WorkQueue, LinTrace

TQInit(cfg) == QInit

TQProbe(q, e) == /\ e.len = Len(q.queue)
                 /\ e.down = q.down

TQEnv(q, e) == {q}
\* a cancelled add may or may not have taken effect; a cancelled get must not
\* have taken an item; done is never cancelled by the driver
TQCancel(q, c) == IF c.op \in {"add", "after", "shut"} THEN {o.st : o \in TQApply(q, c)} ELSE {}
TQSetNow(q, t) == [q EXCEPT !.now = t]

\* the design's invariants hold along every accepted execution
TraceInv == QInv(ms)
=============================================================================
