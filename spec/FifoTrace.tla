----------------------------- MODULE FifoTrace -----------------------------
EXTENDS Fifo, LinTrace
TFInit(cfg) == FifoInit @@ [chk |-> cfg.chk]
TFProbe(f, e) ==
  /\ {e.keys[i] : i \in 1..Len(e.keys)} = DOMAIN f.items
  /\ Len(e.keys) = Cardinality(DOMAIN f.items)
  /\ Len(e.objs) = Cardinality(DOMAIN f.items)
  /\ {e.objs[i] : i \in 1..Len(e.objs)} = {f.items[k] : k \in DOMAIN f.items}
  /\ \A i \in 1..Len(e.got) : e.got[i].o = (IF e.got[i].key \in DOMAIN f.items THEN f.items[e.got[i].key] ELSE 0)
  /\ f.chk = "all" => e.synced = PSynced(f)
  /\ e.closed = f.closed
TFEnv(f, e) == {}
TFCancel(f, c) == IF c.op = "pop" THEN {} ELSE {o.st : o \in TFApply(f, c)}
TFDue(f) == {}
TFSetNow(f, t) == f
TFQuiet(f) == TRUE
TraceInv == Held(ms) /\ OwedExact(ms)
=============================================================================
