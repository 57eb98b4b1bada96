---------------------------- MODULE IndexerTrace ----------------------------
EXTENDS Indexer, LinTrace
TXInit(cfg) == IxInit(SetOf(cfg.names))
TXProbe(s, e) ==
  /\ e.keys = Sorted(DOMAIN s.items)
  /\ e.objs = Sorted({s.items[k].o : k \in DOMAIN s.items})
  /\ \A i \in 1..Len(e.got) : e.got[i].o = (IF e.got[i].key \in DOMAIN s.items THEN s.items[e.got[i].key].o ELSE 0)
  /\ SetOf(e.names) = s.names
TXEnv(s, e) == {}
TXInternal(s) == {}
TXCancel(s, c) == {o.st : o \in TXApply(s, c)}
TXDue(s) == {}
TXSetNow(s, t) == s
TXQuiet(s) == TRUE
TraceInv == IndexExact(ms)
=============================================================================
