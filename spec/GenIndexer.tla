------------------------------ MODULE GenIndexer -----------------------------
(* Scripts for the indexed store; every lookup is made after every call.    *)
EXTENDS Indexer, GenLin
CONSTANTS GKeys, Ivs

XGInit == IxInit({"i"})
XGApply(s, c) == TXApply(s, c)
XGInternal(s) == {}
Obj(n, k, vs) == [key |-> k, o |-> n, iv |-> [i |-> vs]]
XGCalls(s, n) ==
  {[op |-> o, key |-> k, o |-> 10 * n, iv |-> [i |-> vs]] : o \in {"add", "update"}, k \in GKeys, vs \in Ivs}
  \cup {[op |-> "delete", key |-> k] : k \in GKeys}
  \cup {[op |-> "replace", l |-> l] :
          l \in {<<>>} \cup {<<Obj(10 * n, k, vs)>> : k \in GKeys, vs \in Ivs}
                \cup {<<Obj(10 * n, k, vs), Obj(10 * n + 1, j, ws)>> : k \in GKeys, j \in GKeys, vs \in Ivs, ws \in Ivs}}
XGWaits(c) == FALSE
XGAbs(s) == [k \in DOMAIN s.items |-> s.items[k].iv]
XGOp(c) == IF "iv" \in DOMAIN c THEN <<c.op, c.key, c.iv>> ELSE IF "key" \in DOMAIN c THEN <<c.op, c.key>> ELSE <<c.op>>
CIvs == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 2>>, <<1, 0>>}
CIvsT == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 2, 1>>, <<1, 0>>}
=============================================================================
