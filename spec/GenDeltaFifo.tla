----------------------------- MODULE GenDeltaFifo ----------------------------
(* Scripts for the delta queue. "end" lets the processing of an item end.   *)
EXTENDS DeltaFifo, GenLin
CONSTANTS GKeys, MaxLen, HasKnown

DGInit == DF0(HasKnown)
DGApply(f, c) ==
  IF c.op = "end" THEN
    IF f.busy = NB THEN {}
    ELSE {[st |-> [FEnd(f, c.how) EXCEPT
                     !.known = IF f.hasKnown /\ c.how = "ok" THEN ApplyDeltas(f.known, f.busy, f.cur) ELSE @],
           res |-> ""]}
  ELSE TDApply(f, c)
DGInternal(f) == {}
Room(f, k) == k \notin DOMAIN f.items \/ Len(f.items[k]) < MaxLen
AllRoom(f) == \A k \in DOMAIN f.items : Room(f, k)
\* versions: the call's number and a digit
GLists(n) ==
  UNION {{[i \in 1..Cardinality(S) |-> [key |-> p[i], o |-> 10 * n + i]] : p \in Perms(S)} : S \in SUBSET GKeys}
DGCalls(f, n) ==
  {[op |-> o, key |-> k, o |-> 10 * n] : o \in {"add", "update"}, k \in {x \in GKeys : Room(f, x)}}
  \cup {[op |-> o, key |-> k, o |-> 10 * n] : o \in {"delete", "deldfsu"}, k \in {x \in GKeys : Room(f, x)}}
  \cup {[op |-> "addif", key |-> k, o |-> 10 * n, ds |-> <<D("A", 10 * n)>>] : k \in {x \in GKeys : Room(f, x)}}
  \cup (IF AllRoom(f) THEN {[op |-> "replace", l |-> l] : l \in GLists(n)} ELSE {})
  \cup {[op |-> "resync"], [op |-> "pop"]}
  \cup (IF f.closed THEN {} ELSE {[op |-> "close"]})
  \cup (IF f.busy = NB THEN {} ELSE {[op |-> "end", how |-> h] : h \in {"ok", "raise", "requeue", "requeue+raise"}})
DGWaits(c) == c.op # "end"
Shape(ds) == [i \in 1..Len(ds) |-> <<IF ds[i].t = "U" THEN "A" ELSE ds[i].t, ds[i].f, ds[i].o = 0>>]
DGAbs(f) == <<[k \in DOMAIN f.items |-> Shape(f.items[k])], f.queue, DOMAIN f.known, f.populated,
              IF f.init > 2 THEN 2 ELSE f.init, f.busy, Shape(f.cur), f.closed>>
DGOp(c) == IF "key" \in DOMAIN c THEN <<c.op, c.key>>
           ELSE IF c.op = "replace" THEN <<c.op, [i \in 1..Len(c.l) |-> c.l[i].key]>>
           ELSE IF c.op = "end" THEN <<c.op, c.how>> ELSE <<c.op>>
=============================================================================
